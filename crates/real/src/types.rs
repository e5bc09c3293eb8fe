//! Every type with an encoding, and honest objects of each.
use crate::env;
use aeonflux::{amacs, credential, elgamal, issuer, parameters, pedersen, user};
use aeonflux::credential::{Credential, CredentialIssuance, CredentialPresentation, CredentialRequest, VerifiedCredential};
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::proofs::*;
use aeonflux::user::User;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;

#[allow(unused_imports)] use {credential as _c, issuer as _i, parameters as _p, user as _u};

/// What is at an offset of an encoding.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Block { P(usize), S(usize), L(usize) }

pub struct Type {
    pub name: &'static str,
    /// decode; the encoding of what came out
    pub decode: Option<fn(&[u8]) -> Option<Vec<u8>>>,
    pub bincode: fn(&[u8]) -> Option<Vec<u8>>,
    pub json: fn(&str) -> Option<String>,
    pub samples: Vec<Vec<u8>>,
    pub layout: fn(usize) -> Vec<Block>,
}
macro_rules! ty {
    ($name:expr, $t:ty, $samples:expr, $layout:expr) => { Type {
        name: $name,
        decode: Some(|b| <$t>::from_bytes(b).ok().map(|x| x.to_bytes())),
        bincode: |b| bincode::deserialize::<$t>(b).ok().map(|x| bincode::serialize(&x).unwrap()),
        json: |s| serde_json::from_str::<$t>(s).ok().map(|x| serde_json::to_string(&x).unwrap()),
        samples: $samples, layout: $layout,
    } }
}
macro_rules! proof {
    ($name:expr, $t:ty, $n:expr) => { Type {
        name: $name, decode: None,
        bincode: |b| bincode::deserialize::<$t>(b).ok().map(|x| bincode::serialize(&x).unwrap()),
        json: |s| serde_json::from_str::<$t>(s).ok().map(|x| serde_json::to_string(&x).unwrap()),
        samples: (0..2).map(|k| { let mut v = vec![]; let mut r = env::rng(900 + k); for _ in 0..$n { v.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]); v.extend_from_slice(&Scalar::random(&mut r).to_bytes()); } v }).collect(),
        layout: |n| framed(0, n / 40),
    } }
}
fn framed(at: usize, n: usize) -> Vec<Block> { (0..n).flat_map(|i| vec![Block::L(at + 40 * i), Block::S(at + 40 * i + 8)]).collect() }
fn points(at: usize, n: usize) -> Vec<Block> { (0..n).map(|i| Block::P(at + 32 * i)).collect() }
fn scalars(at: usize, n: usize) -> Vec<Block> { (0..n).map(|i| Block::S(at + 32 * i)).collect() }
fn cat(v: Vec<Vec<Block>>) -> Vec<Block> { v.into_iter().flat_map(|x| x).collect() }
fn layout_presentation(at: usize) -> Vec<Block> { cat(vec![points(at, 3), framed(at + 96, 4)]) }
fn layout_signal(_n: usize) -> Vec<Block> { cat(vec![points(0, 1), layout_presentation(32), framed(288, 4)]) }
fn layout_user(at: usize) -> Vec<Block> { cat(vec![points(at, 3), layout_elgamal(at + 96), points(at + 160, 2), scalars(at + 224, 1)]) }
fn layout_elgamal(at: usize) -> Vec<Block> { vec![Block::S(at), Block::P(at + 32)] }
fn layout_issuer(n: usize) -> Vec<Block> { let k = (n - 96) / 64; cat(vec![points(0, 2 + k), scalars(64 + 32 * k, 1 + k)]) }

pub struct Honest {
    pub sys: SystemParameters,
    pub issuer: Issuer,
    pub signal_issuer: SignalIssuer,
    pub issuance: CredentialIssuance,
    pub presentation: CredentialPresentation,
    pub signal_presentation: SignalCredentialPresentation,
    /// without and with key, before and after issuance
    pub users: Vec<User>,
    pub signal_users: Vec<SignalUser>,
    pub entry: RosterEntryCommitment,
    pub number: PhoneNumber,
    pub elgamal: elgamal::Keypair,
}
pub fn user_copy(u: &User) -> User {
    User { system_parameters: u.system_parameters, issuer_parameters: u.issuer_parameters.clone(), key: u.key.clone(), credential: u.credential.clone() }
}
pub fn honest(k: u64) -> Honest {
    env::salt(1000 + k);
    let mut rng = env::rng(k);
    let sys = env::sys(k as u32);
    let digits: Vec<u8> = (0..(k as usize * 5 % 26) + 1).map(|i| ((i * 7 + k as usize) % 10) as u8).collect();
    let number = PhoneNumber::try_from_bytes(&digits).unwrap();
    let signal_issuer = SignalIssuer::create(sys, &mut rng);
    let issuer = Issuer::new(sys, signal_issuer.issuer.keypair.clone());
    let issuance = signal_issuer.issue(&digits, &mut rng).unwrap();
    let elgamal = elgamal::Keypair::generate(&mut rng);
    let mut users = vec![];
    let mut signal_users = vec![];
    for i in 0..4 {
        let key = if i & 1 == 1 { Some(elgamal.clone()) } else { None };
        let mut u = SignalUser::new(sys, signal_issuer.get_issuer_parameters(), key, &digits).unwrap();
        if i & 2 == 2 { u.obtain_finish(Some(&issuance)).unwrap(); }
        users.push(user_copy(&u.user));
        signal_users.push(u);
    }
    let entry = RosterEntryCommitment::create(&digits, &sys, &mut rng).unwrap();
    let signal_presentation = signal_users[2].show(&mut rng, &entry).unwrap();
    let presentation = users[3].show(&Nonces::new(&mut rng, 1), &mut rng).unwrap();
    env::salt(0);
    Honest { sys, issuer, signal_issuer, issuance, presentation, signal_presentation, users, signal_users, entry, number, elgamal }
}

pub fn types(n: u64) -> Vec<Type> {
    let hs: Vec<Honest> = (0..n).map(honest).collect();
    let mut rng = env::rng(77);
    let secret: Vec<amacs::SecretKey> = (0..5).map(|n| amacs::SecretKey::new(n, &mut rng)).collect();
    let h = env::sys(0).h;
    let each = |f: &dyn Fn(&Honest) -> Vec<u8>| -> Vec<Vec<u8>> { hs.iter().map(|h| f(h)).collect() };
    let requests: Vec<Vec<u8>> = (0..5).map(|n| CredentialRequest { attributes_revealed: (0..n).map(|_| Scalar::random(&mut rng)).collect() }.to_bytes()).collect();
    let mut t = vec![
        ty!("amacs::Tag", amacs::Tag, each(&|h| h.issuance.credential.mac.to_bytes()), |n| points(0, n / 32)),
        ty!("amacs::PublicKey", amacs::PublicKey, secret.iter().map(|s| s.get_public_key(&h).to_bytes()).collect(), |n| points(0, n / 32)),
        ty!("amacs::SecretKey", amacs::SecretKey, secret.iter().map(|s| s.to_bytes()).collect(), |n| scalars(0, n / 32)),
        ty!("amacs::Keypair", amacs::Keypair, each(&|h| h.issuer.keypair.to_bytes()), |n| { let k = (n - 32) / 64; cat(vec![points(0, k), scalars(32 * k, k + 1)]) }),
        ty!("credential::Credential", Credential, each(&|h| h.issuance.credential.to_bytes()), |_| cat(vec![points(0, 2), scalars(64, 1)])),
        ty!("credential::CredentialRequest", CredentialRequest, requests, |n| scalars(0, n / 32)),
        ty!("credential::CredentialIssuance", CredentialIssuance, each(&|h| h.issuance.to_bytes()), |_| cat(vec![points(0, 3), scalars(96, 1), framed(128, 5)])),
        ty!("credential::CredentialPresentation", CredentialPresentation, each(&|h| h.presentation.to_bytes()), |_| layout_presentation(0)),
        ty!("credential::VerifiedCredential", VerifiedCredential, each(&|h| VerifiedCredential(h.presentation.clone()).to_bytes()), |_| layout_presentation(0)),
        ty!("elgamal::PublicKey", elgamal::PublicKey, each(&|h| h.elgamal.public.to_bytes()), |_| points(0, 1)),
        ty!("elgamal::SecretKey", elgamal::SecretKey, each(&|h| h.elgamal.secret.to_bytes()), |_| scalars(0, 1)),
        ty!("elgamal::Keypair", elgamal::Keypair, each(&|h| h.elgamal.to_bytes()), |_| layout_elgamal(0)),
        ty!("issuer::Issuer", Issuer, each(&|h| h.issuer.to_bytes()), layout_issuer),
        ty!("parameters::SystemParameters", SystemParameters, each(&|h| h.sys.to_bytes()), |_| points(0, 2)),
        ty!("pedersen::Commitment", pedersen::Commitment, each(&|h| h.issuance.secret_key_commitment.to_bytes()), |_| points(0, 1)),
        ty!("user::User", User, hs.iter().flat_map(|h| h.users.iter().map(|u| u.to_bytes())).collect(), |_| layout_user(0)),
        ty!("SignalIssuer", SignalIssuer, each(&|h| h.signal_issuer.to_bytes()), layout_issuer),
        ty!("SignalCredentialPresentation", SignalCredentialPresentation, each(&|h| h.signal_presentation.to_bytes()), layout_signal),
        ty!("VerifiedSignalCredential", VerifiedSignalCredential, each(&|h| VerifiedSignalCredential::from_bytes(&h.signal_presentation.to_bytes()).unwrap().to_bytes()), layout_signal),
        ty!("SignalUser", SignalUser, hs.iter().flat_map(|h| h.signal_users.iter().map(|u| u.to_bytes())).collect(), |_| cat(vec![scalars(0, 1), layout_user(32)])),
        ty!("PhoneNumber", PhoneNumber, each(&|h| h.number.to_bytes()), |_| scalars(0, 1)),
        ty!("CommittedPhoneNumber", CommittedPhoneNumber, each(&|h| h.entry.commitment.to_bytes()), |_| points(0, 1)),
        ty!("RosterEntryCommitment", RosterEntryCommitment, each(&|h| h.entry.to_bytes()), |_| cat(vec![points(0, 1), scalars(32, 1)])),
        proof!("issuance_revealed::Proof", issuance_revealed::Proof, 5),
        proof!("attributes_blinded::Proof", attributes_blinded::Proof, 5),
        proof!("issuance_blinded::Proof", issuance_blinded::Proof, 7),
        proof!("valid_credential::Proof", valid_credential::Proof, 4),
        proof!("committed_values_equal::Proof", committed_values_equal::Proof, 4),
    ];
    for t in t.iter_mut() { t.samples.dedup(); }
    t
}
#[allow(dead_code)] pub fn unused(_: Ephemeral, _: RistrettoPoint) {}
