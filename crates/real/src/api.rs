//! The protocol's steps as the foreign APIs have them, done by the library; bytes in, bytes out.
use rand::{ChaChaRng, SeedableRng};
use signal_credential::amacs::Keypair;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;

/// What an argument is.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A { Sys, Key, Iss, Par, Num, Cred, Pres, Ver, User, Entry, Seed }
pub const FUNCTIONS: [(&str, &[A], Option<&str>); 12] = [
    ("system_parameters_create", &[A::Seed], Some("LENGTH_SYSTEM_PARAMETERS")),
    ("issuer_create", &[A::Sys, A::Seed], Some("LENGTH_ISSUER_KEYPAIR")),
    ("issuer_new", &[A::Sys, A::Key], Some("LENGTH_ISSUER")),
    ("issuer_get_issuer_parameters", &[A::Iss], Some("LENGTH_ISSUER_PARAMETERS")),
    ("issuer_issue", &[A::Iss, A::Num, A::Seed], Some("LENGTH_CREDENTIAL_ISSUANCE")),
    ("issuer_verify", &[A::Iss, A::Pres], Some("LENGTH_VERIFIED_CREDENTIAL")),
    ("issuer_verify_roster_membership", &[A::Iss, A::Ver], Some("LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING")),
    ("user_obtain_finish", &[A::Num, A::Sys, A::Par, A::Cred], Some("LENGTH_USER")),
    ("user_show", &[A::User, A::Entry, A::Seed], Some("LENGTH_CREDENTIAL_PRESENTATION")),
    ("roster_entry_commitment_create", &[A::Num, A::Sys, A::Seed], Some("LENGTH_ROSTER_ENTRY_COMMITMENT")),
    ("roster_entry_commitment_remove_opening", &[A::Entry], Some("LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING")),
    ("roster_entry_commitment_open", &[A::Entry, A::Num, A::Sys], None),
];
pub fn rng(seed: &[u8]) -> ChaChaRng { let mut s = [0u8; 32]; s.copy_from_slice(&seed[..32]); ChaChaRng::from_seed(s) }
/// The same through the library.
pub fn lib(f: usize, a: &[&[u8]]) -> Option<Vec<u8>> {
    Some(match f {
        0 => SystemParameters::hunt_and_peck(&mut rng(a[0])).to_bytes(),
        1 => SignalIssuer::create(SystemParameters::from_bytes(a[0]).ok()?, &mut rng(a[1])).issuer.keypair.to_bytes(),
        2 => {
            let v = SignalIssuer::new(SystemParameters::from_bytes(a[0]).ok()?, Keypair::from_bytes(a[1]).ok()?).to_bytes();
            if SignalIssuer::from_bytes(&v).is_err() { return None; } // not an issuer for this kind of credential
            v
        }
        3 => SignalIssuer::from_bytes(a[0]).ok()?.get_issuer_parameters().to_bytes(),
        4 => SignalIssuer::from_bytes(a[0]).ok()?.issue(a[1], &mut rng(a[2])).ok()?.to_bytes(),
        5 => SignalIssuer::from_bytes(a[0]).ok()?.verify(SignalCredentialPresentation::from_bytes(a[1]).ok()?).ok()?.to_bytes(),
        6 => SignalIssuer::from_bytes(a[0]).ok()?.verify_roster_membership(&VerifiedSignalCredential::from_bytes(a[1]).ok()?).ok()?.to_bytes(),
        7 => {
            let mut u = SignalUser::new(SystemParameters::from_bytes(a[1]).ok()?, IssuerParameters::from_bytes(a[2]).ok()?, None, a[0]).ok()?;
            u.obtain_finish(Some(&SignalCredentialIssuance::from_bytes(a[3]).ok()?)).ok()?;
            u.to_bytes()
        }
        8 => SignalUser::from_bytes(a[0]).ok()?.show(&mut rng(a[2]), &RosterEntryCommitment::from_bytes(a[1]).ok()?).ok()?.to_bytes(),
        9 => RosterEntryCommitment::create(a[0], &SystemParameters::from_bytes(a[1]).ok()?, &mut rng(a[2])).ok()?.to_bytes(),
        10 => RosterEntryCommitment::from_bytes(a[0]).ok()?.commitment.to_bytes(),
        _ => { RosterEntryCommitment::from_bytes(a[0]).ok()?.open(a[1], &SystemParameters::from_bytes(a[2]).ok()?).ok()?; vec![] }
    })
}
/// Where two runs of the library agree, the C API has to agree as well.
pub fn agree(c: &[u8], l1: &[u8], l2: &[u8]) -> bool {
    c.len() == l1.len() && l1.len() == l2.len() && c.chunks(8).zip(l1.chunks(8).zip(l2.chunks(8))).all(|(c, (a, b))| a != b || c == a)
}

/// Honest objects of two worlds; index 0 and 1.
pub struct World { pub sys: Vec<u8>, pub key: Vec<u8>, pub iss: Vec<u8>, pub par: Vec<u8>, pub num: Vec<u8>, pub cred: Vec<u8>, pub user: Vec<u8>, pub entry: Vec<u8>, pub pres: Vec<u8>, pub seed: Vec<u8> }
pub fn world(k: u8) -> World {
    let seed: Vec<u8> = (0..32).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k * 101 + 3)).collect();
    let sys = lib(0, &[&seed]).unwrap();
    let key = lib(1, &[&sys, &seed]).unwrap();
    let iss = lib(2, &[&sys, &key]).unwrap();
    let par = lib(3, &[&iss]).unwrap();
    let num: Vec<u8> = if k == 0 { vec![1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4] } else { vec![0, 0, 4, 9, 3, 0, 9, 0, 1, 8, 2, 0] };
    let cred = lib(4, &[&iss, &num, &seed]).unwrap();
    let user = lib(7, &[&num, &sys, &par, &cred]).unwrap();
    let entry = lib(9, &[&num, &sys, &seed]).unwrap();
    let pres = lib(8, &[&user, &entry, &seed]).unwrap();
    World { sys, key, iss, par, num, cred, user, entry, pres, seed }
}
impl World {
    pub fn get(&self, a: A) -> &[u8] {
        match a { A::Sys => &self.sys, A::Key => &self.key, A::Iss => &self.iss, A::Par => &self.par, A::Num => &self.num, A::Cred => &self.cred,
            A::Pres | A::Ver => &self.pres, A::User => &self.user, A::Entry => &self.entry, A::Seed => &self.seed }
    }
}

/// The order of an honest run.
pub const STEPS: [usize; 12] = [0, 1, 2, 3, 4, 7, 9, 10, 11, 8, 5, 6];


/// Two numbers, the second near the first.
pub const PATTERNS: u8 = 3;
pub const RELATIONS: u8 = 14;
pub fn number_pair(len: usize, pattern: u8, relation: u8) -> (Vec<u8>, Vec<u8>) {
    let a: Vec<u8> = (0..len).map(|i| match pattern { 0 => ((i * 7 + 1) % 10) as u8, 1 => 0, _ => 9 }).collect();
    let mut b = a.clone();
    let last = len.saturating_sub(1);
    match relation {
        0 => (),
        1 => { b.pop(); }
        2 => { if len > 0 { b.remove(0); } }
        3 => b.push(0),
        4 => b.push(9),
        5 => b.insert(0, 0),
        6 => { if len > 0 { b[last] = (b[last] + 1) % 10; } }
        7 => { if len > 0 { b[0] = (b[0] + 1) % 10; } }
        8 => { if len > 0 { b[len / 2] = (b[len / 2] + 5) % 10; } }
        9 => b.resize(26, 0),
        10 => { b.resize(26, 0); b.push(0); }
        11 => b.resize(32, 0),
        12 => { let c = a.clone(); while b.len() < 33 && len > 0 { b.extend_from_slice(&c); } }
        _ => b.reverse(),
    }
    (a, b)
}
/// A user of world w with number n, and that number's roster entry.
pub fn someone(w: &World, n: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let cred = lib(4, &[&w.iss, n, &w.seed]).unwrap();
    let user = lib(7, &[n, &w.sys, &w.par, &cred]).unwrap();
    let entry = lib(9, &[n, &w.sys, &w.seed]).unwrap();
    (cred, user, entry)
}
