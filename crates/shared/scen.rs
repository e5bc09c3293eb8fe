//! Structural scenarios: who does what with whose object, which part of which object is replaced.  Compiled twice, over
//! the toy group and over the real curve; explored on both, and every trace of the toy build is replayed on the real one.
//! `env` (of the including crate) provides the random sources.

use crate::env::{self, EnvRng};
use aeonflux::amacs::Keypair;
use aeonflux::elgamal;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use explorer::{finding, outcome, param};
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::parameters::SystemParameters;
use signal_credential::phone_number::{CommittedPhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;
use signal_credential::IssuerParameters;

pub const SCENARIOS: &[(&str, fn())] = &[
    ("complete", complete), ("verify_splice", verify_splice), ("verify_shape", verify_shape), ("verify_tamper", verify_tamper),
    ("roster_pairs", roster_pairs), ("roster_splice", roster_splice), ("roster_tamper", roster_tamper),
    ("issuance_splice", issuance_splice), ("issuance_tamper", issuance_tamper), ("history3", history3), ("history4", history4), ("history5", history5),
    ("entry_open", entry_open), ("roster_swap", roster_swap),
    ("long_run", long_run), ("numbers_complete", numbers_complete), ("numbers_roster", numbers_roster), ("numbers_issue", numbers_issue), ("numbers_open", numbers_open),
    ("interleaved2", interleaved2), ("interleaved3", interleaved3), ("issuer_history3", issuer_history3), ("issuer_history4", issuer_history4),
];

pub fn find(name: &str) -> Option<fn()> { SCENARIOS.iter().chain(crate::parts::SCENARIOS).find(|s| s.0 == name).map(|s| s.1) }

fn fail(msg: &str) -> ! { panic!("{}", msg.to_string()) }
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { fail(&format!($($a)*)); } } }

/// Blocks of an encoded presentation: (offset, is it a point).
pub const PRES: [(usize, bool); 12] = [(0, true), (32, true), (64, true), (96, true), (136, false), (176, false), (216, false), (256, false),
                                       (296, false), (336, false), (376, false), (416, false)];
/// Blocks verify() looks at / verify_roster_membership() looks at.
pub const VERIFY_BLOCKS: [usize; 7] = [1, 2, 3, 4, 5, 6, 7];
pub const ROSTER_BLOCKS: [usize; 7] = [0, 2, 3, 8, 9, 10, 11];
pub const ISS: [(usize, bool); 9] = [(0, true), (32, true), (64, true), (96, false), (136, false), (176, false), (216, false), (256, false), (296, false)];

fn splice(a: &[u8], b: &[u8], blocks: &[(usize, bool)], which: &[usize], mask: u32) -> Vec<u8> {
    let mut v = a.to_vec();
    for (i, w) in which.iter().enumerate() {
        if mask >> i & 1 == 1 { let o = blocks[*w].0; v[o..o + 32].copy_from_slice(&b[o..o + 32]); }
    }
    v
}
fn same(a: &[u8], b: &[u8], blocks: &[(usize, bool)], which: &[usize]) -> bool {
    which.iter().all(|w| { let o = blocks[*w].0; a[o..o + 32] == b[o..o + 32] })
}

pub struct World { pub sys: SystemParameters, pub issuers: Vec<SignalIssuer> }
impl World {
    pub fn new(rng: &mut EnvRng) -> World {
        let sys = env::sys(0);
        World { sys, issuers: (0..2).map(|_| SignalIssuer::create(sys, rng)).collect() }
    }
    pub fn blank(&self, issuer: usize, number: u32) -> SignalUser {
        SignalUser::new(self.sys, self.issuers[issuer].get_issuer_parameters(), None, &env::number(number)).unwrap()
    }
    pub fn user(&self, issuer: usize, number: u32, rng: &mut EnvRng) -> SignalUser {
        let mut u = self.blank(issuer, number);
        let i = self.issuers[issuer].issue(&env::number(number), rng).unwrap();
        u.obtain_finish(Some(&i)).unwrap();
        u
    }
    pub fn entry(&self, number: u32, rng: &mut EnvRng) -> RosterEntryCommitment {
        RosterEntryCommitment::create(&env::number(number), &self.sys, rng).unwrap()
    }
}

/// C01: honest runs, with every subset of objects sent through their encoding.
fn complete() {
    let mut rng = env::begin(0);
    let enc = param("reencode", 1 << 7);
    let shows = 1 + param("shows", 3);
    let n = env::length_case(param("length", env::LENGTHS));
    let twice = param("reissue", 2) == 1;
    let keyed = param("key", 2) == 1;
    let on = |i: u32| enc >> i & 1 == 1;
    let mut sys = env::sys(0);
    if on(0) { sys = SystemParameters::from_bytes(&sys.to_bytes()).unwrap(); }
    let mut issuer = SignalIssuer::create(sys, &mut rng);
    let other = env::length_case(env::LENGTHS);
    if on(1) {
        issuer = if keyed { SignalIssuer::new(sys, Keypair::from_bytes(&issuer.issuer.keypair.to_bytes()).unwrap()) }
                 else { SignalIssuer::from_bytes(&issuer.to_bytes()).unwrap() };
    }
    let mut ip = issuer.get_issuer_parameters();
    if on(2) { ip = IssuerParameters::from_bytes(&ip.to_bytes()).unwrap(); }
    let key = if keyed { Some(elgamal::Keypair::generate(&mut rng)) } else { None };
    let mut user = SignalUser::new(sys, ip.clone(), key.clone(), &n).unwrap();
    let mut second = SignalUser::new(sys, ip, if shows == 2 { key } else { None }, &other).unwrap();
    for round in 0..(1 + twice as u32) {
        for (u, num) in vec![(&mut user, &n), (&mut second, &other)] {
            let mut i = issuer.issue(num, &mut rng).unwrap();
            if on(3) { i = SignalCredentialIssuance::from_bytes(&i.to_bytes()).unwrap(); }
            let r = u.obtain_finish(Some(&i));
            check!(r.is_ok(), "honest issuance {} rejected: {:?}", round, r);
            if on(4) { *u = SignalUser::from_bytes(&u.to_bytes()).unwrap(); }
        }
    }
    for s in 0..shows {
        for (u, num) in vec![(&user, &n), (&second, &other)] {
            let mut e = RosterEntryCommitment::create(num, &sys, &mut rng).unwrap();
            if on(5) { e = RosterEntryCommitment::from_bytes(&e.to_bytes()).unwrap(); }
            let mut p = u.show(&mut rng, &e).unwrap();
            if on(6) { p = SignalCredentialPresentation::from_bytes(&p.to_bytes()).unwrap(); }
            let pb = p.to_bytes();
            let v = issuer.verify(p);
            check!(v.is_ok(), "honest presentation {} rejected: {:?}", s, v.err());
            let mut v = v.unwrap();
            check!(v.to_bytes() == pb, "the verified credential is not the one presented");
            if on(6) { v = VerifiedSignalCredential::from_bytes(&v.to_bytes()).unwrap(); }
            let c = issuer.verify_roster_membership(&v);
            check!(c.is_ok(), "honest roster membership proof {} rejected: {:?}", s, c.err());
            check!(c.unwrap() == e.commitment, "roster commitment handed back is not the user's");
        }
    }
    outcome("complete");
}

fn two_presentations(w: &World, kind: u32, rng: &mut EnvRng) -> (SignalCredentialPresentation, usize, SignalCredentialPresentation, usize) {
    let u = w.user(0, 0, rng);
    let e = w.entry(0, rng);
    let a = u.show(rng, &e).unwrap();
    match kind {
        0 => { let b = u.show(rng, &e).unwrap(); (a, 0, b, 0) }
        1 => { let v = w.user(0, 1, rng); let f = w.entry(1, rng); let b = v.show(rng, &f).unwrap(); (a, 0, b, 0) }
        2 => { let v = w.user(1, 0, rng); let b = v.show(rng, &e).unwrap(); (a, 0, b, 1) }
        _ => { let v = w.user(0, 0, rng); let f = w.entry(0, rng); let b = v.show(rng, &f).unwrap(); (a, 0, b, 0) }
    }
}

/// C03: every splice of two honest presentations.
fn verify_splice() {
    let mut rng = env::begin(1);
    let kind = param("pair", 4);
    let mask = param("mask", 128);
    let verifier = param("verifier", 2) as usize;
    let w = World::new(&mut rng);
    let (a, ia, b, ib) = two_presentations(&w, kind, &mut rng);
    let (a, b) = (a.to_bytes(), b.to_bytes());
    let x = splice(&a, &b, &PRES, &VERIFY_BLOCKS, mask);
    let expect = (same(&x, &a, &PRES, &VERIFY_BLOCKS) && ia == verifier) || (same(&x, &b, &PRES, &VERIFY_BLOCKS) && ib == verifier);
    judge_verify(&w, verifier, &x, expect);
}
fn judge_verify(w: &World, verifier: usize, x: &[u8], expect: bool) {
    let p = SignalCredentialPresentation::from_bytes(x).unwrap();
    let plain = w.issuers[verifier].issuer.verify(&p.presentation).map(|v| v.to_bytes());
    let r = w.issuers[verifier].verify(p);
    outcome(if r.is_ok() { "accepted" } else { "rejected" });
    check!(r.is_ok() == plain.is_ok(), "Issuer::verify and SignalIssuer::verify disagree");
    match r {
        Ok(v) => {
            check!(expect, "a presentation nobody made was accepted");
            check!(v.to_bytes() == x, "the verified credential is not the one presented");
            check!(plain.unwrap()[..] == x[32..32 + 256], "the verified aeonflux credential is not the one presented");
        }
        Err(_) => check!(!expect, "an honest presentation was rejected"),
    }
}

/// C03: every single-field replacement from a menu.
fn verify_tamper() {
    let mut rng = env::begin(2);
    let w = World::new(&mut rng);
    let u = w.user(0, 0, &mut rng);
    let e = w.entry(0, &mut rng);
    let a = u.show(&mut rng, &e).unwrap().to_bytes();
    let x = tamper(&a, &PRES, &VERIFY_BLOCKS, &w.sys);
    let expect = x == a;
    judge_verify(&w, 0, &x, expect);
}
/// C03: presentations of other numbers of attributes, made by whoever has a credential to claim another attribute.
fn verify_shape() {
    use aeonflux::pedersen::Commitment;
    let mut rng = env::begin(9);
    let shift = param("shift", 5);
    let revealed = param("revealed", 4);
    let blinded = param("blinded", 5);
    let through = param("through bytes", 2) == 1;
    let w = World::new(&mut rng);
    let (u, v) = (w.user(0, 0, &mut rng), w.user(0, 1, &mut rng));
    let e = w.entry(0, &mut rng);
    let mut honest = u.show(&mut rng, &e).unwrap();
    let credential = u.user.credential.clone().unwrap();
    let (m, other) = (credential.attributes[0], v.user.credential.as_ref().unwrap().attributes[0]);
    // what is to be left of the own attribute once `s` is revealed
    let s = match shift { 0 => Scalar::zero(), 1 => Scalar::one(), 2 => m - other, 3 => m, _ => -Scalar::one() };
    let (z, zq) = (Scalar::random(&mut rng), Scalar::random(&mut rng));
    let (p, q, a, b) = (credential.mac.nonce, credential.mac.mac, w.sys.h, w.sys.g);
    let commit = |x: RistrettoPoint| Commitment::from_bytes(&x.compress().to_bytes()).unwrap();
    let x0 = u.user.issuer_parameters.Xn[0];
    let list = match revealed { 0 => vec![], 1 => vec![s], 2 => vec![s, Scalar::zero()], _ => vec![Scalar::zero(), s] };
    let claimed = m - s;
    let cm = claimed * p + z * a;
    let mut hidden = vec![commit(cm)];
    let mut cq = q + zq * a;
    match blinded {
        1 => hidden.push(commit(RistrettoPoint::identity())),
        2 => { hidden.push(commit(s * p)); }
        3 => { hidden.push(commit(z * a)); cq += z * x0; }
        4 => { hidden.insert(0, commit(RistrettoPoint::identity())); }
        _ => (),
    }
    let (va, pr) = (z * x0 - zq * a, if blinded == 4 { RistrettoPoint::identity() } else { cm });
    honest.presentation.proof = bincode::deserialize(&crate::systems::create(3, &mut merlin::Transcript::new(b"AEONFLUX SHOW"), &[b, a, x0, p, va, pr], &[claimed, z, -zq])).unwrap();
    honest.presentation.rerandomized_nonce = p;
    honest.presentation.rerandomized_mac_commitment = commit(cq);
    honest.presentation.attributes_revealed = list.clone();
    honest.presentation.attributes_blinded = hidden;
    if through { match SignalCredentialPresentation::from_bytes(&honest.to_bytes()) { Ok(x) => honest = x, Err(_) => { outcome("undecodable"); return; } } }
    let plain = w.issuers[0].issuer.verify(&honest.presentation).is_ok();
    let r = w.issuers[0].verify(honest);
    check!(r.is_ok() == plain, "Issuer::verify and SignalIssuer::verify disagree");
    outcome(if plain { "accepted" } else { "rejected" });
    if plain { check!(claimed == m, "a user with a valid tag for {:?} is accepted with a commitment to {:?}, revealing {:?}", m, claimed, list); }
}
pub const MENU: u32 = 10;
/// Replace up to two of the blocks `which` by an entry of a menu.
fn tamper(a: &[u8], blocks: &[(usize, bool)], which: &[usize], sys: &SystemParameters) -> Vec<u8> {
    let n = which.len() as u32;
    let (f1, f2) = (param("field1", n), param("field2", n + 1));
    let mut v = a.to_vec();
    for (f, label) in vec![(f1, "op1"), (f2, "op2")] {
        if f == n { continue; }
        let op = param(label, MENU);
        let (o, point) = blocks[which[f as usize]];
        let mut t = [0u8; 32];
        t.copy_from_slice(&v[o..o + 32]);
        // same-typed fields to copy from
        let others: Vec<[u8; 32]> = which.iter().map(|i| blocks[*i]).filter(|b| b.1 == point && b.0 != o)
            .map(|b| { let mut x = [0u8; 32]; x.copy_from_slice(&a[b.0..b.0 + 32]); x }).collect();
        let new = if point { tamper_point(op, t, &others, sys) } else { tamper_scalar(op, t, &others) };
        v[o..o + 32].copy_from_slice(&new);
    }
    v
}

/// C04: every user with every entry, and entries with mixed-up openings.
fn roster_pairs() {
    let mut rng = env::begin(3);
    let u = param("user", 3);              // 0, 1: numbers 0, 1 of issuer 0; 2: number 0 of issuer 1
    let e = param("entry", 3) as usize;    // 0, 2: entries for number 0; 1: for number 1
    let o = param("opening", 3) as usize;
    let verifier = param("verifier", 2) as usize;
    let w = World::new(&mut rng);
    let users = [w.user(0, 0, &mut rng), w.user(0, 1, &mut rng), w.user(1, 0, &mut rng)];
    let entries = [w.entry(0, &mut rng), w.entry(1, &mut rng), w.entry(0, &mut rng)];
    let mixed = RosterEntryCommitment { commitment: entries[e].commitment, opening: entries[o].opening.clone() };
    let p = users[u as usize].show(&mut rng, &mixed).unwrap();
    let b = p.to_bytes();
    let v = VerifiedSignalCredential::from_bytes(&b).unwrap();
    let r = w.issuers[verifier].verify_roster_membership(&v);
    // the roster proof concerns commitments only, so any issuer of these system parameters may check it
    let expect = (u % 2) == (e as u32 % 2) && e == o;
    outcome(if r.is_ok() { "accepted" } else { "rejected" });
    check!(r.is_ok() == expect, "user {} with entry {} and opening {}: accepted = {}", u, e, o, r.is_ok());
    if let Ok(c) = r { check!(c == entries[e].commitment, "another commitment handed back"); }
    let r = w.issuers[verifier].verify(p);
    outcome(if r.is_ok() { "valid" } else { "invalid" });
    check!(r.is_ok() == ((u == 2) == (verifier == 1)), "presentation verification depends on the roster entry");
}

fn judge_roster(w: &World, x: &[u8], expect: bool) {
    let v = VerifiedSignalCredential::from_bytes(x).unwrap();
    let r = w.issuers[0].verify_roster_membership(&v);
    outcome(if r.is_ok() { "accepted" } else { "rejected" });
    match r {
        Ok(c) => {
            check!(expect, "a roster proof nobody made was accepted");
            check!(c.to_bytes()[..] == x[..32], "another commitment handed back");
        }
        Err(_) => check!(!expect, "an honest roster proof was rejected"),
    }
}
/// C04: every splice of two honest presentations.
fn roster_splice() {
    let mut rng = env::begin(4);
    let kind = param("pair", 4);
    let mask = param("mask", 128);
    let w = World::new(&mut rng);
    let (a, _, b, _) = two_presentations(&w, kind, &mut rng);
    let (a, b) = (a.to_bytes(), b.to_bytes());
    let x = splice(&a, &b, &PRES, &ROSTER_BLOCKS, mask);
    let expect = same(&x, &a, &PRES, &ROSTER_BLOCKS) || same(&x, &b, &PRES, &ROSTER_BLOCKS);
    judge_roster(&w, &x, expect);
}
fn roster_tamper() {
    let mut rng = env::begin(5);
    let w = World::new(&mut rng);
    let u = w.user(0, 0, &mut rng);
    let e = w.entry(0, &mut rng);
    let a = u.show(&mut rng, &e).unwrap().to_bytes();
    let x = tamper(&a, &PRES, &ROSTER_BLOCKS, &w.sys);
    let expect = x == a;
    judge_roster(&w, &x, expect);
}
/// C04: an accepted presentation whose roster part comes from someone else's accepted one, by whole parts.
fn roster_swap() {
    let mut rng = env::begin(12);
    let kind = param("pair", 4);
    let part = param("part", 3); // 0: entry, 1: roster proof, 2: both
    let w = World::new(&mut rng);
    let (a, _, b, _) = two_presentations(&w, kind, &mut rng);
    let (x, y) = (a.to_bytes(), b.to_bytes());
    let mut m = a.clone();
    if part != 1 { m.roster_entry_commitment = b.roster_entry_commitment; }
    if part != 0 { m.roster_membership_proof = b.roster_membership_proof.clone(); }
    let mb = m.to_bytes();
    let v = w.issuers[0].verify(m);
    check!(v.is_ok(), "the credential part was not touched");
    let r = w.issuers[0].verify_roster_membership(&v.unwrap());
    let expect = same(&mb, &x, &PRES, &ROSTER_BLOCKS) || same(&mb, &y, &PRES, &ROSTER_BLOCKS);
    outcome(if r.is_ok() { "accepted" } else { "rejected" });
    check!(r.is_ok() == expect, "roster part {} of another presentation: accepted = {}", part, r.is_ok());
}

fn judge_issuance(w: &World, user: &mut SignalUser, x: &[u8], expect: bool) {
    let i = SignalCredentialIssuance::from_bytes(x).unwrap();
    let before = user.to_bytes();
    let r = user.obtain_finish(Some(&i));
    outcome(if r.is_ok() { "stored" } else { "refused" });
    let _ = w;
    match r {
        Ok(()) => {
            check!(expect, "an issuance not made for this user by this issuer was accepted");
            check!(user.user.credential.as_ref().map(|c| c.to_bytes()) == Some(x[32..128].to_vec()), "the stored credential is not the one issued");
            check!(user.to_bytes()[..192] == before[..192], "accepting an issuance changed the rest of the user");
        }
        Err(_) => {
            check!(!expect, "an honest issuance was refused");
            check!(user.to_bytes() == before, "a refused issuance changed the user");
        }
    }
}
fn old_state(w: &World, user: &mut SignalUser, number: u32, issuer: usize, rng: &mut EnvRng) {
    if param("had credential", 2) == 1 {
        let i = w.issuers[issuer].issue(&env::number(number), rng).unwrap();
        user.obtain_finish(Some(&i)).unwrap();
    }
}
/// C05: every splice of two honest issuances, for every receiver.
fn issuance_splice() {
    let mut rng = env::begin(6);
    let kind = param("pair", 3);
    let mask = param("mask", 512);
    let (ri, rn) = (param("receiver's issuer", 2) as usize, param("receiver's number", 2));
    let w = World::new(&mut rng);
    let (bi, bn) = match kind { 0 => (0, 0), 1 => (0, 1), _ => (1, 0) };
    let a = w.issuers[0].issue(&env::number(0), &mut rng).unwrap().to_bytes();
    let b = w.issuers[bi].issue(&env::number(bn), &mut rng).unwrap().to_bytes();
    let all: Vec<usize> = (0..9).collect();
    let x = splice(&a, &b, &ISS, &all, mask);
    let mut u = w.blank(ri, rn);
    old_state(&w, &mut u, rn, ri, &mut rng);
    let expect = (x == a && ri == 0 && rn == 0) || (x == b && ri == bi && rn == bn);
    // known finding: all of an honest issuance of this issuer for somebody else, but for the attribute
    let all_but = |y: &[u8]| x[..96] == y[..96] && x[128..] == y[128..];
    let own = w.blank(ri, rn).to_bytes()[..32] == x[96..128];
    if !expect && own && ((ri == 0 && all_but(&a)) || (ri == bi && all_but(&b))) {
        if u.obtain_finish(Some(&SignalCredentialIssuance::from_bytes(&x).unwrap())).is_ok() {
            finding("unbound-attribute", || "accepted: another user's issuance with the attribute replaced by the receiver's number".to_string());
        }
        outcome("somebody else's tag");
        return;
    }
    judge_issuance(&w, &mut u, &x, expect);
}
fn issuance_tamper() {
    let mut rng = env::begin(7);
    let w = World::new(&mut rng);
    let a = w.issuers[0].issue(&env::number(0), &mut rng).unwrap().to_bytes();
    let all: Vec<usize> = (0..9).collect();
    let x = tamper(&a, &ISS, &all, &w.sys);
    let mut u = w.blank(0, 0);
    old_state(&w, &mut u, 0, 0, &mut rng);
    let expect = x == a;
    judge_issuance(&w, &mut u, &x, expect);
}

fn history3() { history(3) }
fn history4() { history(4) }
fn history5() { history(5) }
/// C22: every history over 9 operations.
fn history(depth: usize) {
    let mut rng = env::begin(8);
    let w = World::new(&mut rng);
    let other_sys = env::sys(1);
    let with_key = param("key", 2) == 1;
    let mut user = w.blank(0, 0);
    if with_key { user.user.key = Some(elgamal::Keypair::generate(&mut rng)); }
    let fixed = user.to_bytes()[..192].to_vec();
    let mut model: Option<Vec<u8>> = None;
    let mut last: Option<SignalCredentialIssuance> = None;
    if param("start with credential", 2) == 1 {
        let i = w.issuers[0].issue(&env::number(0), &mut rng).unwrap();
        user.obtain_finish(Some(&i)).unwrap();
        model = Some(i.credential.to_bytes());
        last = Some(i);
    }
    let entry = w.entry(0, &mut rng);
    for step in 0..depth {
        let op = param("op", 9);
        match op {
            0 => {
                let i = w.issuers[0].issue(&env::number(0), &mut rng).unwrap();
                check!(user.obtain_finish(Some(&i)).is_ok(), "step {}: honest issuance refused", step);
                model = Some(i.credential.to_bytes());
                last = Some(i);
            }
            1 => check!(user.obtain_finish(None).is_err(), "step {}: a missing issuance was accepted", step),
            2 => {
                let i = w.issuers[0].issue(&env::number(1), &mut rng).unwrap();
                check!(user.obtain_finish(Some(&i)).is_err(), "step {}: someone else's issuance was accepted", step);
            }
            3 => {
                let i = w.issuers[1].issue(&env::number(0), &mut rng).unwrap();
                check!(user.obtain_finish(Some(&i)).is_err(), "step {}: another issuer's issuance was accepted", step);
            }
            4 => {
                // the proof of one honest issuance with the credential of another
                let i = w.issuers[0].issue(&env::number(0), &mut rng).unwrap().to_bytes();
                let mut j = w.issuers[0].issue(&env::number(0), &mut rng).unwrap().to_bytes();
                j[32..128].copy_from_slice(&i[32..128]);
                let j = SignalCredentialIssuance::from_bytes(&j).unwrap();
                check!(user.obtain_finish(Some(&j)).is_err(), "step {}: an inconsistent issuance was accepted", step);
            }
            5 => {
                let before = user.to_bytes();
                let r = user.show(&mut rng, &entry);
                check!(r.is_ok() == model.is_some(), "step {}: presenting works = {}, has credential = {}", step, r.is_ok(), model.is_some());
                check!(user.to_bytes() == before, "step {}: presenting changed the user", step);
                if let Ok(p) = r {
                    let v = w.issuers[0].verify(p);
                    check!(v.is_ok(), "step {}: the user's presentation was rejected", step);
                    check!(w.issuers[0].verify_roster_membership(&v.unwrap()).is_ok(), "step {}: the user's roster proof was rejected", step);
                }
            }
            6 => {
                let b = user.to_bytes();
                let r = SignalUser::from_bytes(&b);
                check!(r.is_ok(), "step {}: a saved user cannot be restored", step);
                let r = r.unwrap();
                check!(r == user && r.to_bytes() == b, "step {}: the restored user differs", step);
                user = r;
            }
            7 => if let Some(i) = &last {
                // the issuance accepted last is delivered again, with its tag changed
                check!(user.obtain_finish(Some(&retagged(&w, i))).is_err(), "step {}: an issuance with another tag was accepted", step);
            },
            _ => {
                let q = user.user.obtain(vec![user.phone_number.0]);
                check!(q.attributes_revealed == vec![user.phone_number.0], "step {}: request for other attributes", step);
                let i = w.issuers[0].issuer.issue(&q, &mut rng).unwrap();
                let before = user.to_bytes();
                // offered to a user with other system parameters it must be refused
                let mut o = SignalUser::new(other_sys, w.issuers[0].get_issuer_parameters(), None, &env::number(0)).unwrap();
                check!(o.obtain_finish(Some(&i)).is_err(), "step {}: accepted under other system parameters", step);
                check!(user.to_bytes() == before, "step {}: asking for a credential changed the user", step);
            }
        }
        let now = user.to_bytes();
        check!(now[..192] == fixed[..], "step {}: operation {} changed the user's parameters", step, op);
        check!(user.user.credential.as_ref().map(|c| c.to_bytes()) == model, "step {}: after operation {} the user's credential is not that of the last successful issuance", step, op);
        check!(user.user.key.is_some() == with_key, "step {}: operation {} changed the user's key", step, op);
        explorer::observe(&[op as u8, model.is_some() as u8]);
        outcome(if model.is_some() { "has" } else { "empty" });
    }
}

/// C14: every entry, with every opening, for every number, under every parameters.
fn entry_open() {
    let mut rng = env::begin(9);
    let (c, o, n, s) = (param("commitment", 4) as usize, param("opening", 4) as usize, param("number", 3), param("parameters", 2));
    let sys = [env::sys(0), env::sys(1)];
    // entries 0, 1: number 0; 2: number 1; 3: number 0 under the other parameters
    let mk = |k: u32, s: usize, rng: &mut EnvRng| RosterEntryCommitment::create(&env::number(k), &sys[s], rng).unwrap();
    let es = [mk(0, 0, &mut rng), mk(0, 0, &mut rng), mk(1, 0, &mut rng), mk(0, 1, &mut rng)];
    let x = RosterEntryCommitment { commitment: es[c].commitment, opening: es[o].opening.clone() };
    let x = if param("reencode", 2) == 1 { RosterEntryCommitment::from_bytes(&x.to_bytes()).unwrap() } else { x };
    let num = [0, 1, 2][n as usize];
    let is = [0u32, 0, 1, 0][c] == num && c == o && (c == 3) == (s == 1);
    let r = x.open(&env::number(num), &sys[s as usize]);
    outcome(if r.is_ok() { "opens" } else { "does not open" });
    check!(r.is_ok() == is, "commitment {} with opening {} for number {} under parameters {}: opens = {}", c, o, num, s, r.is_ok());
    let stripped: CommittedPhoneNumber = x.commitment;
    check!(stripped.to_bytes()[..] == x.to_bytes()[..32] && stripped == es[c].commitment, "stripping the opening changes the commitment");
}

/// Numbers of every length, the ones too long included, by their first and last digits.
fn menu_number(length: u32, pattern: u32) -> Vec<u8> {
    let mut v: Vec<u8> = (0..length).map(|i| match pattern { 0 | 2 | 3 => 1 + (i % 9) as u8, 1 => 0, _ => 9 }).collect();
    let n = v.len();
    if pattern == 2 && n > 0 { v[n - 1] = 0; }
    if pattern == 3 && n > 0 { v[0] = 0; }
    v
}
const PATTERNS: u32 = 5;
const LONGEST: u32 = 26;
fn pick_number(label: &'static str, lengths: &[u32]) -> Vec<u8> { menu_number(lengths[param(label, lengths.len() as u32) as usize], param("digits", PATTERNS)) }
fn all_lengths() -> Vec<u32> { (0..=29).chain(vec![31, 32, 33, 40]).collect() }
const SOME_LENGTHS: [u32; 9] = [0, 1, 2, 3, 11, 24, 25, 26, 27];

/// C01: the whole protocol for every kind of number.
fn numbers_complete() {
    let mut rng = env::begin(13);
    let w = World::new(&mut rng);
    let n = pick_number("length", &all_lengths());
    let fits = n.len() <= LONGEST as usize;
    let u = SignalUser::new(w.sys, w.issuers[0].get_issuer_parameters(), None, &n);
    let i = w.issuers[0].issue(&n, &mut rng);
    let e = RosterEntryCommitment::create(&n, &w.sys, &mut rng);
    check!(u.is_ok() == fits && i.is_ok() == fits && e.is_ok() == fits, "a number of {} digits: user {}, issuance {}, entry {}", n.len(), u.is_ok(), i.is_ok(), e.is_ok());
    outcome(if fits { "fits" } else { "too long" });
    if !fits { return; }
    let (mut u, i, e) = (u.unwrap(), i.unwrap(), e.ok().unwrap());
    check!(u.obtain_finish(Some(&i)).is_ok(), "honest issuance refused");
    let u = SignalUser::from_bytes(&u.to_bytes()).unwrap();
    let p = u.show(&mut rng, &e);
    check!(p.is_ok(), "cannot present");
    let v = w.issuers[0].verify(p.unwrap());
    check!(v.is_ok(), "honest presentation rejected");
    let c = w.issuers[0].verify_roster_membership(&v.unwrap());
    check!(c.is_ok(), "honest roster membership proof rejected");
    check!(c.unwrap() == e.commitment, "another commitment handed back");
}

/// C01: one operation after another many times, on the same objects; nothing wears out and nothing is mixed up.
const LONG: u32 = 300;
fn long_run() {
    let mut rng = env::begin(14);
    let w = World::new(&mut rng);
    let what = param("what", 6);
    let keyed = param("key", 2) == 1;
    let (n, m) = (env::number(0), env::number(1));
    let ip = w.issuers[0].get_issuer_parameters();
    let mut u = SignalUser::new(w.sys, ip, if keyed { Some(elgamal::Keypair::generate(&mut rng)) } else { None }, &n).unwrap();
    u.obtain_finish(Some(&w.issuers[0].issue(&n, &mut rng).unwrap())).unwrap();
    let e = w.entry(0, &mut rng);
    let present = |u: &SignalUser, e: &RosterEntryCommitment, rng: &mut EnvRng, k: u32| {
        let p = u.show(rng, e);
        check!(p.is_ok(), "presentation {} cannot be made", k);
        p.unwrap()
    };
    let judge = |p: SignalCredentialPresentation, e: &RosterEntryCommitment, k: u32| {
        let v = w.issuers[0].verify(p);
        check!(v.is_ok(), "presentation {} rejected", k);
        let c = w.issuers[0].verify_roster_membership(&v.unwrap());
        check!(c.is_ok(), "roster membership proof {} rejected", k);
        check!(c.unwrap() == e.commitment, "another commitment handed back for presentation {}", k);
    };
    let issuer = w.issuers[0].to_bytes();
    let first = present(&u, &e, &mut rng, 0).to_bytes();
    for k in 1..=LONG {
        match what {
            0 => { present(&u, &e, &mut rng, k); } // shown again and again, one of them verified below
            1 => judge(present(&u, &e, &mut rng, k), &e, k),
            2 => judge(SignalCredentialPresentation::from_bytes(&first).unwrap(), &e, k), // the same one verified
            3 => { // issued again and again
                let i = w.issuers[0].issue(&n, &mut rng);
                check!(i.is_ok(), "issuance {} failed", k);
                check!(u.obtain_finish(Some(&i.unwrap())).is_ok(), "issuance {} refused", k);
            }
            4 => { // for others, and refused in between
                let i = w.issuers[0].issue(&m, &mut rng).unwrap();
                check!(u.obtain_finish(Some(&i)).is_err(), "another's credential {} accepted", k);
                check!(w.issuers[1].verify(SignalCredentialPresentation::from_bytes(&first).unwrap()).is_err(), "presentation {} accepted by another issuer", k);
            }
            _ => { // saved and restored
                u = SignalUser::from_bytes(&u.to_bytes()).unwrap();
                let f = w.entry(0, &mut rng);
                check!(f.open(&n, &w.sys).is_ok() && f.open(&m, &w.sys).is_err(), "entry {} opens wrongly", k);
            }
        }
    }
    judge(present(&u, &e, &mut rng, LONG + 1), &e, LONG + 1);
    judge(SignalCredentialPresentation::from_bytes(&first).unwrap(), &e, 0);
    check!(w.issuers[0].to_bytes() == issuer, "the issuer changed");
    outcome("long");
}

/// Two numbers, and whether their attributes are one.
fn two_numbers(lengths: &[u32]) -> (Vec<u8>, Vec<u8>, bool, bool) {
    use signal_credential::phone_number::PhoneNumber;
    let (a, b) = (pick_number("first length", lengths), pick_number("second length", lengths));
    let fit = a.len() <= LONGEST as usize && b.len() <= LONGEST as usize;
    // small groups have fewer scalars than there are numbers
    let equal = fit && PhoneNumber::try_from_bytes(&a).ok() == PhoneNumber::try_from_bytes(&b).ok();
    (a, b, fit, equal)
}
/// C04: a user with one number and the entry of another.
fn numbers_roster() {
    let mut rng = env::begin(14);
    let (a, b, fit, equal) = two_numbers(&SOME_LENGTHS);
    if !fit { return; }
    let w = World::new(&mut rng);
    let mut u = SignalUser::new(w.sys, w.issuers[0].get_issuer_parameters(), None, &a).unwrap();
    u.obtain_finish(Some(&w.issuers[0].issue(&a, &mut rng).unwrap())).unwrap();
    let e = RosterEntryCommitment::create(&b, &w.sys, &mut rng).unwrap();
    let v = w.issuers[0].verify(u.show(&mut rng, &e).unwrap());
    check!(v.is_ok(), "the credential is rejected");
    let r = w.issuers[0].verify_roster_membership(&v.unwrap());
    check!(r.is_ok() == equal, "number {:?}, entry of {:?}: accepted = {}", a, b, r.is_ok());
    outcome(if a == b { "same" } else { "another" });
}
/// C05: an issuance for one number, received by the user with another.
fn numbers_issue() {
    let mut rng = env::begin(15);
    let (a, b, fit, equal) = two_numbers(&SOME_LENGTHS);
    if !fit { return; }
    let w = World::new(&mut rng);
    let mut u = SignalUser::new(w.sys, w.issuers[0].get_issuer_parameters(), None, &a).unwrap();
    let before = u.to_bytes();
    let i = w.issuers[0].issue(&b, &mut rng).unwrap();
    let r = u.obtain_finish(Some(&i));
    check!(r.is_ok() == equal, "number {:?}, issuance for {:?}: accepted = {}", a, b, r.is_ok());
    match r {
        Ok(()) => check!(u.user.credential == Some(i.credential), "the stored credential is not the one issued"),
        Err(_) => check!(u.to_bytes() == before, "a refused issuance changed the user"),
    }
    outcome(if a == b { "same" } else { "another" });
}
/// C14: the entry of one number opened with another.
fn numbers_open() {
    let mut rng = env::begin(16);
    let (a, b, _, equal) = two_numbers(&all_lengths());
    let sys = env::sys(0);
    match RosterEntryCommitment::create(&a, &sys, &mut rng) {
        Err(_) => check!(a.len() > LONGEST as usize, "no entry can be made for {:?}", a),
        Ok(e) => {
            check!(a.len() <= LONGEST as usize, "an entry was made for {:?}", a);
            let r = e.open(&b, &sys);
            check!(r.is_ok() == equal, "the entry of {:?} opens with {:?} = {}", a, b, r.is_ok());
        }
    }
    outcome(if a == b { "same" } else { "another" });
}

/// One run of the protocol, advanced step by step; what each step must give is fixed when the run starts.
struct Session {
    issuer: usize, number: u32, fault: u32, at: u32, user: SignalUser, entry: Option<RosterEntryCommitment>,
    issuance: Option<SignalCredentialIssuance>, shown: Option<Vec<u8>>, verified: Option<VerifiedSignalCredential>, over: bool,
}
const STEPS: u32 = 5;
/// 0: honest; 1: another user's issuance; 2: another issuer's; 3: a tampered presentation; 4: presented to the other issuer;
/// 5: shown for another number's entry; 6: the same user enrols a second time and shows;
/// 7: the issuance is delivered again with its tag changed; 8: a changed presentation after the honest one
const FAULTS: u32 = 9;
fn retagged(w: &World, i: &SignalCredentialIssuance) -> SignalCredentialIssuance {
    let mut x = SignalCredentialIssuance::from_bytes(&i.to_bytes()).unwrap();
    x.credential.mac.mac += w.sys.g;
    x
}
impl Session {
    fn new(w: &World, issuer: usize, number: u32, fault: u32) -> Session {
        Session { issuer, number, fault, at: 0, user: w.blank(issuer, number), entry: None, issuance: None, shown: None, verified: None, over: false }
    }
    fn state(&self) -> Vec<u8> {
        let mut v = self.user.to_bytes();
        if let Some(e) = &self.entry { v.extend(e.to_bytes()); }
        if let Some(e) = &self.issuance { v.extend(e.to_bytes()); }
        if let Some(e) = &self.shown { v.extend(e); }
        if let Some(e) = &self.verified { v.extend(e.to_bytes()); }
        v
    }
    fn step(&mut self, w: &World, rng: &mut EnvRng) {
        let f = self.fault;
        let at = self.at;
        self.at += 1;
        if self.over { return; }
        match at {
            0 => {
                let (i, n) = match f { 1 => (self.issuer, self.number + 1), 2 => (1 - self.issuer, self.number), _ => (self.issuer, self.number) };
                let r = w.issuers[i].issue(&env::number(n), rng);
                check!(r.is_ok(), "the issuer does not issue");
                self.issuance = r.ok();
            }
            1 => {
                if f == 6 { check!(self.user.obtain_finish(self.issuance.as_ref()).is_ok(), "an honest issuance was refused"); self.issuance = w.issuers[self.issuer].issue(&env::number(self.number), rng).ok(); }
                let r = self.user.obtain_finish(self.issuance.as_ref());
                check!(r.is_ok() == (f != 1 && f != 2), "fault {}: issuance accepted = {}", f, r.is_ok());
                check!(self.user.user.credential == if r.is_ok() { self.issuance.as_ref().map(|i| i.credential.clone()) } else { None }, "the user does not hold the credential issued to them");
                self.over = r.is_err();
                if f == 7 {
                    let before = self.user.to_bytes();
                    check!(self.user.obtain_finish(Some(&retagged(w, self.issuance.as_ref().unwrap()))).is_err(), "a changed issuance was accepted after the honest one");
                    check!(self.user.to_bytes() == before, "a refused issuance changed the user");
                }
            }
            2 => {
                let e = w.entry(self.number + (f == 5) as u32, rng);
                let p = self.user.show(rng, &e);
                check!(p.is_ok(), "cannot present");
                let mut b = p.unwrap().to_bytes();
                if f == 3 { let s = Scalar::from_canonical_bytes({ let mut t = [0u8; 32]; t.copy_from_slice(&b[136..168]); t }).unwrap() + Scalar::one(); b[136..168].copy_from_slice(s.as_bytes()); }
                self.shown = Some(b);
                self.entry = Some(e);
            }
            3 => {
                let i = if f == 4 { 1 - self.issuer } else { self.issuer };
                let b = self.shown.clone().unwrap();
                let r = w.issuers[i].verify(SignalCredentialPresentation::from_bytes(&b).unwrap());
                check!(r.is_ok() == (f != 3 && f != 4), "fault {}: presentation accepted = {}", f, r.is_ok());
                if f == 8 {
                    let mut c = b.clone();
                    c[96..128].copy_from_slice(&b[64..96]);
                    check!(w.issuers[i].verify(SignalCredentialPresentation::from_bytes(&c).unwrap()).is_err(), "a changed presentation was accepted after the honest one");
                }
                if let Ok(v) = r { check!(v.to_bytes() == b, "the verified credential is not the one presented"); self.verified = Some(v); } else { self.over = true; }
            }
            _ => {
                let r = w.issuers[self.issuer].verify_roster_membership(self.verified.as_ref().unwrap());
                check!(r.is_ok() == (f != 5), "fault {}: roster proof accepted = {}", f, r.is_ok());
                if let Ok(c) = r { check!(c == self.entry.as_ref().unwrap().commitment, "another run's commitment handed back"); }
                self.over = true;
            }
        }
    }
}
/// C24: every interleaving of runs; nothing of a run changes but by its own steps, and each ends as it does alone.
fn interleave(w: &World, mut runs: Vec<Session>, chunk: u32, rng: &mut EnvRng) {
    let issuers: Vec<Vec<u8>> = w.issuers.iter().map(|i| i.to_bytes()).collect();
    loop {
        let open: Vec<usize> = (0..runs.len()).filter(|i| runs[*i].at < STEPS).collect();
        if open.is_empty() { break; }
        let k = open[param("which", open.len() as u32) as usize];
        let before: Vec<Vec<u8>> = runs.iter().map(|r| r.state()).collect();
        // a run of three moves does the first two and the last two steps at once
        let n = if chunk == 1 || runs[k].at == 2 { 1 } else { 2 };
        for _ in 0..n { runs[k].step(w, rng); }
        for i in 0..runs.len() { check!(i == k || runs[i].state() == before[i], "a step of run {} changed run {}", k, i); }
        check!(w.issuers.iter().zip(&issuers).all(|(i, b)| &i.to_bytes() == b), "a step of run {} changed an issuer", k);
    }
    for r in &runs { outcome(if r.fault == 1 || r.fault == 2 { "refused" } else { "run" }); }
}
fn interleaved2() {
    let mut rng = env::begin(17);
    let w = World::new(&mut rng);
    let (issuer, number, fault, other) = (param("second's issuer", 2) as usize, param("second's number", 2), param("second's fault", FAULTS), param("first's fault", 2) * 3);
    let runs = vec![Session::new(&w, 0, 0, other), Session::new(&w, issuer, number, fault)];
    interleave(&w, runs, 1, &mut rng);
}
fn interleaved3() {
    let mut rng = env::begin(18);
    let w = World::new(&mut rng);
    let fault = param("third's fault", FAULTS);
    let runs = vec![Session::new(&w, 0, 0, 0), Session::new(&w, 0, 1, 0), Session::new(&w, 0, 0, fault)];
    interleave(&w, runs, 2, &mut rng);
}
fn issuer_history3() { issuer_history(3) }
fn issuer_history4() { issuer_history(4) }
/// C24: every history of requests to one issuer; each answer is that of a fresh issuer with this key.
fn issuer_history(depth: usize) {
    let mut rng = env::begin(19);
    let w = World::new(&mut rng);
    let mut issuer = SignalIssuer::from_bytes(&w.issuers[0].to_bytes()).unwrap();
    let key = issuer.to_bytes();
    let (u, v, x) = (w.user(0, 0, &mut rng), w.user(0, 1, &mut rng), w.user(1, 0, &mut rng));
    let (e, f) = (w.entry(0, &mut rng), w.entry(1, &mut rng));
    let good = u.show(&mut rng, &e).unwrap().to_bytes();
    let mixed = v.show(&mut rng, &e).unwrap().to_bytes();
    let foreign = x.show(&mut rng, &e).unwrap().to_bytes();
    let second = v.show(&mut rng, &f).unwrap().to_bytes();
    // the credential part of one with the nonce of another
    let mut forged = good.clone();
    forged[32..96].copy_from_slice(&second[32..96]);
    let pres = |b: &[u8]| SignalCredentialPresentation::from_bytes(b).unwrap();
    let shown = |b: &[u8]| VerifiedSignalCredential::from_bytes(b).unwrap();
    for step in 0..depth {
        let op = param("op", 11);
        match op {
            0 | 1 => {
                let i = issuer.issue(&env::number(op), &mut rng);
                check!(i.is_ok(), "step {}: no credential is issued", step);
                check!(w.blank(0, op).obtain_finish(i.as_ref().ok()).is_ok(), "step {}: the issuance is refused", step);
                check!(w.blank(0, 1 - op).obtain_finish(i.as_ref().ok()).is_err(), "step {}: the issuance is accepted by another", step);
            }
            2 => check!(issuer.issue(&[9u8; 27][..], &mut rng).is_err(), "step {}: a credential for a number too long", step),
            3 => check!(issuer.verify(pres(&good)).ok().map(|v| v.to_bytes()) == Some(good.clone()), "step {}: the first user's presentation is rejected or another returned", step),
            4 => check!(issuer.verify(pres(&second)).ok().map(|v| v.to_bytes()) == Some(second.clone()), "step {}: the second user's presentation is rejected or another returned", step),
            5 => check!(issuer.verify(pres(&foreign)).is_err(), "step {}: another issuer's credential is accepted", step),
            6 => check!(issuer.verify(pres(&forged)).is_err(), "step {}: a forged presentation is accepted", step),
            7 => check!(issuer.verify_roster_membership(&shown(&good)).ok() == Some(e.commitment), "step {}: the roster proof is rejected or another commitment handed back", step),
            8 => check!(issuer.verify_roster_membership(&shown(&second)).ok() == Some(f.commitment), "step {}: the second roster proof is rejected or another commitment handed back", step),
            9 => check!(issuer.verify_roster_membership(&shown(&mixed)).is_err(), "step {}: a roster proof for another's entry is accepted", step),
            _ => {
                check!(issuer.get_issuer_parameters() == w.issuers[0].get_issuer_parameters(), "step {}: the issuer publishes other parameters", step);
                issuer = SignalIssuer::from_bytes(&issuer.to_bytes()).unwrap();
            }
        }
        check!(issuer.to_bytes() == key, "step {}: operation {} changed the issuer", step, op);
        explorer::observe(&[op as u8]);
    }
    outcome("as ever");
}

pub fn tamper_point(op: u32, t: [u8; 32], others: &[[u8; 32]], p: &SystemParameters) -> [u8; 32] {
    let x = CompressedRistretto(t).decompress().unwrap();
    let y = match op {
        0 => x,
        1 => RistrettoPoint::identity(),
        2 => x + p.g,
        3 => x + p.h,
        4 => -x,
        5 => x + x,
        6 => p.g,
        k => { if others.is_empty() { p.h } else { return others[(k as usize - 7) % others.len()]; } }
    };
    y.compress().0
}
pub fn tamper_scalar(op: u32, t: [u8; 32], others: &[[u8; 32]]) -> [u8; 32] {
    let x = Scalar::from_canonical_bytes(t).unwrap();
    let y = match op {
        0 => x,
        1 => Scalar::zero(),
        2 => x + Scalar::one(),
        3 => x - Scalar::one(),
        4 => -x,
        5 => x + x,
        6 => Scalar::one(),
        k => { if others.is_empty() { x * x } else { return others[(k as usize - 7) % others.len()]; } }
    };
    y.to_bytes()
}
