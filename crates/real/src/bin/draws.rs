//! C31: what is drawn at random is drawn from the whole range.  draws PROPERTY TIER OUTDIR
//! Every operation that draws is run on a tape of random bytes, and on every tape that differs from it in one bit.
#[path = "../env.rs"] mod env;
#[path = "../guard.rs"] mod guard;
#[path = "../../../shared/report.rs"] mod report;
use aeonflux::amacs::{self, Message, Rerandomization, Tag};
use aeonflux::credential::{CredentialIssuance, CredentialPresentation, CredentialRequest};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use guard::{everywhere, hex, panic_text};
use rand_core::{CryptoRng, Error, RngCore};
use report::Report;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Bits of the source a value below the group order needs.
const BITS: usize = 252;
/// A random source that gives the bytes of a list, one bit changed, and counts them.
pub struct Tape { bytes: Vec<u8>, at: usize }
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { let n = dest.len(); dest.copy_from_slice(&self.bytes[self.at..self.at + n]); self.at += n; }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for Tape {}

/// What was drawn, as far as it can be seen: scalars as they are, points that a fresh value went into.
#[derive(PartialEq, Clone)]
enum Part { S(Scalar), P(RistrettoPoint) }
impl Part {
    fn bytes(&self) -> [u8; 32] { match self { Part::S(s) => s.to_bytes(), Part::P(p) => p.compress().0 } }
    fn less(&self, o: &Part) -> Option<[u8; 32]> {
        match (self, o) { (Part::S(a), Part::S(b)) => Some((a - b).to_bytes()), (Part::P(a), Part::P(b)) => Some((a - b).compress().0), _ => None }
    }
}
type Parts = Vec<(String, Part)>;
struct World { issuer: SignalIssuer, bare: Issuer, user: SignalUser, entry: RosterEntryCommitment, number: Vec<u8>, tag: Tag, h: RistrettoPoint }
fn world() -> World {
    let mut rng = env::rng(91);
    let sys = env::sys(0);
    let number = env::number(0);
    let issuer = SignalIssuer::create(sys, &mut rng);
    let mut user = SignalUser::new(sys, issuer.get_issuer_parameters(), None, &number).unwrap();
    user.obtain_finish(Some(&issuer.issue(&number, &mut rng).unwrap())).unwrap();
    let entry = RosterEntryCommitment::create(&number, &sys, &mut rng).unwrap();
    let p = Scalar::random(&mut rng) * sys.g;
    World { bare: Issuer::from_bytes(&issuer.issuer.to_bytes()).unwrap(), issuer, user, entry, number, tag: Tag { nonce: p, mac: Scalar::random(&mut rng) * p }, h: sys.h }
}
fn scalars(what: &str, b: &[u8]) -> Parts {
    b.chunks(32).enumerate().map(|(i, c)| {
        let mut t = [0u8; 32];
        t.copy_from_slice(c);
        (format!("{} {}", what, i), Part::S(Scalar::from_canonical_bytes(t).expect("a scalar")))
    }).collect()
}
fn point(what: &str, p: RistrettoPoint) -> (String, Part) { (what.to_string(), Part::P(p)) }
fn issuance(i: &CredentialIssuance) -> Parts {
    vec![point("the tag's nonce", i.credential.mac.nonce), point("the tag", i.credential.mac.mac), point("the key commitment", i.secret_key_commitment.into())]
}
/// The values that hide the tag and the number are seen once what they hide is removed.
fn presentation(w: &World, p: &CredentialPresentation) -> Parts {
    let (n, q, a): (RistrettoPoint, RistrettoPoint, RistrettoPoint) = (p.rerandomized_nonce, p.rerandomized_mac_commitment.into(), p.attributes_blinded[0].into());
    let (k, m) = (&w.issuer.issuer.keypair.secret, w.user.phone_number.0);
    vec![point("the presentation's nonce", n), point("the commitment to the tag", q), point("what hides the tag", q - n * (k.x0 + k.xn[0] * m)), point("what hides the number", a - n * m)]
}
fn one(n: &Nonces, i: usize) -> Vec<u8> { let s: &Scalar = (&n[i]).into(); s.to_bytes().to_vec() }

const OPERATIONS: &[(&str, fn(&World, &mut Tape) -> Parts)] = &[
    ("amacs::SecretKey::new(0)", |_, t| scalars("x", &amacs::SecretKey::new(0, t).to_bytes())),
    ("amacs::SecretKey::new(1)", |_, t| scalars("x", &amacs::SecretKey::new(1, t).to_bytes())),
    ("amacs::SecretKey::new(3)", |_, t| scalars("x", &amacs::SecretKey::new(3, t).to_bytes())),
    ("amacs::SecretKey::new(24)", |_, t| scalars("x", &amacs::SecretKey::new(24, t).to_bytes())),
    ("amacs::Keypair::new", |w, t| scalars("x", &amacs::Keypair::new(&w.h, t).secret.to_bytes())),
    ("Issuer::create", |_, t| scalars("x", &Issuer::create(env::sys(0), t).keypair.secret.to_bytes())),
    ("SignalIssuer::create", |_, t| scalars("x", &SignalIssuer::create(env::sys(0), t).issuer.keypair.secret.to_bytes())),
    ("amacs::SecretKey::mac of nothing", |_, t| { let k = amacs::SecretKey::new(0, &mut env::rng(92)); let g = k.mac(&Message(vec![]), t).unwrap(); vec![point("the nonce", g.nonce), point("the tag", g.mac)] }),
    ("amacs::SecretKey::mac of two", |_, t| { let k = amacs::SecretKey::new(2, &mut env::rng(92)); let g = k.mac(&Message(vec![Scalar::one(), Scalar::zero()]), t).unwrap(); vec![point("the nonce", g.nonce), point("the tag", g.mac)] }),
    ("amacs::Rerandomization::new", |w, t| { let g = Rerandomization::new(t).apply_to_tag(&w.tag); vec![point("the nonce", g.nonce), point("the tag", g.mac)] }),
    ("Ephemeral::new", |_, t| scalars("the nonce", &Ephemeral::new(t).to_bytes())),
    ("Nonces::new(1)", |_, t| scalars("nonce", &one(&Nonces::new(t, 1), 0))),
    ("Nonces::new(4)", |_, t| { let n = Nonces::new(t, 4); scalars("nonce", &(0..4).flat_map(|i| one(&n, i)).collect::<Vec<u8>>()) }),
    ("Nonces::new(24)", |_, t| { let n = Nonces::new(t, 24); scalars("nonce", &(0..24).flat_map(|i| one(&n, i)).collect::<Vec<u8>>()) }),
    ("elgamal::SecretKey::generate", |_, t| scalars("the key", &elgamal::SecretKey::generate(t).to_bytes())),
    ("elgamal::Keypair::generate", |_, t| scalars("the key", &elgamal::Keypair::generate(t).secret.to_bytes())),
    ("RosterEntryCommitment::create", |w, t| {
        let e = RosterEntryCommitment::create(&w.number, &env::sys(0), t).unwrap();
        let mut v = scalars("the opening", &e.opening.to_bytes());
        v.push(point("the commitment", e.commitment.0.into()));
        v
    }),
    ("Issuer::issue", |w, t| issuance(&w.bare.issue(&CredentialRequest { attributes_revealed: vec![w.user.phone_number.0] }, t).unwrap())),
    ("SignalIssuer::issue", |w, t| issuance(&w.issuer.issue(&w.number, t).unwrap())),
    ("User::show", |w, t| { let mut v = presentation(w, &w.user.user.show(&Nonces::new(&mut env::rng(93), 1), t).unwrap()); v.pop(); v }),
    ("SignalUser::show", |w, t| {
        let p = w.user.show(t, &w.entry).unwrap().presentation;
        let mut v = presentation(w, &p);
        v.push(point("the commitment to the number", p.attributes_blinded[0].into()));
        v
    }),
];
fn run(w: &World, op: usize, tape: Vec<u8>) -> Result<(Parts, usize), String> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut t = Tape { bytes: tape, at: 0 };
        let p = OPERATIONS[op].1(w, &mut t);
        (p, t.at)
    })).map_err(panic_text)
}
fn tape(k: usize) -> Vec<u8> {
    let mut b = vec![0u8; 4096];
    env::rng(9100 + k as u64).fill_bytes(&mut b);
    b
}
/// What the runs on one base tape and its neighbours say.
#[derive(Default)]
struct Tally { runs: u64, used: usize, least: usize, bad: Vec<String>, seen: HashSet<Vec<u8>> }
fn judge(w: &World, op: usize, k: usize) -> Tally {
    let name = OPERATIONS[op].0;
    let mut t = Tally { least: usize::max_value(), ..Tally::default() };
    let base = tape(k);
    let (first, used) = match run(w, op, base.clone()) { Ok(x) => x, Err(e) => { t.bad.push(format!("{} on tape {}: {}", name, k, e)); return t; } };
    t.used = used;
    match run(w, op, base.clone()) {
        Ok((again, _)) => if again != first { t.bad.push(format!("{} on tape {}: two runs on the same random bytes differ", name, k)); },
        Err(e) => t.bad.push(format!("{} on tape {} again: {}", name, k, e)),
    }
    let n = first.len();
    let mut values: Vec<HashSet<[u8; 32]>> = first.iter().map(|p| { let mut s = HashSet::new(); s.insert(p.1.bytes()); s }).collect();
    let mut differences: BTreeMap<(usize, usize), HashSet<[u8; 32]>> = BTreeMap::new();
    let (mut ones, mut zeros) = (vec![[0u8; 32]; n], vec![[0u8; 32]; n]);
    for bit in 0..8 * used {
        let mut b = base.clone();
        b[bit / 8] ^= 1 << (bit % 8);
        let parts = match run(w, op, b) { Ok(x) => x.0, Err(e) => { t.bad.push(format!("{} on tape {} with bit {} changed: {}", name, k, bit, e)); return t; } };
        t.runs += 1;
        if parts.len() != n { t.bad.push(format!("{}: {} values instead of {}", name, parts.len(), n)); return t; }
        for i in 0..n {
            let v = parts[i].1.bytes();
            for j in 0..32 { ones[i][j] |= v[j]; zeros[i][j] |= !v[j]; }
            values[i].insert(v);
            for j in 0..i { if let Some(d) = parts[i].1.less(&parts[j].1) { let x = differences.entry((i, j)).or_default(); if x.len() <= BITS { x.insert(d); } } }
        }
        t.seen.insert(parts.iter().flat_map(|p| p.1.bytes().to_vec()).collect());
    }
    for i in 0..n {
        let what = &first[i].0;
        t.least = t.least.min(values[i].len() - 1);
        if values[i].len() <= BITS {
            t.bad.push(format!("{} on tape {}: changing any one of the {} random bits used gives only {} values of {}", name, k, 8 * used, values[i].len() - 1, what));
        }
        if let Part::S(_) = first[i].1 {
            let stuck: Vec<usize> = (0..BITS).filter(|b| (ones[i][b / 8] & zeros[i][b / 8]) >> (b % 8) & 1 == 0).collect();
            if !stuck.is_empty() { t.bad.push(format!("{} on tape {}: bits {:?} of {} are always the same", name, k, stuck, what)); }
        }
    }
    for ((i, j), d) in differences { if d.len() < BITS {
        t.bad.push(format!("{} on tape {}: {} and {} are drawn together, their difference has only {} values", name, k, first[i].0, first[j].0, d.len()));
    } }
    t
}
fn main() {
    guard::setup();
    let a: Vec<String> = std::env::args().collect();
    let tapes = if a[2] == "thorough" { 40 } else { 4 };
    let next = AtomicUsize::new(0);
    let out: Mutex<BTreeMap<(usize, usize), Tally>> = Mutex::new(BTreeMap::new());
    everywhere(&|| {
        let w = world();
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= tapes * OPERATIONS.len() { break; }
            let (op, k) = (OPERATIONS.len() - 1 - i / tapes, i % tapes);
            let t = judge(&w, op, k);
            out.lock().unwrap().insert((op, k), t);
        }
    });
    let mut r = Report::default();
    let out = out.into_inner().unwrap();
    for (op, o) in OPERATIONS.iter().enumerate() {
        let of: Vec<&Tally> = (0..tapes).map(|k| &out[&(op, k)]).collect();
        let runs: u64 = of.iter().map(|t| t.runs).sum();
        r.evaluations += runs;
        r.distinct += of.iter().map(|t| t.seen.len() as u64).sum::<u64>();
        r.note(format!("{}: {} runs, every bit of {} random bytes; the least value has {} alternatives", o.0, runs, of[0].used, of.iter().map(|t| t.least).min().unwrap()));
        // tapes that differ everywhere give different results
        let all: HashSet<&Vec<u8>> = of.iter().flat_map(|t| t.seen.iter()).collect();
        if all.len() < of.iter().map(|t| t.seen.len()).sum() { r.violation(format!("{}: unrelated random bytes give the same result", o.0)); }
        for b in of.iter().flat_map(|t| t.bad.iter()).take(2) { r.violation(b.clone()); }
    }
    r.rule = format!("every operation that draws, on {} tapes of random bytes and on every tape that differs from one of these in one of the bits used; results counted that differ", tapes);
    r.samples.push(format!("SignalUser::show on a tape that starts {}", hex(&tape(0)[..16])));
    r.finish(&a[3], "draws");
}
