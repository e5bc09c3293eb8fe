//! Algebraic checks: over a small group every scalar, point, random draw and oracle answer is enumerated, and what the
//! code does is judged against the algebra the property states.
use crate::env::{g, number_for, pt, s, sys, EnvRng};
use crate::systems::{self, SYSTEMS};
use aeonflux::amacs::{self, Message, PublicKey, Rerandomization, SecretKey, Tag};
use aeonflux::credential::Credential;
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen;
use aeonflux::user::User;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use explorer::*;
use merlin::Transcript;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

fn fail(msg: String) -> ! { panic!("{}", msg) }
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { fail(format!($($a)*)); } } }

fn id() -> RistrettoPoint { RistrettoPoint::identity() }
pub fn npts() -> u32 { if dim() == 2 { ell() * ell() } else { ell() } }
pub fn point(i: u32) -> RistrettoPoint { pt(i % ell(), i / ell()) }
fn pw(b: u32, e: usize) -> u64 { (0..e).fold(1, |a, _| a * b as u64) }
/// The i-th vector over 0..b.
fn digits(mut i: u64, b: u32, n: usize) -> Vec<u32> {
    (0..n).map(|_| { let d = (i % b as u64) as u32; i /= b as u64; d }).collect()
}
fn scalars(i: u64, n: usize) -> Vec<Scalar> { digits(i, ell(), n).into_iter().map(s).collect() }
fn points(i: u64, n: usize) -> Vec<RistrettoPoint> { digits(i, npts(), n).into_iter().map(point).collect() }
fn par(label: &str, n: u64) -> u64 { assert!(n < 1 << 31); param(label, n as u32) as u64 }
fn enc(p: &RistrettoPoint) -> [u8; 32] { p.compress().0 }
fn hash_points(ps: &[RistrettoPoint]) -> Vec<u8> { let mut v = vec![]; for p in ps { v.extend_from_slice(&enc(p)); } v }

// ---- tables filled by many executions ----

/// (public context, secret) -> observation -> weight
type Dist = HashMap<(u64, u64), HashMap<u64, u128>>;
pub struct Tables { dist: Vec<Mutex<Dist>>, map: Vec<Mutex<HashMap<u64, (u64, String)>>> }
static mut TABLES: *const Tables = 0 as *const Tables;
pub fn reset_tables() {
    let t = Tables { dist: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), map: (0..64).map(|_| Mutex::new(HashMap::new())).collect() };
    unsafe {
        if !TABLES.is_null() { drop(Box::from_raw(TABLES as *mut Tables)); }
        TABLES = Box::into_raw(Box::new(t));
    }
}
fn tables() -> &'static Tables { unsafe { &*TABLES } }
fn record(context: &[u8], secret: &[u8], observation: &[u8]) {
    let o = fnv(observation);
    let w = weight(ell(), if ell() > 7 { 30 } else { 40 });
    let mut t = tables().dist[(o % 64) as usize].lock().unwrap();
    *t.entry((fnv(context), fnv(secret))).or_insert_with(HashMap::new).entry(o).or_insert(0) += w;
}
/// Every secret of a context must have given the same weighted observations.
pub fn compare_distributions() -> Result<(usize, usize), String> {
    let mut secrets: HashMap<u64, HashSet<u64>> = HashMap::new();
    for t in tables().dist.iter() { for k in t.lock().unwrap().keys() { secrets.entry(k.0).or_insert_with(HashSet::new).insert(k.1); } }
    let mut cells = 0;
    for t in tables().dist.iter() {
        let t = t.lock().unwrap();
        for (c, ss) in secrets.iter() {
            let empty = HashMap::new();
            let mut it = ss.iter().map(|x| t.get(&(*c, *x)).unwrap_or(&empty));
            let first = it.next().unwrap();
            cells += first.len();
            for o in it {
                cells += o.len();
                if o != first { return Err(format!("what is observed depends on the secret: {} and {} observations with different weights", first.len(), o.len())); }
            }
        }
    }
    Ok((secrets.len(), cells))
}
pub fn most_secrets() -> usize {
    let mut secrets: HashMap<u64, HashSet<u64>> = HashMap::new();
    for t in tables().dist.iter() { for k in t.lock().unwrap().keys() { secrets.entry(k.0).or_insert_with(HashSet::new).insert(k.1); } }
    secrets.values().map(|s| s.len()).max().unwrap_or(0)
}
/// key must always belong to the same value.
fn unique(key: u64, value: &[u8], what: &dyn Fn() -> String) {
    let v = fnv(value);
    let mut t = tables().map[(key % 64) as usize].lock().unwrap();
    if let Some(o) = t.get(&key) {
        if o.0 != v { let old = o.1.clone(); drop(t); fail(format!("{}; also {}", what(), old)); }
        return;
    }
    // descriptions are kept for the first entries only
    let d = if t.len() < 20 { what() } else { String::new() };
    t.insert(key, (v, d));
}
fn log_of(q: &[Query]) -> Option<u64> { q.last().map(|q| fnv(&q.log)) }

// ---- C01 ----

pub fn c01() {
    let mut rng = EnvRng;
    let sys = sys(0);
    let issuer = SignalIssuer::create(sys, &mut rng);
    let number = if ell() == 2 { number_for(1) } else if ell() < 256 { number_for(param("number", ell())) } else { vec![1 + param("number", 200) as u8] };
    let mut user = SignalUser::new(sys, issuer.get_issuer_parameters(), None, &number).unwrap();
    let i = issuer.issue(&number, &mut rng);
    check!(i.is_ok(), "issuance failed");
    let i = i.unwrap();
    let r = user.obtain_finish(Some(&i));
    if i.credential.mac.nonce == id() { outcome("identity tag"); return; }
    check!(r.is_ok(), "an honest issuance was refused");
    let e = RosterEntryCommitment::create(&number, &sys, &mut rng).unwrap();
    let p = user.show(&mut rng, &e);
    check!(p.is_ok(), "presenting failed");
    let p = p.unwrap();
    let nonce = p.presentation.rerandomized_nonce;
    let b = p.to_bytes();
    observe(&b);
    let roster = issuer.verify_roster_membership(&VerifiedSignalCredential::from_bytes(&b).unwrap());
    check!(roster.is_ok(), "an honest roster membership proof was rejected");
    check!(roster.unwrap() == e.commitment, "another roster commitment handed back");
    let v = issuer.verify(p);
    if nonce == id() { outcome("identity presentation"); return; }
    check!(v.is_ok(), "an honest presentation was rejected");
    check!(v.unwrap().to_bytes() == b, "the verified credential is not the one presented");
    outcome("complete");
}

// ---- C02 ----

fn messages(max: usize) -> Vec<Vec<Scalar>> {
    let mut v = vec![];
    for n in 0..=max { for i in 0..pw(ell(), n) { v.push(scalars(i, n)); } }
    v
}
fn exponent(k: &[Scalar], m: &[Scalar]) -> Scalar { k[1..].iter().zip(m).fold(k[0], |a, (x, m)| a + x * m) }
/// C02: every key of length n, every message of length 0..=n+1, every tag.
pub fn c02_verify(n: usize) {
    let kv = scalars(par("key", pw(ell(), n + 1)), n + 1);
    let key = SecretKey { x0: kv[0], xn: kv[1..].to_vec() };
    for h in 0..npts() {
        let h = point(h);
        let PublicKey { Xn } = key.get_public_key(&h);
        check!(Xn.len() == n, "public key of {} elements for {} message scalars", Xn.len(), n);
        for i in 0..n { check!(Xn[i] == kv[i + 1] * h, "public key element {} is not that scalar times h", i); }
        step(1);
    }
    for m in messages(n + 1) {
        let e = exponent(&kv, &m);
        let msg = Message(m.clone());
        for p in 0..npts() { for q in 0..npts() {
            let tag = Tag { nonce: point(p), mac: point(q) };
            let want = m.len() == n && tag.nonce != id() && tag.mac == tag.nonce * e;
            let r = key.verify(&tag, &msg).is_ok();
            step(1);
            check!(r == want, "key {:?}, message {:?}, tag ({:?}, {:?}): accepted = {}", kv, m, tag.nonce, tag.mac, r);
        } }
        state(&[e.to_bytes()[0], m.len() as u8]);
    }
}
/// C02: tag creation over every key, message and draw.
pub fn c02_mac(n: usize) {
    let kv = scalars(par("key", pw(ell(), n + 1)), n + 1);
    let ms = messages(n + 1);
    let m = ms[par("message", ms.len() as u64) as usize].clone();
    let key = SecretKey { x0: kv[0], xn: kv[1..].to_vec() };
    let r = key.mac(&Message(m.clone()), &mut EnvRng);
    check!(r.is_ok() == (m.len() == n), "tag for {} scalars under a key for {}: {:?}", m.len(), n, r);
    if let Ok(t) = r {
        check!(t.mac == t.nonce * exponent(&kv, &m), "the tag is not the nonce raised to the key's value at the message");
        check!(key.verify(&t, &Message(m.clone())).is_ok() == (t.nonce != id()), "verification of an honest tag");
        let k = (0..ell()).find(|k| t.nonce == s(*k) * g());
        check!(k.is_some(), "the nonce is not a multiple of the generator");
        record(&[1], b"", &[k.unwrap() as u8]);
        record_tag(&kv, &m, &t);
    }
}
fn record_tag(kv: &[Scalar], m: &[Scalar], t: &Tag) {
    // the nonce's distribution must not depend on key or message
    let mut secret = vec![];
    for x in kv.iter().chain(m) { secret.push(x.to_bytes()[0]); }
    record(&[2, kv.len() as u8], &secret, &enc(&t.nonce));
}
/// C02: generated keys.
pub fn c02_keygen() {
    let n = par("n", 4) as usize;
    let k = SecretKey::new(n, &mut EnvRng);
    check!(k.xn.len() == n && k.len() == n + 1, "a key for {} scalars has {}", n, k.xn.len());
    let mut v = vec![k.x0.to_bytes()[0]];
    for x in k.xn.iter() { v.push(x.to_bytes()[0]); }
    record(&[3, n as u8], b"", &v);
    let h = point(par("h", npts() as u64) as u32);
    let kp = amacs::Keypair::new(&h, &mut EnvRng);
    check!(kp.public == kp.secret.get_public_key(&h) && kp.public.Xn == vec![kp.secret.xn[0] * h] && kp.secret.xn.len() == 1, "a generated key pair's public key is not the secret key's");
}
/// Every observation of a context is equally likely and all `n` of them occur, `but` one maybe.
pub fn uniform(context: &[u8], n: usize, allow_less: usize) -> Result<(), String> {
    let mut all: HashMap<u64, u128> = HashMap::new();
    for t in tables().dist.iter() {
        for (k, o) in t.lock().unwrap().iter() { if k.0 == fnv(context) { for (x, w) in o { *all.entry(*x).or_insert(0) += *w; } } }
    }
    if all.len() > n || all.len() + allow_less < n { return Err(format!("{} of {} values occur", all.len(), n)); }
    let max = all.values().max().cloned().unwrap_or(0);
    let differing = all.values().filter(|w| **w != max).count();
    if differing > allow_less { return Err(format!("{} of {} values are less likely than others", differing, n)); }
    Ok(())
}
/// C02: re-randomisation, every tag, factor, key and message.
pub fn c02_rerandomise() {
    let kv = scalars(par("key", pw(ell(), 2)), 2);
    let key = SecretKey { x0: kv[0], xn: kv[1..].to_vec() };
    let r = Rerandomization::new(&mut EnvRng);
    let one = &r * &Tag { nonce: g(), mac: g() };
    check!(one.nonce == one.mac, "re-randomisation treats nonce and tag differently");
    let f = (0..ell()).find(|f| s(*f) * g() == one.nonce);
    check!(f.is_some(), "a re-randomised generator is not a multiple of the generator");
    let f = s(f.unwrap());
    record(&[4], b"", &f.to_bytes());
    for p in 0..npts() { for q in 0..npts() {
        let t = Tag { nonce: point(p), mac: point(q) };
        for (k, x) in vec![r.apply_to_tag(&t), &r * &t, &t * &r].into_iter().enumerate() {
            step(1);
            check!(x.nonce == f * t.nonce && x.mac == f * t.mac, "re-randomising by {:?} in way {} is not a multiplication", f, k);
            for m in messages(2) {
                let m = Message(m);
                let (a, b) = (key.verify(&t, &m).is_ok(), key.verify(&x, &m).is_ok());
                check!(b == (a && f != Scalar::zero()), "re-randomising by {:?} changes which messages a tag is accepted for", f);
            }
        }
    } }
}

// ---- C03, C04, C05: knowledge soundness ----

/// Accepted (challenge, responses) with one first message: every two with different challenges give a witness.
struct Group { statement: Vec<u8>, accepted: Vec<(Scalar, Vec<Scalar>)> }
fn group(groups: &mut HashMap<u64, Group>, log: u64, statement: Vec<u8>, c: Scalar, r: Vec<Scalar>, what: &str) {
    let gr = groups.entry(log).or_insert_with(|| Group { statement: statement.clone(), accepted: vec![] });
    check!(gr.statement == statement, "{}: two statements are accepted on one challenge input", what);
    gr.accepted.push((c, r));
}
fn witness(a: &(Scalar, Vec<Scalar>), b: &(Scalar, Vec<Scalar>)) -> Vec<Scalar> {
    let d = (a.0 - b.0).invert();
    a.1.iter().zip(b.1.iter()).map(|(x, y)| (x - y) * d).collect()
}
/// The one challenge answer `c` makes `accept` true; any other must not.
fn accepted(c: u32, full: bool, accept: &mut dyn FnMut() -> bool) -> Option<u64> {
    take_queries();
    set_oracle(Oracle::Const(c));
    let ok = accept();
    let q = take_queries();
    for d in 1..ell() {
        if d > 1 && !full { break; }
        set_oracle(Oracle::Const((c + d) % ell()));
        check!(!accept(), "accepted although the challenge is another one");
        take_queries();
        step(1);
    }
    step(1);
    if !ok { return None; }
    match log_of(&q) { Some(l) => Some(l), None => fail("accepted without computing a challenge".to_string()) }
}
fn presentation(entry: &RistrettoPoint, cq: &RistrettoPoint, p: &RistrettoPoint, cm: &RistrettoPoint, valid: &[u8], roster: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(448);
    b.extend_from_slice(&enc(entry));
    b.extend_from_slice(&enc(cq));
    b.extend_from_slice(&enc(p));
    b.extend_from_slice(&enc(cm));
    b.extend_from_slice(valid);
    b.extend_from_slice(roster);
    b
}
/// C03: for one issuer, every nonce, MAC commitment, attribute commitment, challenge and responses.
pub fn c03() {
    let full = ell() <= 3;
    let x = scalars(par("issuer key", pw(ell(), 2)), 2);
    let sys = sys(0);
    let secret = SecretKey { x0: x[0], xn: vec![x[1]] };
    let issuer = SignalIssuer::from_bytes(&{
        let mut b = sys.to_bytes();
        b.extend(secret.get_public_key(&sys.h).to_bytes());
        b.extend(secret.to_bytes());
        b }).unwrap();
    let mut groups: HashMap<u64, Group> = HashMap::new();
    let zero = systems::encode(Scalar::zero(), &[Scalar::zero(); 3]);
    let n = npts();
    let rs: Vec<Vec<Scalar>> = (0..pw(ell(), 3)).map(|r| scalars(r, 3)).collect();
    for p in 0..n { for cq in 0..n { for cm in 0..n {
        let (p, cq, cm) = (point(p), point(cq), point(cm));
        for c in 0..ell() { for r in rs.iter() {
            let b = presentation(&g(), &cq, &p, &cm, &systems::encode(s(c), r), &zero);
            let x = SignalCredentialPresentation::from_bytes(&b).unwrap();
            let a = accepted(c, full, &mut || issuer.verify(x.clone()).is_ok());
            if let Some(log) = a {
                check!(p != id(), "accepted with the identity as nonce");
                group(&mut groups, log, hash_points(&[p, cq, cm]), s(c), r.clone(), "presentation");
            }
        } }
    } } }
    let mut extracted = 0u64;
    for (log, gr) in groups.iter() {
        let st: Vec<RistrettoPoint> = unhash(&gr.statement);
        for (i, a) in gr.accepted.iter().enumerate() { for b in gr.accepted[..i].iter() {
            if a.0 == b.0 { continue; }
            extracted += 1;
            let w = witness(a, b); // m0, z0, -zQ
            let q = st[1] + w[2] * sys.h;
            check!(q == (x[0] + x[1] * w[0]) * st[0], "the prover knows no valid tag: nonce {:?}, tag {:?} for attribute {:?} under key {:?}", st[0], q, w[0], x);
            check!(st[2] == w[0] * st[0] + w[1] * sys.h, "the attribute commitment {:?} does not open to the attribute {:?}", st[2], w[0]);
        } }
        state(&log.to_le_bytes());
    }
    check!(extracted > 0, "nothing was accepted at all");
    outcome("sound");
}
/// C03 for presentations of any number of revealed and blinded attributes: accepted only with a valid tag on exactly the
/// attribute in the (first) commitment.
pub fn c03_shape(revealed: usize, blinded: usize) {
    let x = scalars(par("issuer key", pw(ell(), 2)), 2);
    let sys = sys(0);
    let secret = SecretKey { x0: x[0], xn: vec![x[1]] };
    let public = secret.get_public_key(&sys.h);
    let issuer = SignalIssuer { issuer: Issuer::new(sys, amacs::Keypair { public, secret }) };
    let mut groups: HashMap<u64, Group> = HashMap::new();
    let zero = systems::encode(Scalar::zero(), &[Scalar::zero(); 3]);
    let n = npts();
    let more = pw(n, blinded.saturating_sub(1));
    let rs: Vec<Vec<Scalar>> = (0..pw(ell(), 3)).map(|r| scalars(r, 3)).collect();
    let list = scalars(par("revealed", pw(ell(), revealed)), revealed);
    for p in 0..n { for cq in 0..n { for cm in 0..n { for others in 0..more {
        let (p, cq, cm) = (point(p), point(cq), point(cm));
        let mut hidden: Vec<aeonflux::pedersen::Commitment> = (0..blinded.saturating_sub(1)).map(|i| commitment(&point((others / pw(n, i) % n as u64) as u32))).collect();
        if blinded > 0 { hidden.insert(0, commitment(&cm)); }
        for c in 0..ell() { for r in rs.iter() {
            let b = presentation(&g(), &cq, &p, &cm, &systems::encode(s(c), r), &zero);
            let mut show = SignalCredentialPresentation::from_bytes(&b).unwrap();
            show.presentation.attributes_revealed = list.clone();
            show.presentation.attributes_blinded = hidden.clone();
            let a = accepted(c, true, &mut || issuer.verify(show.clone()).is_ok());
            if let Some(log) = a {
                check!(p != id(), "accepted with the identity as nonce");
                check!(blinded > 0, "accepted without an attribute");
                group(&mut groups, log, hash_points(&[p, cq, cm]), s(c), r.clone(), "presentation");
            }
        } }
    } } } }
    for (log, gr) in groups.iter() {
        let st: Vec<RistrettoPoint> = unhash(&gr.statement);
        for (i, a) in gr.accepted.iter().enumerate() { for b in gr.accepted[..i].iter() {
            if a.0 == b.0 { continue; }
            let w = witness(a, b); // m0, z0, -zQ
            let q = st[1] + w[2] * sys.h;
            check!(q == (x[0] + x[1] * w[0]) * st[0], "revealing {:?} and committing to {:?}, the prover has no valid tag for it: nonce {:?}, tag {:?} under key {:?}", list, w[0], st[0], q, x);
            check!(st[2] == w[0] * st[0] + w[1] * sys.h, "the attribute commitment {:?} does not open to the attribute {:?}", st[2], w[0]);
        } }
        state(&log.to_le_bytes());
    }
    outcome(if groups.is_empty() { "all rejected" } else { "sound" });
}
fn commitment(p: &RistrettoPoint) -> aeonflux::pedersen::Commitment { aeonflux::pedersen::Commitment::from_bytes(&enc(p)).unwrap() }
fn unhash(b: &[u8]) -> Vec<RistrettoPoint> {
    b.chunks(32).map(|c| CompressedRistretto::from_slice(c).decompress().expect("toy point")).collect()
}
/// C04: every nonce, attribute commitment, roster commitment, challenge and responses.
pub fn c04() {
    let full = ell() <= 3;
    let which = par("system parameters", 2) as u32;
    let p = point(par("nonce", npts() as u64) as u32);
    let sys = sys(which);
    let issuer = SignalIssuer { issuer: Issuer::new(sys, amacs::Keypair { public: PublicKey { Xn: vec![sys.h] }, secret: SecretKey { x0: s(1), xn: vec![s(1)] } }) };
    let mut groups: HashMap<u64, Group> = HashMap::new();
    let zero = systems::encode(Scalar::zero(), &[Scalar::zero(); 3]);
    let n = npts();
    let rs: Vec<Vec<Scalar>> = (0..pw(ell(), 3)).map(|r| scalars(r, 3)).collect();
    for cm in 0..n { for ce in 0..n {
        let (cm, ce) = (point(cm), point(ce));
        for c in 0..ell() { for r in rs.iter() {
            let b = presentation(&ce, &g(), &p, &cm, &zero, &systems::encode(s(c), r));
            let x = VerifiedSignalCredential::from_bytes(&b).unwrap();
            let a = accepted(c, full, &mut || match issuer.verify_roster_membership(&x) {
                Ok(y) => { check!(y.to_bytes()[..] == enc(&ce)[..], "another commitment handed back"); true }
                Err(_) => false,
            });
            if let Some(log) = a { group(&mut groups, log, hash_points(&[p, cm, ce]), s(c), r.clone(), "roster proof"); }
        } }
    } }
    let mut extracted = 0u64;
    for (log, gr) in groups.iter() {
        let st = unhash(&gr.statement);
        for (i, a) in gr.accepted.iter().enumerate() { for b in gr.accepted[..i].iter() {
            if a.0 == b.0 { continue; }
            extracted += 1;
            let w = witness(a, b); // m0, z0, z1
            check!(st[1] == w[0] * st[0] + w[1] * sys.h, "the attribute commitment does not open to the proven value {:?}", w[0]);
            check!(st[2] == w[0] * sys.h + w[2] * sys.g, "the roster commitment does not open to the proven value {:?}", w[0]);
        } }
        state(&log.to_le_bytes());
    }
    check!(extracted > 0, "nothing was accepted at all");
    outcome("sound");
}
/// C05: for one published issuer key, every tag, key commitment, challenge and responses.
pub fn c05() {
    let full = ell() <= 3;
    let n = npts();
    let x1 = par("x1", ell() as u64) as u32;
    let p = point(par("tag nonce", n as u64) as u32);
    let m = par("number", ell() as u64) as u32;
    let sys = sys(0);
    let public = PublicKey { Xn: vec![s(x1) * sys.h] };
    let number = number_for(m);
    let old = Credential { mac: Tag { nonce: g(), mac: sys.h }, attributes: vec![s(m)] };
    let had = par("had credential", 2) == 1;
    let blank = || {
        let mut u = SignalUser::new(sys, public.clone(), None, &number).unwrap();
        if had { u.user.credential = Some(old.clone()); }
        u
    };
    let before = blank().to_bytes();
    let mut u = blank();
    let mut groups: HashMap<u64, Group> = HashMap::new();
    let rs: Vec<Vec<Scalar>> = (0..pw(ell(), 4)).map(|r| scalars(r, 4)).collect();
    for q in 0..n { for cx in 0..n {
        let (q, cx) = (point(q), point(cx));
        for c in 0..ell() { for r in rs.iter() {
            let mut b = Vec::with_capacity(328);
            b.extend_from_slice(&enc(&cx));
            b.extend_from_slice(&enc(&p));
            b.extend_from_slice(&enc(&q));
            b.extend_from_slice(&s(m).to_bytes());
            b.extend_from_slice(&systems::encode(s(c), r));
            let mut x = SignalCredentialIssuance::from_bytes(&b).unwrap();
            let a = accepted(c, full, &mut || {
                let ok = u.obtain_finish(Some(&x)).is_ok();
                if ok {
                    check!(u.user.credential.as_ref() == Some(&x.credential), "the stored credential is not the one issued");
                    u.user.credential = if had { Some(old.clone()) } else { None };
                }
                check!(u.user.credential.as_ref() == if had { Some(&old) } else { None }, "a refused issuance changed the user");
                ok
            });
            if let Some(log) = a {
                check!(p != id(), "accepted a tag on the identity");
                group(&mut groups, log, hash_points(&[p, q, cx]), s(c), r.clone(), "issuance");
                // the same for somebody else, for nobody, for two
                set_oracle(Oracle::Const(c));
                for other in 1..ell() {
                    x.credential.attributes = vec![s((m + other) % ell())];
                    check!(u.obtain_finish(Some(&x)).is_err(), "accepted a credential for somebody else");
                }
                for a in vec![vec![], vec![s(m), s(m)], vec![s(m), s(0)]] {
                    x.credential.attributes = a;
                    check!(u.obtain_finish(Some(&x)).is_err(), "accepted a credential with {} attributes", x.credential.attributes.len());
                }
            }
        } }
    } }
    check!(u.to_bytes() == before, "refused issuances changed the user");
    let mut extracted = 0u64;
    for (log, gr) in groups.iter() {
        let st = unhash(&gr.statement);
        for (i, a) in gr.accepted.iter().enumerate() { for b in gr.accepted[..i].iter() {
            if a.0 == b.0 { continue; }
            extracted += 1;
            let w = witness(a, b); // x0, x1, x0_tilde, m1x1
            check!(public.Xn[0] == w[1] * sys.h, "the proven key {:?} is not the published one", w[1]);
            check!(st[2] == w[0] * sys.g + w[2] * sys.h, "the key commitment does not open to the proven key {:?}", w[0]);
            check!(st[1] == (w[0] + w[3]) * st[0], "the tag was not computed with the proven values");
            if w[3] != w[1] * s(m) { finding("unbound-attribute", || format!("accepted for attribute {}: a tag computed with x1 = {:?} and m1x1 = {:?}", m, w[1], w[3])); }
        } }
        state(&log.to_le_bytes());
    }
    check!(extracted > 0 || p == id(), "nothing was accepted at all");
    outcome("sound");
}

// ---- C06 ----

fn credential(x0: Scalar, x1: Scalar, m: Scalar, k: u32) -> Credential {
    let nonce = s(k) * g();
    Credential { mac: Tag { nonce, mac: (x0 + x1 * m) * nonce }, attributes: vec![m] }
}
fn holder(x: &[Scalar], m: u32, k: u32) -> SignalUser {
    let sys = sys(0);
    let mut user = User::new(sys, PublicKey { Xn: vec![x[1] * sys.h] }, None);
    user.credential = Some(credential(x[0], x[1], s(m), k));
    SignalUser { phone_number: PhoneNumber(s(m)), user }
}
/// An entry as RosterEntryCommitment::create makes it (not every scalar is a phone number's in the smallest group).
fn entry(m: u32) -> RosterEntryCommitment {
    if ell() > 2 { return RosterEntryCommitment::create(&number_for(m), &sys(0), &mut EnvRng).unwrap(); }
    let opening = Ephemeral::new(&mut EnvRng);
    RosterEntryCommitment { commitment: CommittedPhoneNumber::from_phone_number(&PhoneNumber(s(m)), &opening, &sys(0).g, &sys(0).h), opening }
}
/// Presentation with a fresh roster entry.
pub fn c06_show() {
    let x = scalars(par("issuer key", pw(ell(), 2)), 2);
    let (m, k) = (par("number", ell() as u64) as u32, 1 + par("tag", ell() as u64 - 1) as u32);
    let u = holder(&x, m, k);
    let e = entry(m);
    let v = u.show(&mut EnvRng, &e).unwrap().to_bytes();
    record(&[x[0].to_bytes()[0], x[1].to_bytes()[0]], &[m as u8, k as u8], &v);
    observe(&v);
}
fn nonces(u: &User) -> Vec<u8> { u.show(&Nonces::new(&mut EnvRng, 1), &mut EnvRng).unwrap().to_bytes() }
/// Presentation of the credential alone.
pub fn c06_nonces() {
    let x = scalars(par("issuer key", pw(ell(), 2)), 2);
    let (m, k) = (par("number", ell() as u64) as u32, 1 + par("tag", ell() as u64 - 1) as u32);
    let v = nonces(&holder(&x, m, k).user);
    record(&[x[0].to_bytes()[0], x[1].to_bytes()[0]], &[m as u8, k as u8], &v);
    observe(&v);
}
/// Two presentations of one credential against one each of two credentials.
pub fn c06_two() {
    let x = scalars(par("issuer key", pw(ell(), 2)), 2);
    let (m, k) = (par("number", ell() as u64) as u32, 1 + par("tag", ell() as u64 - 1) as u32);
    let (m2, k2) = (par("second number", ell() as u64) as u32, 1 + par("second tag", ell() as u64 - 1) as u32);
    let a = holder(&x, m, k).user;
    let b = holder(&x, m2, k2).user;
    let same = par("same user", 2) == 1;
    let mut v = nonces(&a);
    v.extend(nonces(if same { &a } else { &b }));
    record(&[x[0].to_bytes()[0], x[1].to_bytes()[0]], &[m as u8, k as u8, m2 as u8, k2 as u8, same as u8], &v);
    observe(&v);
}
/// Two full presentations, with the same or a new roster entry each time.
pub fn c06_two_full() {
    let x = vec![s(1), s(1)];
    let (m, k) = (par("number", ell() as u64) as u32, 1 + par("tag", ell() as u64 - 1) as u32);
    let u = holder(&x, m, k);
    let e = entry(m);
    let mut v = u.show(&mut EnvRng, &e).unwrap().to_bytes();
    v.extend(u.show(&mut EnvRng, &e).unwrap().to_bytes());
    record(b"", &[m as u8, k as u8], &v);
}
pub fn c06_entry() {
    let sys = sys(par("system parameters", 2) as u32);
    let m = par("number", ell() as u64) as u32;
    let n = PhoneNumber(s(m));
    if ell() > 2 {
        let e = RosterEntryCommitment::create(&number_for(m), &sys, &mut EnvRng).unwrap();
        observe(&e.to_bytes());
        record(&sys.to_bytes(), &[m as u8], &e.commitment.to_bytes());
    }
    let d = CommittedPhoneNumber::from_phone_number(&n, &Ephemeral::new(&mut EnvRng), &sys.g, &sys.h);
    record(&sys.h.compress().0, &[m as u8], &d.to_bytes());
    observe(&d.to_bytes());
}

// ---- C07, C08, C09: the proof systems ----

fn bases(k: usize) -> Vec<usize> { (0..SYSTEMS[k].pubs.len()).filter(|i| !SYSTEMS[k].is_lhs(*i)).collect() }
/// A statement with witness: bases from `i`, left-hand sides computed.  Relations may use left-hand sides as bases.
fn statement(k: usize, b: &[RistrettoPoint], w: &[Scalar]) -> Vec<RistrettoPoint> {
    let sy = &SYSTEMS[k];
    let mut p = vec![id(); sy.pubs.len()];
    for (i, x) in bases(k).into_iter().zip(b) { p[i] = *x; }
    sy.complete(&mut p, w);
    p
}
/// A choice of bases: all of them, or a few of general position.
fn base_choice(k: usize, all: bool) -> Vec<RistrettoPoint> {
    let n = bases(k).len();
    if all { return points(par("bases", pw(npts(), n)), n); }
    let v: Vec<RistrettoPoint> = match par("bases", 4) {
        0 => (0..n).map(|i| point(1 + i as u32 % (npts() - 1))).collect(),
        1 => (0..n).map(|i| point(1 + (2 * i as u32 + 1) % (npts() - 1))).collect(),
        2 => (0..n).map(|i| point(1 + (n - i) as u32 % (npts() - 1))).collect(),
        _ => (0..n).map(|i| if i == 1 { point(2 % npts()) } else { point(1) }).collect(),
    };
    v
}
/// C07: proofs made with a witness verify; for a statement or context changed in one place they do not.
pub fn c07_complete(k: usize, all: bool) {
    let sy = &SYSTEMS[k];
    let b = base_choice(k, all);
    let n = sy.secs.len();
    let w = scalars(par("witness", pw(ell(), n)), n);
    let p = statement(k, &b, &w);
    assert!(sy.holds(&p, &w));
    take_queries();
    let proof = systems::create(k, &mut Transcript::new(b"context"), &p, &w);
    check!(systems::verify(k, &mut Transcript::new(b"context"), &p, &proof), "{}: a proof made with a witness does not verify", sy.name);
    let (c, r) = systems::decode(&proof);
    check!(r.len() == n, "{} responses for {} secrets", r.len(), n);
    let q = take_queries();
    check!(!q.is_empty(), "no challenge was computed");
    let other = vec![(0..ell()).find(|v| s(*v) == c).unwrap() + 1];
    // the oracle remembers what the prover asked, and answers anything else differently
    let memo = oracle_memo();
    let mut tries = |p: &[RistrettoPoint], proof: &[u8], context: &[u8], what: &str| {
        restore_oracle(&memo);
        fix_draws(Some(other.clone()));
        let ok = systems::verify(k, &mut Transcript::new(context), p, proof);
        fix_draws(None);
        step(1);
        check!(!ok, "{}: a proof verifies after {}", sy.name, what);
    };
    for i in 0..p.len() {
        let mut t = p.clone();
        t[i] = t[i] + g();
        tries(&t, &proof, b"context", &format!("changing {}", sy.pubs[i]));
    }
    tries(&p, &proof, b"another", "changing the context");
    for i in 0..n {
        let mut r2 = r.clone();
        r2[i] = r2[i] + Scalar::one();
        // harmless only if the recomputed first messages are the same
        if sy.firsts(&p, c, &r2) != sy.firsts(&p, c, &r) { tries(&p, &systems::encode(c, &r2), b"context", &format!("changing response {}", sy.secs[i])); }
    }
    restore_oracle(&memo);
    tries_challenge(k, &p, c, &r);
    outcome("complete");
}
fn tries_challenge(k: usize, p: &[RistrettoPoint], c: Scalar, r: &[Scalar]) {
    let c2 = c + Scalar::one();
    // the oracle answers the challenge actually claimed only if asked for the same first messages
    fix_draws(Some(vec![(0..ell()).find(|v| s(*v) == c).unwrap()]));
    let ok = systems::verify(k, &mut Transcript::new(b"context"), p, &systems::encode(c2, r));
    fix_draws(None);
    check!(!ok, "{}: a proof verifies after changing the challenge", SYSTEMS[k].name);
}
/// C07: for one statement, every challenge and responses; any two accepted with one challenge input give a witness.
pub fn c07_sound(k: usize, all: bool) {
    let sy = &SYSTEMS[k];
    let p = if all { points(par("publics", pw(npts(), sy.pubs.len())), sy.pubs.len()) } else {
        // a few bases, and left-hand sides that do or do not satisfy the relations
        let b = base_choice(k, false);
        let mut p = statement(k, &b, &scalars(par("witness", pw(ell(), 3)), sy.secs.len()));
        let i = par("changed public", p.len() as u64 + 1) as usize;
        if i < p.len() { p[i] = p[i] + g(); }
        p
    };
    let n = sy.secs.len();
    let mut groups: HashMap<u64, Group> = HashMap::new();
    for c in 0..ell() { for i in 0..pw(ell(), n) {
        let r = scalars(i, n);
        let proof = systems::encode(s(c), &r);
        let a = accepted(c, false, &mut || systems::verify(k, &mut Transcript::new(b"context"), &p, &proof));
        if let Some(log) = a { group(&mut groups, log, vec![], s(c), r, sy.name); }
    } }
    for (log, gr) in groups.iter() {
        let first = gr.accepted.iter().find(|a| a.0 != gr.accepted[0].0);
        for (i, a) in gr.accepted.iter().enumerate() { for b in gr.accepted[..i].iter().rev().take(40) {
            if a.0 == b.0 { continue; }
            let w = witness(a, b);
            check!(sy.holds(&p, &w), "{}: from two accepted proofs with equal challenge input: {:?}, which is no witness for {:?}", sy.name, w, p);
        } }
        if let Some(a) = first { check!(sy.holds(&p, &witness(a, &gr.accepted[0])), "{}: no witness", sy.name); }
        state(&log.to_le_bytes());
    }
    outcome("sound");
}
/// C08: for one statement, witness and challenge, the proofs over all draws.
pub fn c08(k: usize, all: bool) {
    let sy = &SYSTEMS[k];
    let n = sy.secs.len();
    let b = base_choice(k, all);
    let w = scalars(par("witness", pw(ell(), n)), n);
    let c = par("challenge", ell() as u64) as u32;
    let p = statement(k, &b, &w);
    set_oracle(Oracle::Const(c));
    let proof = systems::create(k, &mut Transcript::new(b"context"), &p, &w);
    let (c2, r) = systems::decode(&proof);
    check!(c2 == s(c), "{}: the proof does not use the challenge", sy.name);
    let mut o = vec![];
    for x in r.iter() { o.push(x.to_bytes()[0]); }
    // simulator: uniform responses.  One context for all witnesses and statements, so all must be the same.
    let mut secret = hash_points(&p);
    for x in w.iter() { secret.push(x.to_bytes()[0]); }
    secret.push(c as u8);
    record(&[k as u8], &secret, &o);
    observe(&proof);
}
/// C09: whatever is hashed for the challenge determines system, statement and first messages.
pub fn c09(k: usize, all: bool) {
    let sy = &SYSTEMS[k];
    let n = sy.secs.len();
    let np = sy.pubs.len();
    let p: Vec<RistrettoPoint> = if all { points(par("publics", pw(npts(), np)), np) } else {
        // a base vector changed in up to two places
        let mut p = points(0x1234567 % pw(npts(), np), np);
        let (i, j) = (par("first", np as u64 + 1) as usize, par("second", np as u64 + 1) as usize);
        let (a, b) = (par("a", npts() as u64) as u32, par("b", npts() as u64) as u32);
        if i < np { p[i] = point(a); }
        if j < np { p[j] = point(b); }
        p
    };
    for context in vec![&b"context"[..], &b"contexts"[..], &b""[..]] {
        for c in 0..ell() { for i in 0..pw(ell(), n) {
            if !all && (i % 7 > 1 || (k == 2 && i % 5 > 0)) { continue; }
            let r = scalars(i, n);
            take_queries();
            set_oracle(Oracle::Const(c));
            systems::verify(k, &mut Transcript::new(context), &p, &systems::encode(s(c), &r));
            let q = take_queries();
            step(1);
            let f = sy.firsts(&p, s(c), &r);
            let mut v = hash_points(&p);
            v.extend(hash_points(&f));
            v.extend(sy.name.bytes());
            v.extend(context);
            match log_of(&q) {
                None => fail(format!("{}: no challenge was computed", sy.name)),
                Some(l) => unique(l, &v, &|| format!("one challenge input for different statements, systems or contexts: {} in {:?}: statement {:?} first messages {:?}", sy.name, context, p, f)),
            }
        } }
    }
    outcome("bound");
}
/// C09: the prover hashes the same as the verifier (else the above says nothing about proofs made).
pub fn c09_prover(k: usize) {
    let sy = &SYSTEMS[k];
    let n = sy.secs.len();
    let b = base_choice(k, false);
    let w = scalars(par("witness", pw(ell(), n.min(4))), n);
    let p = statement(k, &b, &w);
    take_queries();
    let proof = systems::create(k, &mut Transcript::new(b"context"), &p, &w);
    let a = log_of(&take_queries());
    systems::verify(k, &mut Transcript::new(b"context"), &p, &proof);
    let b = log_of(&take_queries());
    check!(a.is_some() && a == b, "{}: prover and verifier hash different things", sy.name);
}
/// C09: the three flows hash different contexts.
pub fn c09_contexts() {
    let mut rng = EnvRng;
    let sys = sys(0);
    let issuer = SignalIssuer::create(sys, &mut rng);
    let number = if ell() > 256 { crate::env::number(0) } else { number_for(if ell() == 3 { 0 } else { 1 }) };
    let mut user = SignalUser::new(sys, issuer.get_issuer_parameters(), None, &number).unwrap();
    let i = issuer.issue(&number, &mut rng).unwrap();
    if i.credential.mac.nonce == id() { outcome("skipped"); return; }
    take_queries();
    user.obtain_finish(Some(&i)).unwrap();
    let q0 = take_queries();
    let e = RosterEntryCommitment::create(&number, &sys, &mut rng).unwrap();
    let p = user.show(&mut rng, &e).unwrap();
    if p.presentation.rerandomized_nonce == id() { outcome("skipped"); return; }
    take_queries();
    let b = p.to_bytes();
    issuer.verify(p).unwrap();
    let q1 = take_queries();
    issuer.verify_roster_membership(&VerifiedSignalCredential::from_bytes(&b).unwrap()).unwrap();
    let q2 = take_queries();
    // what precedes the proof's own commitments: cut off the longest end shared with the bare proof system's query
    let bare = |k: usize| {
        take_queries();
        let np = SYSTEMS[k].pubs.len();
        systems::verify(k, &mut Transcript::new(b"?"), &vec![id(); np], &systems::encode(s(0), &vec![s(0); SYSTEMS[k].secs.len()]));
        take_queries().pop().unwrap().log.len() - Transcript_prefix(b"?")
    };
    let ctx = |q: Vec<Query>, k: usize| { let l = q.last().unwrap().log.clone(); let n = bare(k); l[..l.len() - n].to_vec() };
    let c = [ctx(q0, 0), ctx(q1, 3), ctx(q2, 4)];
    check!(c[0] != c[1] && c[1] != c[2] && c[0] != c[2], "two protocol steps hash the same context: {:?}", c.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>());
    check!(c.iter().all(|x| x.len() > Transcript_prefix(b"")), "a protocol step hashes no context");
    outcome("distinct");
}
#[allow(non_snake_case)]
fn Transcript_prefix(label: &[u8]) -> usize { 1 + 4 + 7 + 4 + label.len() }

// ---- C14, C15 ----

pub fn c14_pedersen() {
    let n = npts();
    let (v, b) = (point(par("value", n as u64) as u32), point(par("basepoint", n as u64) as u32));
    let r = par("opening", ell() as u64) as u32;
    let e: Ephemeral = s(r).into();
    let want = v + s(r) * b;
    let c = pedersen::Commitment::to(&v, &e, &b);
    check!(c.to_bytes()[..] == enc(&want)[..], "the commitment is not value plus opening times basepoint");
    for x in 0..n { for r2 in 0..ell() { for v2 in 0..n { for b2 in 0..n {
        let c = pedersen::Commitment::from_bytes(&enc(&point(x))).unwrap();
        let ok = c.open(&point(v2), &s(r2).into(), &point(b2)).is_ok();
        step(1);
        check!(ok == (point(x) == point(v2) + s(r2) * point(b2)), "commitment {:?} with value {:?}, opening {} and basepoint {:?}: opens = {}", point(x), point(v2), r2, point(b2), ok);
    } } } }
    outcome("exact");
}
pub fn c14_entry() {
    let n = npts();
    let (m, sy) = (par("number", ell() as u64) as u32, par("h", n as u64) as u32);
    let gb = par("g", n as u64) as u32;
    let sy = SystemParameters { g: point(gb), h: point(sy) };
    let e = RosterEntryCommitment::create(&number_for(m), &sy, &mut EnvRng).unwrap();
    let r = (0..ell()).find(|r| e.opening.to_bytes() == s(*r).to_bytes());
    check!(r.is_some(), "opening");
    let r = r.unwrap();
    record(&[7], b"", &[r as u8]);
    check!(e.commitment.to_bytes()[..] == enc(&(s(m) * sy.h + s(r) * sy.g))[..], "the commitment is not m h + opening g");
    for c in 0..n { for o in 0..ell() {
        let x = RosterEntryCommitment { commitment: CommittedPhoneNumber(pedersen::Commitment::from_bytes(&enc(&point(c))).unwrap()), opening: s(o).into() };
        for m2 in 0..ell() {
            let ok = x.open(&number_for(m2), &sy).is_ok();
            step(1);
            check!(ok == (point(c) == s(m2) * sy.h + s(o) * sy.g), "entry {:?} with opening {} for number {}: opens = {}", point(c), o, m2, ok);
            let num = PhoneNumber::try_from_bytes(&number_for(m2)).unwrap();
            check!(x.commitment.open(&num, &x.opening, &sy.g, &sy.h).is_ok() == ok, "opening the bare commitment differs");
            check!(x.commitment.open(&num, &x.opening, &sy.h, &sy.g).is_ok() == (point(c) == s(m2) * sy.g + s(o) * sy.h), "generators in the other order");
        }
    } }
    outcome("exact");
}
pub fn c15() {
    let d = par("secret key", ell() as u64) as u32;
    let (m1, m2) = (par("message", ell() as u64) as u32, par("second message", ell() as u64) as u32);
    let (e1, e2) = (par("nonce", ell() as u64) as u32, par("second nonce", ell() as u64) as u32);
    let secret = elgamal::SecretKey::from_bytes(&s(d).to_bytes()).unwrap();
    let public = elgamal::PublicKey::from(&secret);
    let dp: RistrettoPoint = public.into();
    check!(dp == s(d) * g(), "the public key is not the secret key times the generator");
    let pair = elgamal::Keypair { secret: secret.clone(), public };
    let c1 = public.encrypt(&(&s(m1)).into(), &s(e1).into());
    let c2 = pair.encrypt(&(&s(m2)).into(), &s(e2).into());
    for (c, m, e) in vec![(c1, m1, e1), (c2, m2, e2)] {
        check!(c.commitment == s(e) * g(), "the first element is not the nonce times the generator");
        check!(c.encryption == s(m) * g() + s(e) * dp, "the second element is not message plus nonce times public key");
        check!(secret.decrypt(&c) == s(m) * g(), "decryption does not give back the message");
    }
    let sum = &c1 + &c2;
    check!(secret.decrypt(&sum) == s(m1 + m2) * g(), "the sum does not decrypt to the sum");
    let num = PhoneNumber(s(m1)).encrypt(&pair, &s(e1).into()).0;
    check!(num == c1, "encrypting a phone number is not encrypting its scalar");
    outcome("exact");
}
pub fn c15_keygen() {
    let k = elgamal::Keypair::generate(&mut EnvRng);
    let sc: Scalar = k.secret.clone().into();
    let p: RistrettoPoint = k.public.into();
    check!(p == sc * g(), "a generated key pair's public half is not its secret half times the generator");
    record(&[5], b"", &sc.to_bytes());
    let e = Ephemeral::new(&mut EnvRng);
    let m = par("message", ell() as u64) as u32;
    let c = k.encrypt(&(&s(m)).into(), &e);
    check!(k.secret.decrypt(&c) == s(m) * g(), "decryption does not give back the message");
    record(&[6], &[m as u8], &enc(&c.commitment));
    let q = elgamal::SecretKey::generate(&mut EnvRng);
    check!(q.to_bytes().len() == 32, "secret key");
}

// ---- C23 (large group, every draw unique) ----

/// Statement and witness vectors over {1, 2}: all, or those differing from the first in up to two places.
fn vectors(n: usize, all: bool) -> Vec<Vec<u32>> {
    if all { return (0..1u64 << n).map(|i| digits(i, 2, n).iter().map(|d| d + 1).collect()).collect(); }
    let mut v = vec![];
    for i in 0..n { for j in 0..=i { let mut x = vec![1; n]; x[i] = 2; x[j] = 2; v.push(x); } }
    v.push(vec![1; n]);
    v
}
fn masks(k: usize, p: &[RistrettoPoint], w: &[Scalar]) -> Vec<Scalar> {
    let (c, r) = systems::decode(&systems::create(k, &mut Transcript::new(b"context"), p, w));
    r.iter().zip(w).map(|(r, w)| r - c * w).collect()
}
pub fn c23(k: usize, all: bool, fixed: bool) {
    let sy = &SYSTEMS[k];
    let (np, n) = (sy.pubs.len(), sy.secs.len());
    set_entropy_fixed(fixed);
    unique_draws(Some(1));
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    for v in vectors(np + n, all) {
        let p: Vec<RistrettoPoint> = v[..np].iter().enumerate().map(|(i, x)| pt(*x, i as u32 + 3)).collect();
        let w: Vec<Scalar> = v[np..].iter().map(|x| s(*x)).collect();
        for t in 0..(if fixed { 1 } else { 2 }) {
            step(1);
            for (i, m) in masks(k, &p, &w).iter().enumerate() {
                let what = format!("{} of {} for {:?}, proof {}", sy.secs[i], sy.name, v, t);
                if let Some(o) = seen.insert(m.to_bytes(), what.clone()) { fail(format!("mask of {} repeats that of {} (system entropy {})", what, o, if fixed { "repeats" } else { "is fresh" })); }
            }
        }
        state(format!("{:?}", v).as_bytes());
    }
    outcome("fresh");
}
/// Issuing and presenting repeatedly: every public random value is new, and so
/// is every secret blinding value, found by removing what it blinds.
pub fn c23_flows(issuances: usize, presentations: usize) {
    unique_draws(Some(1));
    let mut rng = EnvRng;
    let sys = sys(0);
    let issuer = SignalIssuer::create(sys, &mut rng);
    let k = issuer.issuer.keypair.secret.clone();
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut new = |kind: &str, b: &[u8], what: String| {
        let mut key = kind.as_bytes().to_vec();
        key.push(0);
        key.extend_from_slice(b);
        if let Some(o) = seen.insert(key, what.clone()) { fail(format!("{} repeats {}", what, o)); }
    };
    for i in 0..issuances {
        let number = vec![(i % 2) as u8 + 1];
        let mut user = SignalUser::new(sys, issuer.get_issuer_parameters(), None, &number).unwrap();
        let x = issuer.issue(&number, &mut rng).unwrap();
        user.obtain_finish(Some(&x)).unwrap();
        let phone = user.phone_number.0;
        new("", &enc(&x.credential.mac.nonce), format!("tag nonce of issuance {}", i));
        let c: RistrettoPoint = x.secret_key_commitment.into();
        new("", &enc(&c), format!("key commitment of issuance {}", i));
        new("key", &enc(&(c - k.x0 * sys.g)), format!("blinding of the key commitment of issuance {}", i));
        for j in 0..presentations {
            let e = RosterEntryCommitment::create(&number, &sys, &mut rng).unwrap();
            new("opening", &e.opening.to_bytes(), format!("opening of entry {} {}", i, j));
            let p = user.show(&mut rng, &e).unwrap().presentation;
            let (n, q, a): (RistrettoPoint, RistrettoPoint, RistrettoPoint) = (p.rerandomized_nonce, p.rerandomized_mac_commitment.into(), p.attributes_blinded[0].into());
            new("", &enc(&n), format!("nonce of presentation {} {}", i, j));
            new("", &enc(&q), format!("MAC commitment of presentation {} {}", i, j));
            new("", &enc(&a), format!("attribute commitment of presentation {} {}", i, j));
            new("attribute", &enc(&(a - n * phone)), format!("blinding of the attribute of presentation {} {}", i, j));
            new("MAC", &enc(&(q - n * (k.x0 + k.xn[0] * phone))), format!("blinding of the MAC of presentation {} {}", i, j));
            step(1);
        }
        step(1);
    }
    outcome("fresh");
}

/// C26
pub fn c26() {
    let (e, f) = (s(param("scalar", ell())), s(param("second scalar", ell())));
    let (p, q) = (point(param("point", npts())), point(param("second point", npts())));
    crate::parts::algebra(e, f, p, q, &mut EnvRng);
}
