//! C25: no operation on objects that can be decoded crashes, refuses for good and bad alike, or changes its operands.
//! ops PROPERTY TIER OUTDIR
#[path = "../env.rs"] mod env;
#[path = "../guard.rs"] mod guard;
#[path = "../types.rs"] mod types;
#[path = "../../../shared/report.rs"] mod report;
use aeonflux::amacs::{self, Message, Rerandomization};
use aeonflux::credential::{Credential, CredentialIssuance, CredentialPresentation, CredentialRequest};
use aeonflux::elgamal;
use aeonflux::issuer::{Issuer, IssuerParameters};
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use aeonflux::user::User;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use guard::{everywhere, hex, panic_text};
use report::Report;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, EncryptedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use types::Block;

type Bytes = Vec<u8>;
fn points() -> Vec<Bytes> {
    let s = env::sys(1);
    [RistrettoPoint::identity(), s.g, s.h, -s.g].iter().map(|p| p.compress().0.to_vec()).collect()
}
fn scalars() -> Vec<Bytes> { [Scalar::zero(), Scalar::one(), -Scalar::one()].iter().map(|s| s.to_bytes().to_vec()).collect() }
/// The encoding, and everything that differs from it in up to `depth` blocks, all of it decodable.
fn variants(b: &[u8], layout: &[Block], depth: usize) -> Vec<Bytes> {
    let mut all = vec![b.to_vec()];
    let mut layer = vec![(0usize, b.to_vec())];
    for _ in 0..depth {
        let mut next = vec![];
        for (from, v) in &layer { for i in *from..layout.len() {
            let (o, menu) = match layout[i] { Block::P(o) => (o, points()), Block::S(o) => (o, scalars()), Block::L(_) => continue };
            for m in menu { let mut w = v.clone(); w[o..o + 32].copy_from_slice(&m); next.push((i + 1, w)); }
        } }
        all.extend(next.iter().map(|x| x.1.clone()));
        layer = next;
    }
    let mut seen = HashSet::new();
    all.retain(|v| seen.insert(v.clone()));
    all
}
struct Menus { sys: Vec<Bytes>, keys: Vec<Bytes>, params: Vec<Bytes>, requests: Vec<Bytes>, numbers: Vec<Bytes>, issuances: Vec<Bytes>, presentations: Vec<Bytes>, users: Vec<Bytes>, entries: Vec<Bytes>, credentials: Vec<Bytes>, elgamal: Vec<Bytes>, secrets: Vec<Bytes>, scalars: Vec<Scalar>, points: Vec<RistrettoPoint> }
fn menus(thorough: bool) -> Menus {
    let ts = types::types(2);
    let of = |name: &str, depth: usize, n: usize| -> Vec<Bytes> {
        let t = ts.iter().find(|t| t.name == name).unwrap();
        let mut v: Vec<Bytes> = t.samples.iter().take(n).flat_map(|s| variants(s, &(t.layout)(s.len()), depth)).collect();
        v.dedup();
        v
    };
    let any = |name: &str| -> Vec<Bytes> { ts.iter().find(|t| t.name == name).unwrap().samples.clone() };
    let d = if thorough { 2 } else { 1 };
    let mut keys = of("amacs::Keypair", 1, 2);
    let mut rng = env::rng(31);
    let h = env::sys(0).h;
    for n in vec![0, 2, 3] {
        let secret = amacs::SecretKey::new(n, &mut rng);
        keys.push(amacs::Keypair { public: secret.get_public_key(&h), secret }.to_bytes());
    }
    let mut params = of("amacs::PublicKey", 1, 5);
    params.extend(any("amacs::PublicKey"));
    params.extend(keys.iter().map(|k| amacs::Keypair::from_bytes(k).unwrap().public.to_bytes()));
    let mut requests = any("credential::CredentialRequest");
    for a in scalars() { requests.push(a.clone()); for b in scalars() { let mut v = a.clone(); v.extend(b); requests.push(v); } }
    let mut users = of("SignalUser", d, 8);
    { let mut seen = HashSet::new(); users.retain(|v| seen.insert(v.clone())); params.retain(|v| seen.insert(v.clone())); }
    let mut sc: Vec<Scalar> = scalars().iter().map(|b| { let mut t = [0; 32]; t.copy_from_slice(b); Scalar::from_canonical_bytes(t).unwrap() }).collect();
    sc.push(Scalar::random(&mut rng));
    let mut pt: Vec<RistrettoPoint> = points().iter().map(|b| { let mut t = [0; 32]; t.copy_from_slice(b); curve25519_dalek::ristretto::CompressedRistretto(t).decompress().unwrap() }).collect();
    pt.push(RistrettoPoint::random(&mut rng));
    Menus {
        sys: of("parameters::SystemParameters", 2, 2), keys, params, requests,
        numbers: vec![vec![], vec![7], vec![1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4], vec![0; 26], vec![9; 27], vec![255; 3], vec![15; 26], vec![1; 300]],
        issuances: of("credential::CredentialIssuance", d, 2), presentations: of("SignalCredentialPresentation", d, 2), users,
        entries: of("RosterEntryCommitment", 2, 2), credentials: of("credential::Credential", d, 2), elgamal: of("elgamal::Keypair", 2, 2),
        secrets: of("amacs::SecretKey", 1, 5), scalars: sc, points: pt,
    }
}
#[derive(Default)]
struct Tally { n: u64, ok: u64, refused: u64, bad: Vec<String> }
struct Run<'a> { by: &'a mut BTreeMap<&'static str, Tally>, distinct: u64 }
impl<'a> Run<'a> {
    /// One operation: Some(accepted) twice over, with the same answer, or a description of what went wrong.
    fn op(&mut self, name: &'static str, args: &[&[u8]], f: &mut dyn FnMut() -> Result<bool, String>) {
        let t = self.by.entry(name).or_default();
        t.n += 1;
        self.distinct += 1;
        let say = |m: String| format!("{} of {}: {}", name, args.iter().map(|a| hex(a)).collect::<Vec<_>>().join(", "), m);
        if t.bad.len() >= 3 { return; }
        match catch_unwind(AssertUnwindSafe(|| f())) {
            Err(e) => t.bad.push(say(format!("panics: {}", panic_text(e)))),
            Ok(Err(m)) => t.bad.push(say(m)),
            Ok(Ok(true)) => t.ok += 1,
            Ok(Ok(false)) => t.refused += 1,
        }
    }
}
fn decode_issuer(s: &[u8], k: &[u8]) -> SignalIssuer { SignalIssuer::new(SystemParameters::from_bytes(s).unwrap(), amacs::Keypair::from_bytes(k).unwrap()) }
fn issuer_bytes(i: &Issuer) -> Bytes { let mut v = i.system_parameters.to_bytes(); v.extend(i.keypair.to_bytes()); v }
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
/// What came out of an operation decodes to the same again.
macro_rules! sound { ($t:ty, $x:expr) => {{ let b = $x.to_bytes(); match <$t>::from_bytes(&b) { Ok(y) => ensure!(y.to_bytes() == b, "the result encodes differently after decoding"), Err(_) => return Err("the result does not decode".into()) } }} }

fn issuers(m: &Menus, k: usize, r: &mut Run) -> bool {
    let all = m.sys.len() * m.keys.len();
    if k >= all { return false; }
    let (s, key) = (&m.sys[k % m.sys.len()], &m.keys[k / m.sys.len()]);
    let attributes = (key.len() - 32) / 64;
    let mut rng = env::rng(40 + k as u64);
    let i = decode_issuer(s, key);
    let before = issuer_bytes(&i.issuer);
    r.op("get_issuer_parameters", &[s, key], &mut || { let p = i.get_issuer_parameters(); sound!(IssuerParameters, p); ensure!(p.to_bytes()[..] == key[..32 * attributes], "not the public key"); Ok(true) });
    for q in &m.requests {
        let request = CredentialRequest::from_bytes(q).unwrap();
        r.op("Issuer::issue", &[s, key, q], &mut || {
            let v = i.issuer.issue(&request, &mut rng);
            ensure!(issuer_bytes(&i.issuer) == before && request.to_bytes() == *q, "an operand changed");
            ensure!(v.is_ok() == (attributes > 0 && attributes * 32 == q.len()), "issued = {} for a key for {} attributes and a request for {}", v.is_ok(), attributes, q.len() / 32);
            if let Ok(v) = &v { ensure!(v.credential.attributes == request.attributes_revealed, "another attribute"); if attributes == 1 { sound!(CredentialIssuance, v); } }
            Ok(v.is_ok())
        });
    }
    for n in &m.numbers {
        r.op("SignalIssuer::issue", &[s, key, n], &mut || {
            let v = i.issue(n, &mut rng);
            ensure!(issuer_bytes(&i.issuer) == before, "the issuer changed");
            ensure!(v.is_ok() == (attributes == 1 && n.len() <= 26), "issued = {}", v.is_ok());
            if let Ok(v) = &v { ensure!(v.credential.attributes == vec![PhoneNumber::try_from_bytes(n).unwrap().0], "another attribute"); sound!(CredentialIssuance, v); }
            Ok(v.is_ok())
        });
    }
    for (at, p) in m.presentations.iter().enumerate() {
        // a part of the parameters and keys meets each presentation, all of them the honest ones
        if at > 2 && (at + k) % if m.presentations.len() > 1000 { 5 } else { 2 } != 0 { continue; }
        let show = SignalCredentialPresentation::from_bytes(p).unwrap();
        r.op("verify", &[s, key, p], &mut || {
            let a = i.verify(show.clone());
            let b = i.issuer.verify(&CredentialPresentation::from_bytes(&p[32..288]).unwrap());
            ensure!(issuer_bytes(&i.issuer) == before && show.to_bytes() == *p, "an operand changed");
            ensure!(a.is_ok() == b.is_ok() || attributes != 1, "verify and Issuer::verify disagree");
            if let Ok(v) = &a { ensure!(v.to_bytes() == *p, "the verified credential is another one"); }
            if let Ok(v) = &b { ensure!(v.to_bytes()[..] == p[32..288], "the verified credential is another one"); }
            Ok(a.is_ok())
        });
        if k % 5 == 0 {
            let ver = VerifiedSignalCredential::from_bytes(p).unwrap();
            r.op("verify_roster_membership", &[s, key, p], &mut || {
                let a = i.verify_roster_membership(&ver);
                ensure!(issuer_bytes(&i.issuer) == before && ver.to_bytes() == *p, "an operand changed");
                if let Ok(v) = &a { ensure!(v.to_bytes()[..] == p[..32], "another entry comes back"); }
                Ok(a.is_ok())
            });
        }
    }
    // presentations of other numbers of attributes, as a program can build them
    for p in m.presentations.iter().take(2) { for blinded in 0..4 { for revealed in 0..4 {
        let mut show = SignalCredentialPresentation::from_bytes(p).unwrap();
        let a = show.presentation.attributes_blinded[0];
        show.presentation.attributes_blinded = vec![a; blinded];
        show.presentation.attributes_revealed = vec![Scalar::one(); revealed];
        r.op("verify of other numbers of attributes", &[s, key, p, &[blinded as u8, revealed as u8]], &mut || {
            let ok = i.verify(show.clone()).is_ok();
            ensure!(i.issuer.verify(&show.presentation).is_ok() == ok, "verify and Issuer::verify disagree");
            ensure!(!ok || (blinded > 0 && blinded.max(revealed) <= attributes), "accepted with a key for {} attributes", attributes);
            Ok(ok)
        });
    } } }
    true
}
fn receiving(m: &Menus, k: usize, r: &mut Run) -> bool {
    let all = m.sys.len() * m.params.len();
    if k >= all { return false; }
    let (s, p) = (&m.sys[k % m.sys.len()], &m.params[k / m.sys.len()]);
    let every = if m.issuances.len() > 500 { [4, 24] } else { [4, 16] };
    let mut rng = env::rng(41 + k as u64);
    for (j, n) in m.numbers.iter().enumerate() {
        let key = if j % 3 == 0 { None } else { Some(elgamal::Keypair::from_bytes(&m.elgamal[(k + j) % m.elgamal.len()]).unwrap()) };
        let new = SignalUser::new(SystemParameters::from_bytes(s).unwrap(), IssuerParameters::from_bytes(p).unwrap(), key, n);
        r.op("SignalUser::new", &[s, p, n], &mut || { ensure!(new.is_ok() == (n.len() <= 26), "made = {}", new.is_ok()); Ok(new.is_ok()) });
        let mut u = match new { Ok(u) => u, Err(_) => continue };
        let before = u.to_bytes();
        r.op("obtain_finish(None)", &[s, p, n], &mut || { let v = u.obtain_finish(None); ensure!(v.is_err() && u.to_bytes() == before, "accepted, or the user changed"); Ok(false) });
        let entry = RosterEntryCommitment::from_bytes(&m.entries[(k + j) % m.entries.len()]).unwrap();
        r.op("show without a credential", &[s, p, n], &mut || { let v = u.show(&mut rng, &entry); ensure!(v.is_err() && u.to_bytes() == before, "shown, or the user changed"); Ok(false) });
        for (at, i) in m.issuances.iter().enumerate() {
            // each combination of parameters meets every issuance with some number, not with all of them
            if (at / 2 + k) % every[if j > 2 { 1 } else { 0 }] != 0 { continue; }
            let issuance = CredentialIssuance::from_bytes(i).unwrap();
            r.op("obtain_finish", &[s, p, n, i], &mut || {
                // the attribute is made to fit for half of them, so that the rest is looked at
                let mut v = SignalUser { phone_number: u.phone_number.clone(), user: User { system_parameters: u.user.system_parameters, issuer_parameters: u.user.issuer_parameters.clone(), key: u.user.key.clone(), credential: None } };
                if at % 2 == 0 { v.phone_number = PhoneNumber(issuance.credential.attributes[0]); }
                let before = v.to_bytes();
                let ok = v.obtain_finish(Some(&issuance)).is_ok();
                ensure!(issuance.to_bytes() == *i, "the issuance changed");
                ensure!(ok || v.to_bytes() == before, "refused, but the user changed");
                ensure!(!ok || v.user.credential == Some(issuance.credential.clone()), "accepted, but not stored");
                if p.len() == 32 { sound!(SignalUser, v); }
                let mut w = User::new(v.user.system_parameters, v.user.issuer_parameters.clone(), None);
                let ok2 = w.obtain_finish(Some(&issuance)).is_ok();
                ensure!(ok2 || !ok, "SignalUser accepts what User refuses");
                Ok(ok)
            });
        }
    }
    true
}
fn showing(m: &Menus, k: usize, r: &mut Run) -> bool {
    if k >= m.users.len() { return false; }
    let b = &m.users[k];
    let u = SignalUser::from_bytes(b).unwrap();
    let mut rng = env::rng(42 + k as u64);
    let zero = b[192..288].iter().all(|x| *x == 0);
    for (j, e) in m.entries.iter().enumerate() {
        if m.users.len() > 1000 && (j + k) % 4 != 0 { continue; }
        let entry = RosterEntryCommitment::from_bytes(e).unwrap();
        r.op("show", &[b, e], &mut || {
            let v = u.show(&mut rng, &entry);
            ensure!(u.to_bytes() == *b && entry.to_bytes() == *e, "an operand changed");
            ensure!(v.is_ok() == !zero, "shown = {}", v.is_ok());
            if let Ok(v) = &v { sound!(SignalCredentialPresentation, v); ensure!(v.to_bytes()[..32] == e[..32], "another roster entry"); }
            Ok(v.is_ok())
        });
    }
    let nonces = Nonces::new(&mut rng, 1);
    r.op("User::show", &[b], &mut || {
        let v = u.user.show(&nonces, &mut rng);
        ensure!(v.is_ok() == !zero, "shown = {}", v.is_ok());
        if let Ok(v) = &v { sound!(CredentialPresentation, v); }
        Ok(v.is_ok())
    });
    for q in &m.requests {
        let a = CredentialRequest::from_bytes(q).unwrap().attributes_revealed;
        r.op("obtain", &[b, q], &mut || { ensure!(u.user.obtain(a.clone()).to_bytes() == *q, "another request"); Ok(true) });
    }
    true
}
/// Users, credentials and nonces for other numbers of attributes, as a program can build them.
fn unusual(m: &Menus, k: usize, r: &mut Run) -> bool {
    if k >= 64 { return false; }
    let (params, attributes, nonces, key) = (k & 3, (k >> 2) & 3, k >> 4, k % 3 == 0);
    let mut rng = env::rng(45 + k as u64);
    let mut made = CredentialIssuance::from_bytes(&m.issuances[0]).unwrap();
    let x = made.credential.attributes[0];
    made.credential.attributes = vec![x; attributes];
    let nonces_ = Nonces::new(&mut rng, nonces);
    for s in m.sys.iter().take(8) { for entry in m.entries.iter().take(4) {
        let sys = SystemParameters::from_bytes(s).unwrap();
        let p = IssuerParameters { Xn: (0..params).map(|i| sys.h + env::sys(i as u32 % 2).h).collect() };
        let el = if key { Some(elgamal::Keypair::from_bytes(&m.elgamal[0]).unwrap()) } else { None };
        let mut u = SignalUser { phone_number: PhoneNumber(x), user: User::new(sys, p, el) };
        let tag = [params as u8, attributes as u8, nonces as u8];
        r.op("obtain_finish of other numbers of attributes", &[s, &tag], &mut || {
            let ok = u.obtain_finish(Some(&made)).is_ok();
            ensure!(!ok || (attributes == 1 && params == 1), "accepted");
            let ok = u.user.obtain_finish(Some(&made)).is_ok();
            ensure!(!ok || params == 1, "accepted");
            Ok(ok)
        });
        u.user.credential = Some(made.credential.clone());
        let before = u.to_bytes();
        r.op("show of other numbers of attributes", &[s, entry, &tag], &mut || {
            let ok = u.user.show(&nonces_, &mut rng).is_ok();
            ensure!(!ok || (params > 0 && attributes > 0 && nonces > 0 && nonces <= params), "shown");
            ensure!(ok || (params, attributes, nonces) != (1, 1, 1), "refused");
            let e = RosterEntryCommitment::from_bytes(entry).unwrap();
            let ok = u.show(&mut rng, &e).is_ok();
            ensure!(!ok || (params > 0 && attributes > 0), "shown");
            ensure!(ok || (params, attributes) != (1, 1), "refused");
            ensure!(u.to_bytes() == before, "the user changed");
            Ok(ok)
        });
    } }
    true
}
fn entries(m: &Menus, k: usize, r: &mut Run) -> bool {
    if k >= m.sys.len() { return false; }
    let s = &m.sys[k];
    let p = SystemParameters::from_bytes(s).unwrap();
    let mut rng = env::rng(43 + k as u64);
    for n in &m.numbers {
        r.op("RosterEntryCommitment::create", &[s, n], &mut || {
            let v = RosterEntryCommitment::create(n, &p, &mut rng);
            ensure!(v.is_ok() == (n.len() <= 26), "made = {}", v.is_ok());
            if let Ok(v) = &v { sound!(RosterEntryCommitment, v); ensure!(v.open(n, &p).is_ok(), "does not open"); }
            Ok(v.is_ok())
        });
        for e in &m.entries {
            let entry = RosterEntryCommitment::from_bytes(e).unwrap();
            let number = PhoneNumber::try_from_bytes(n).ok();
            let o: Scalar = { let x: &Scalar = (&entry.opening).into(); *x };
            let point: RistrettoPoint = entry.commitment.0.into();
            let want = number.as_ref().map(|x| x.0 * p.h + o * p.g == point).unwrap_or(false);
            r.op("RosterEntryCommitment::open", &[s, n, e], &mut || {
                ensure!(entry.open(n, &p).is_ok() == want, "opens = {}", !want);
                if let Some(x) = &number { ensure!(entry.commitment.open(x, &entry.opening, &p.g, &p.h).is_ok() == want, "the commitment opens = {}", !want); }
                ensure!(entry.to_bytes() == *e, "the entry changed");
                Ok(want)
            });
        }
    }
    // phone numbers that are any scalar
    for a in &m.scalars { for o in &m.scalars {
        let x = PhoneNumber(*a);
        let o: Ephemeral = (*o).into();
        r.op("CommittedPhoneNumber", &[s, &x.to_bytes(), &o.to_bytes()], &mut || {
            let c = CommittedPhoneNumber::from_phone_number(&x, &o, &p.g, &p.h);
            sound!(CommittedPhoneNumber, c);
            ensure!(c.open(&x, &o, &p.g, &p.h).is_ok(), "does not open");
            let m: Message = x.clone().into();
            ensure!(m[0] == x.0, "another message");
            let _: String = x.clone().into();
            for i in 0..32 { ensure!(x[i] == x.0.to_bytes()[i], "another byte"); }
            Ok(true)
        });
    } }
    for k in &m.elgamal { for a in &m.scalars { for o in &m.scalars {
        let (e, mut kp) = ((*o).into(), elgamal::Keypair::from_bytes(k).unwrap());
        let x = PhoneNumber(*a);
        r.op("encrypt", &[k, &a.to_bytes(), &o.to_bytes()], &mut || {
            let c = x.encrypt(&kp, &e);
            let (u, d): (Scalar, RistrettoPoint) = (kp.secret.clone().into(), kp.public.into());
            ensure!(c.0.commitment == o * env::sys(0).g && c.0.encryption == a * env::sys(0).g + o * d, "another encryption");
            ensure!(kp.secret.decrypt(&c.0) == c.0.encryption - u * c.0.commitment, "another decryption");
            let v: Vec<elgamal::Encryption> = c.clone().into();
            ensure!(v.len() == 1 && v[0].commitment == c.0.commitment && v[0].encryption == c.0.encryption, "another encrypted attribute");
            let _ = EncryptedPhoneNumber(c.0.clone());
            let d = &c.0 + &c.0;
            ensure!(d.commitment == c.0.commitment + c.0.commitment && d.encryption == c.0.encryption + c.0.encryption, "another sum");
            ensure!(kp.to_bytes() == *k, "the key changed");
            Ok(true)
        });
        kp.public = (&kp.secret).into();
    } } }
    for v in &m.points { for b in &m.points { for o in &m.scalars {
        let (c, e) = (Commitment::to(v, &(*o).into(), b), Ephemeral::from(*o));
        r.op("Commitment", &[&v.compress().0, &o.to_bytes(), &b.compress().0], &mut || {
            sound!(Commitment, c);
            let p: RistrettoPoint = c.into();
            ensure!(p == v + o * b, "another commitment");
            for w in &m.points { ensure!(c.open(w, &e, b).is_ok() == (w == v), "opens for another value"); ensure!(c.open(v, &e, w).is_ok() == (o * w == o * b), "opens for another basepoint"); }
            for x in &m.scalars { ensure!(&c * x == x * p && x * &c == x * p, "another multiple"); }
            let mut q = *v; q -= c;
            ensure!(q == v - p, "another difference");
            Ok(true)
        });
    } } }
    true
}
fn macs(m: &Menus, k: usize, r: &mut Run) -> bool {
    if k >= m.secrets.len() { return false; }
    let b = &m.secrets[k];
    let key = amacs::SecretKey::from_bytes(b).unwrap();
    let n = b.len() / 32 - 1;
    let mut rng = env::rng(44 + k as u64);
    for h in &m.points { r.op("get_public_key", &[b, &h.compress().0], &mut || {
        let p = key.get_public_key(h);
        sound!(amacs::PublicKey, p);
        ensure!(p.len() == n && key.len() == n + 1 && p.Xn.iter().zip(&key.xn).all(|(x, s)| *x == s * h), "another public key");
        Ok(true)
    }); }
    for q in &m.requests {
        let a = CredentialRequest::from_bytes(q).unwrap().attributes_revealed;
        let message = Message(a.clone());
        let x = key.xn.iter().zip(&a).fold(key.x0, |s, (x, y)| s + x * y);
        r.op("mac", &[b, q], &mut || {
            let v = key.mac(&message, &mut rng);
            ensure!(v.is_ok() == (a.len() == n), "made = {}", v.is_ok());
            if let Ok(v) = &v {
                sound!(amacs::Tag, v); ensure!(v.mac == x * v.nonce, "another tag"); ensure!(key.verify(v, &message).is_ok(), "refused");
                let z = Rerandomization::new(&mut rng);
                let (p, q, w) = (z.apply_to_tag(v), &z * v, v * &z);
                ensure!(p == q && q == w && p.mac == x * p.nonce, "another re-randomised tag");
            }
            ensure!(key.to_bytes() == *b, "the key changed");
            Ok(v.is_ok())
        });
        for p in &m.points { for t in &m.points {
            let tag = amacs::Tag { nonce: *p, mac: *t };
            r.op("SecretKey::verify", &[b, q, &tag.to_bytes()], &mut || {
                let want = a.len() == n && *p != RistrettoPoint::identity() && *t == x * p;
                ensure!(key.verify(&tag, &message).is_ok() == want, "accepted = {}", !want);
                Ok(want)
            });
        } }
    }
    true
}
fn main() {
    guard::setup();
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    let m = menus(thorough);
    // credentials are part of users; here they stand for themselves
    for c in &m.credentials { let x = Credential::from_bytes(c).unwrap(); assert!(x.to_bytes() == *c); }
    let groups: [fn(&Menus, usize, &mut Run) -> bool; 6] = [showing, issuers, receiving, entries, macs, unusual];
    let next: Vec<AtomicUsize> = (0..6).map(|_| AtomicUsize::new(0)).collect();
    let out: Mutex<Vec<(BTreeMap<&'static str, Tally>, u64)>> = Mutex::new(vec![]);
    everywhere(&|| {
        let mut by = BTreeMap::new();
        let mut distinct = 0;
        for (g, f) in groups.iter().enumerate() { loop {
            let k = next[g].fetch_add(1, Ordering::Relaxed);
            let mut r = Run { by: &mut by, distinct: 0 };
            let more = f(&m, k, &mut r);
            distinct += r.distinct;
            if !more { break; }
        } }
        out.lock().unwrap().push((by, distinct));
    });
    let mut r = Report::default();
    let mut all: BTreeMap<&'static str, Tally> = BTreeMap::new();
    for (by, d) in out.into_inner().unwrap() {
        r.distinct += d;
        for (n, t) in by { let e = all.entry(n).or_default(); e.n += t.n; e.ok += t.ok; e.refused += t.refused; e.bad.extend(t.bad); }
    }
    for (n, t) in all {
        r.evaluations += t.n;
        r.note(format!("{}: {} calls, {} succeed, {} are refused", n, t.n, t.ok, t.refused));
        for b in t.bad.into_iter().take(2) { r.violation(b); }
    }
    r.rule = format!("every operation on every combination of the argument menus (honest objects of two worlds and everything that differs from them in up to {} blocks, each point made the identity, the generator, another generator or minus the generator, each scalar 0, 1 or -1; keys and requests for 0 to 4 attributes); all are distinct", if thorough { 2 } else { 1 });
    r.samples.push(format!("show of {} with {}", hex(&m.users[1]), hex(&m.entries[2])));
    r.finish(&a[3], "ops");
}
