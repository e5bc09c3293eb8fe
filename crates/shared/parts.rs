//! Structural scenarios over the parts: MACs, ElGamal, the proof systems, and what presentations show.
use crate::env::{self, EnvRng};
use crate::scen::{tamper_point, tamper_scalar, World, PRES};
use crate::systems::{self, SYSTEMS};
use aeonflux::amacs::{Message, SecretKey, Tag};
use aeonflux::elgamal;
use aeonflux::nonces::{Ephemeral, Nonces};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use explorer::{outcome, param};
use merlin::Transcript;
use std::collections::HashSet;

pub const SCENARIOS: &[(&str, fn())] = &[
    ("mac_grid", mac_grid), ("mac_lengths", mac_lengths), ("elgamal_grid", elgamal_grid), ("proof_grid", proof_grid), ("proof_context", proof_context),
    ("proof_masks", proof_masks), ("shown_values", shown_values), ("operators", operators),
];
fn fail(msg: &str) -> ! { panic!("{}", msg.to_string()) }
macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { fail(&format!($($a)*)); } } }

fn random(rng: &mut EnvRng) -> Scalar { Scalar::random(rng) }
fn basepoint() -> RistrettoPoint { env::sys(0).g }
fn swap_point(p: RistrettoPoint, op: u32, other: RistrettoPoint) -> RistrettoPoint {
    curve25519_dalek::ristretto::CompressedRistretto(tamper_point(op, p.compress().0, &[other.compress().0], &env::sys(0))).decompress().unwrap()
}
fn swap_scalar(s: Scalar, op: u32, other: Scalar) -> Scalar { Scalar::from_canonical_bytes(tamper_scalar(op, s.to_bytes(), &[other.to_bytes()])).unwrap() }

/// C02: a tag, one thing changed, judged by the equation.
fn mac_grid() {
    let mut rng = env::begin(20);
    let n = param("key length", 4) as usize;
    let l = param("message length", 5) as usize;
    let key = match param("key", 3) {
        0 => SecretKey::new(n, &mut rng),
        1 => SecretKey::from_bytes(&SecretKey::new(n, &mut rng).to_bytes()).unwrap(),
        _ => SecretKey::new(n, &mut rng).clone(),
    };
    check!(key.xn.len() == n, "a key for {} elements has {}", n, key.xn.len());
    let h = env::sys(0).h;
    let public = key.get_public_key(&h);
    check!(public.Xn.len() == n && public.Xn.iter().zip(&key.xn).all(|(x, s)| *x == s * h), "the public key is not the secret scalars times h");
    let mut m: Vec<Scalar> = (0..l).map(|_| random(&mut rng)).collect();
    let value = |m: &[Scalar]| key.xn.iter().zip(m).fold(key.x0, |a, (x, m)| a + x * m);
    let made = key.mac(&Message(m.clone()), &mut rng);
    check!(made.is_ok() == (n == l), "a tag for {} elements under a key for {}: {:?}", l, n, made);
    let mut t = made.unwrap_or_else(|_| { let p = random(&mut rng) * basepoint(); Tag { nonce: p, mac: p * value(&m) } });
    let what = param("changed", 3 + l as u32);
    let op = param("change", 8);
    match what {
        0 => t.nonce = swap_point(t.nonce, op, h),
        1 => t.mac = swap_point(t.mac, op, t.nonce),
        2 => { let f = [Scalar::one(), Scalar::zero(), -Scalar::one(), random(&mut rng)][op as usize % 4]; t = Tag { nonce: f * t.nonce, mac: f * t.mac }; }
        k => { let k = k as usize - 3; let o = m[(k + 1) % l]; m[k] = swap_scalar(m[k], op, o); }
    }
    let want = l == n && t.nonce != RistrettoPoint::identity() && t.mac == t.nonce * value(&m);
    let got = key.verify(&t, &Message(m)).is_ok();
    outcome(if got { "accepted" } else { "rejected" });
    check!(got == want, "accepted = {}, the equation says {}", got, want);
}

/// C02: long keys and messages, one element changed.
fn mac_lengths() {
    const LENGTHS: [usize; 10] = [4, 7, 8, 9, 16, 17, 32, 33, 70, 300];
    let mut rng = env::begin(26);
    let n = LENGTHS[param("key length", 10) as usize];
    let l = n + param("message length", 3) as usize - 1;
    let key = SecretKey::new(n, &mut rng);
    check!(key.xn.len() == n, "a key for {} elements has {}", n, key.xn.len());
    let h = env::sys(0).h;
    let public = key.get_public_key(&h);
    check!(public.Xn.len() == n && public.Xn.iter().zip(&key.xn).all(|(x, s)| *x == s * h), "the public key is not the secret scalars times h");
    let mut m: Vec<Scalar> = (0..l).map(|_| random(&mut rng)).collect();
    let value = |m: &[Scalar]| key.xn.iter().zip(m).fold(key.x0, |a, (x, m)| a + x * m);
    let made = key.mac(&Message(m.clone()), &mut rng);
    check!(made.is_ok() == (n == l), "a tag for {} elements under a key for {}: {:?}", l, n, made);
    let t = made.unwrap_or_else(|_| { let p = random(&mut rng) * basepoint(); Tag { nonce: p, mac: p * value(&m) } });
    // in the longest ones, the places around powers of two, and the last
    let places: Vec<usize> = (0..l).filter(|i| l <= 34 || i & (i + 1) == 0 || i & (i - 1) == 0 || i + 1 == l).collect();
    let k = places[param("changed", places.len() as u32) as usize];
    let op = param("change", 3);
    let o = random(&mut rng);
    m[k] = swap_scalar(m[k], [0, 1, 4][op as usize], o);
    let want = l == n && t.nonce != RistrettoPoint::identity() && t.mac == t.nonce * value(&m);
    let got = key.verify(&t, &Message(m)).is_ok();
    outcome(if got { "accepted" } else { "rejected" });
    check!(got == want, "keys for {}, messages of {}: accepted = {}, the equation says {}", n, l, got, want);
}

/// C15
fn elgamal_grid() {
    let mut rng = env::begin(21);
    let pair = elgamal::Keypair::generate(&mut rng);
    let pair = match param("key pair", 3) { 0 => pair, 1 => elgamal::Keypair::from_bytes(&pair.to_bytes()).unwrap(), _ => pair.clone() };
    let menu = [Scalar::zero(), Scalar::one(), -Scalar::one(), random(&mut rng)];
    let (a, b) = (menu[param("message", 4) as usize], menu[param("second message", 4) as usize]);
    let secret: Scalar = pair.secret.clone().into();
    let d: RistrettoPoint = pair.public.into();
    check!(d == secret * basepoint(), "the public half is not the secret half times the generator");
    let (e, f) = (Ephemeral::new(&mut rng), Ephemeral::new(&mut rng));
    let x = pair.encrypt(&(&a).into(), &e);
    let y = elgamal::PublicKey::from(&pair.secret).encrypt(&(&b).into(), &f);
    check!(pair.secret.decrypt(&x) == a * basepoint() && pair.secret.decrypt(&y) == b * basepoint(), "decryption does not give back the message");
    check!(pair.secret.decrypt(&(&x + &y)) == (a + b) * basepoint(), "the sum of encryptions does not decrypt to the sum");
    check!(x.commitment != y.commitment, "two encryptions share their nonce");
    let other = elgamal::SecretKey::generate(&mut rng);
    check!(other.decrypt(&x) != a * basepoint(), "another key decrypts");
    outcome("decrypts");
}

/// A statement with a witness of system k.
fn instance(k: usize, variant: u32) -> (Vec<RistrettoPoint>, Vec<Scalar>) {
    let y = &SYSTEMS[k];
    let (g, h) = (env::sys(0).g, env::sys(0).h);
    let mut p: Vec<RistrettoPoint> = (0..y.pubs.len() as u32).map(|i| Scalar::from(2 * i + 3 + (variant == 3) as u32) * g + Scalar::from(5 * i * i + 7) * h).collect();
    p[y.b] = g;
    p[y.a] = h;
    let w: Vec<Scalar> = (0..y.secs.len() as u32).map(|i| match variant {
        0 => Scalar::from(11 * i + 2), 1 => Scalar::zero(), 2 => Scalar::one(), 3 => Scalar::from(11 * i + 2), _ => -Scalar::from(11 * i + 2),
    }).collect();
    y.complete(&mut p, &w);
    (p, w)
}

/// C07: one element of a statement or proof changed.
fn proof_grid() {
    let _rng = env::begin(22);
    let k = param("system", 5) as usize;
    let (p, w) = instance(k, param("witness", 5));
    let place = param("changed", 1 + (p.len() + w.len()) as u32) as usize;
    let op = param("change", 9);
    let proof = systems::create(k, &mut Transcript::new(b"context"), &p, &w);
    let (c, r) = systems::decode(&proof);
    let (mut q, mut d, mut t) = (p.clone(), c, r.clone());
    if place < p.len() { q[place] = swap_point(p[place], op, p[(place + op as usize - op as usize / 8 * 7) % p.len()]); }
    else if place == p.len() { d = swap_scalar(c, op, r[op as usize % r.len()]); }
    else { let i = place - p.len() - 1; t[i] = swap_scalar(r[i], op, r[(i + op as usize) % r.len()]); }
    // a response to a secret that no relation mentions is not constrained
    let used = |i: usize| SYSTEMS[k].rels.iter().any(|q| q.terms.iter().any(|t| t.0 == i));
    let want = (q == p) && d == c && (0..r.len()).all(|i| t[i] == r[i] || !used(i));
    let got = systems::verify(k, &mut Transcript::new(b"context"), &q, &systems::encode(d, &t));
    outcome(if got { "accepted" } else { "rejected" });
    check!(got == want, "system {}, element {} changed by {}: accepted = {}", SYSTEMS[k].name, place, op, got);
}

/// C09: a proof made in one context, for one system, checked in another or for another.
fn proof_context() {
    let _rng = env::begin(23);
    const CONTEXTS: [&[u8]; 6] = [b"", b"2018", b"2019", b"20192018", b"a longer context, 40 bytes of it in all..", b"\0"];
    let k = param("system", 5) as usize;
    let (made, used) = (param("made in", 6) as usize, param("checked in", 6) as usize);
    let before = param("hashed before", 4);
    let (p, w) = instance(k, param("witness", 2));
    let transcript = |i: usize, pre: bool| { let mut t = Transcript::new(CONTEXTS[i]); if pre { t.commit_bytes(b"x", b"y"); } t };
    let proof = systems::create(k, &mut transcript(made, before & 1 == 1), &p, &w);
    let got = systems::verify(k, &mut transcript(used, before >> 1 == 1), &p, &proof);
    check!(got == (made == used && before & 1 == before >> 1), "a proof made in context {} is accepted = {} in context {}", made, got, used);
    for j in 0..5 {
        if j == k || SYSTEMS[j].secs.len() != w.len() { continue; }
        let mut q = p.clone();
        q.resize(SYSTEMS[j].pubs.len(), RistrettoPoint::identity());
        check!(!systems::verify(j, &mut transcript(made, before & 1 == 1), &q, &proof), "a proof of {} passes for {}", SYSTEMS[k].name, SYSTEMS[j].name);
    }
    outcome(if got { "accepted" } else { "rejected" });
}

/// C08, C23: the masks of two proofs.
fn proof_masks() {
    let _rng = env::begin(24);
    let k = param("system", 5) as usize;
    let v = [param("first", 5), param("second", 5)];
    let mut seen = HashSet::new();
    for i in 0..2 {
        let (p, w) = instance(k, v[i]);
        let (c, r) = systems::decode(&systems::create(k, &mut Transcript::new(b"context"), &p, &w));
        for (j, (r, w)) in r.iter().zip(&w).enumerate() {
            let mask = r - c * w;
            check!(mask != Scalar::zero() && seen.insert(mask.to_bytes()), "response {} of a proof of {} has a mask that is zero or used before", j, SYSTEMS[k].name);
        }
        check!(seen.insert(c.to_bytes()), "two proofs have the same challenge");
    }
    outcome("fresh");
}

/// C06: nothing in one presentation reappears in another or in what the issuer saw before.
fn shown_values() {
    let mut rng = env::begin(25);
    let w = World::new(&mut rng);
    let (who, again, entry, stored) = (param("second shown by", 2), param("issued again", 2), param("entries", 2), param("restored", 2));
    let number = env::number(0);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut u = w.blank(0, 0);
    let mut issue = |u: &mut signal_credential::user::SignalUser, number: &[u8], rng: &mut EnvRng, seen: &mut HashSet<Vec<u8>>| {
        let i = w.issuers[0].issue(number, rng).unwrap();
        for b in i.to_bytes()[..96].chunks(32) { seen.insert(b.to_vec()); }
        for b in i.credential.to_bytes().chunks(32) { seen.insert(b.to_vec()); }
        u.obtain_finish(Some(&i)).unwrap();
    };
    issue(&mut u, &number, &mut rng, &mut seen);
    let mut v = w.blank(0, who);
    if who == 0 { v = signal_credential::user::SignalUser::from_bytes(&u.to_bytes()).unwrap(); }
    if again == 1 || who == 1 { issue(&mut v, &env::number(who), &mut rng, &mut seen); }
    if stored == 1 { v = signal_credential::user::SignalUser::from_bytes(&v.to_bytes()).unwrap(); }
    let e = w.entry(0, &mut rng);
    let f = if entry == 0 && who == 0 { signal_credential::phone_number::RosterEntryCommitment::from_bytes(&e.to_bytes()).unwrap() } else { w.entry(who, &mut rng) };
    for (n, (u, e)) in vec![(&u, &e), (&v, &f), (&u, &e)].into_iter().enumerate() {
        let b = u.show(&mut rng, e).unwrap().to_bytes();
        for (i, k) in PRES.iter().enumerate() {
            if i == 0 { continue; } // the roster entry itself
            check!(seen.insert(b[k.0..k.0 + 32].to_vec()), "presentation {}: value {} was seen before", n, i);
        }
    }
    outcome("fresh");
}

/// C26: every operator and conversion, against the group.
pub fn algebra(e: Scalar, f: Scalar, p: RistrettoPoint, q: RistrettoPoint, rng: &mut EnvRng) {
    use aeonflux::amacs::{PublicKey, Rerandomization};
    use aeonflux::parameters::SystemParameters;
    use aeonflux::pedersen::Commitment;
    use curve25519_dalek::ristretto::RistrettoBasepointTable;
    use signal_credential::phone_number::{CommittedPhoneNumber, PhoneNumber, RosterEntryCommitment};
    let new = |x: Scalar| -> Ephemeral { x.into() };
    let x = new(e);
    let ep = e * p;
    let forms = [&x * &p, &p * &x, p * &x, new(e) * &p, &x * p, &p * new(e), new(e) * p, p * new(e), x.clone() * &p];
    for (i, y) in forms.iter().enumerate() { check!(*y == ep, "form {} of the product of an ephemeral and a point is not the product", i); }
    let table = RistrettoBasepointTable::create(&p);
    check!(&x * &table == ep && &table * &x == ep, "the product of an ephemeral and a table is not the product");
    let r: &Scalar = (&x).into();
    check!(*r == e && x.to_bytes()[..] == e.to_bytes()[..], "an ephemeral is not its scalar");
    let minus = -new(e);
    let r: &Scalar = (&minus).into();
    check!(*r == -e && &minus * &p == -ep, "the negative of an ephemeral is not the negative");
    // commitments
    let c = Commitment::to(&q, &x, &p);
    let point: RistrettoPoint = c.into();
    check!(point == q + ep, "a commitment is not the value plus the nonce times the basepoint");
    check!(&c * &f == f * point && &f * &c == f * point, "a multiple of a commitment");
    let mut d = p; d -= c;
    check!(d == p - point, "a point minus a commitment");
    check!(c.open(&q, &x, &p) == Ok(()) && c.open(&q, &new(f), &p).is_ok() == (f * p == ep) && c.open(&p, &x, &p).is_ok() == (p == q) && c.open(&q, &x, &q).is_ok() == (e * q == ep), "opening a commitment");
    let copy = c;
    check!(copy == c && (Commitment::to(&p, &x, &p) == c) == (p == q), "equality of commitments");
    // phone numbers
    let n = PhoneNumber(f);
    let k = CommittedPhoneNumber::from_phone_number(&n, &x, &p, &q);
    let kp: RistrettoPoint = k.0.into();
    check!(kp == f * q + ep, "a committed phone number");
    check!(k.open(&n, &x, &p, &q).is_ok() && k.open(&PhoneNumber(e), &x, &p, &q).is_ok() == (e * q == f * q), "opening a committed phone number");
    let entry = RosterEntryCommitment { commitment: k, opening: new(e) };
    check!(entry.to_bytes()[..32] == point_bytes(kp)[..] && entry.to_bytes()[32..] == e.to_bytes()[..], "an entry's encoding");
    let m: Message = n.clone().into();
    check!(m.0 == vec![f] && m[0] == f, "a phone number as a message");
    // messages
    let v: Vec<Scalar> = Message::from(vec![e, f, e]).into();
    check!(v == vec![e, f, e] && Message::from(vec![e, f])[1] == f && Message::from(e).0 == vec![e], "messages are not their elements");
    // keys
    let key = SecretKey { x0: e, xn: vec![f, e] };
    let public = key.get_public_key(&p);
    check!(public.Xn == vec![f * p, ep] && public.len() == 2 && key.len() == 3, "a public key");
    check!((PublicKey { Xn: vec![q, q] } == public) == (q == f * p && q == ep), "equality of public keys");
    let message = Message(vec![f, e]);
    let tag = Tag { nonce: p, mac: (e + f * f + e * e) * p };
    check!(key.verify(&tag, &message).is_ok() == (p != RistrettoPoint::identity()), "a tag");
    let z = Rerandomization::new(rng);
    let (a, b, c2) = (&z * &tag, &tag * &z, z.apply_to_tag(&tag));
    check!(a == b && b == c2 && a.mac == (e + f * f + e * e) * a.nonce, "a re-randomised tag");
    // encryption
    let mut bytes = f.to_bytes().to_vec(); bytes.extend_from_slice(&point_bytes(f * basepoint()));
    let pair = elgamal::Keypair::from_bytes(&bytes).unwrap();
    check!(elgamal::PublicKey::from(&pair.secret) == pair.public && pair.clone() == pair, "a public key is not the secret times the generator");
    let (s, y): (Scalar, RistrettoPoint) = (pair.secret.clone().into(), pair.public.into());
    check!(s == f && y == f * basepoint(), "conversion of a key pair");
    let g = basepoint();
    let message: elgamal::Message = (&f).into();
    for w in vec![pair.encrypt(&message, &x), pair.public.encrypt(&message, &x), n.encrypt(&pair, &x).0] {
        check!(w.commitment == e * g && w.encryption == f * g + e * (f * g), "an encryption");
        check!(pair.secret.decrypt(&w) == f * g, "a decryption");
    }
    let (w, w2) = (elgamal::Encryption { commitment: p, encryption: q }, elgamal::Encryption { commitment: q, encryption: ep });
    check!(pair.secret.decrypt(&w) == q - f * p, "a decryption");
    let sum = &w + &w2;
    check!(sum.commitment == p + q && sum.encryption == q + ep && (w == w2) == (p == q && q == ep), "a sum of encryptions");
    let l: Vec<elgamal::Encryption> = signal_credential::phone_number::EncryptedPhoneNumber(sum).into();
    check!(l == vec![sum], "an encrypted phone number as attributes");
    // parameters
    if p != g {
        for t in vec![SystemParameters::from(p), SystemParameters::from(p.compress().0)] { check!(t.g == g && t.h == p, "parameters from a point"); }
    }
    check!((SystemParameters { g, h: p } == SystemParameters { g: q, h: p }) == (g == q) && (SystemParameters { g, h: p } == SystemParameters { g, h: q }) == (p == q), "equality of parameters");
}
fn point_bytes(p: RistrettoPoint) -> [u8; 32] { p.compress().0 }
fn operators() {
    let mut rng = env::begin(27);
    let sc = [Scalar::zero(), Scalar::one(), -Scalar::one(), random(&mut rng), random(&mut rng)];
    let s = env::sys(0);
    let pt = [RistrettoPoint::identity(), s.g, s.h, random(&mut rng) * s.g];
    let (e, f) = (sc[param("scalar", 5) as usize], sc[param("second scalar", 5) as usize]);
    let (p, q) = (pt[param("point", 4) as usize], pt[param("second point", 4) as usize]);
    algebra(e, f, p, q, &mut rng);
    let n = [0, 1, 2, 4, 40][param("nonces", 5) as usize];
    let nonces = Nonces::new(&mut rng, n);
    let mut seen = HashSet::new();
    let mut count = 0;
    for (i, x) in nonces.iter().enumerate() { count += 1; check!(nonces[i].to_bytes() == x.to_bytes() && &nonces[i] * &s.g == x * &s.g, "the elements of nonces are not its elements"); check!(seen.insert(x.to_bytes()), "a nonce is repeated"); }
    check!(count == n && nonces.clone().iter().count() == n && Nonces::default().iter().count() == 0, "{} nonces instead of {}", count, n);
    outcome("as in the group");
}
