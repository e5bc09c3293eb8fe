//! C10 (decoders never crash), C11 (round trips), C12 (canonical encodings), C13 (phone numbers), C16 (parameters), C28 (strings), C29 (equality).
//! bytes PROPERTY TIER OUTDIR
#[path = "../env.rs"] mod env;
#[path = "../guard.rs"] mod guard;
#[path = "../types.rs"] mod types;
#[path = "../../../shared/report.rs"] mod report;
use aeonflux::amacs;
use aeonflux::credential::{Credential, CredentialRequest, VerifiedCredential};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use guard::{everywhere, hex, note, panic_text, Page};
use report::Report;
use signal_credential::credential::VerifiedSignalCredential;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::PhoneNumber;
use signal_credential::user::SignalUser;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use types::{Block, Type};

type B32 = [u8; 32];
/// little-endian addition of up to 256 bits; None on overflow
fn add(a: &B32, b: &B32) -> Option<B32> {
    let (mut r, mut c) = ([0u8; 32], 0u16);
    for i in 0..32 { c += a[i] as u16 + b[i] as u16; r[i] = c as u8; c >>= 8; }
    if c == 0 { Some(r) } else { None }
}
fn less(a: &B32, b: &B32) -> bool { for i in (0..32).rev() { if a[i] != b[i] { return a[i] < b[i]; } } false }
fn small(n: u8) -> B32 { let mut r = [0; 32]; r[0] = n; r }
fn order() -> B32 { add(&(-Scalar::one()).to_bytes(), &small(1)).unwrap() }
fn prime() -> B32 { let mut r = [255u8; 32]; r[0] = 0xed; r[31] = 0x7f; r }
fn canonical(b: &[u8]) -> bool { let mut t = [0; 32]; t.copy_from_slice(b); less(&t, &order()) }
fn point_ok(b: &[u8]) -> bool {
    let mut t = [0; 32]; t.copy_from_slice(b);
    CompressedRistretto(t).decompress().map(|p| p.compress().0 == t).unwrap_or(false)
}

fn point_menu() -> Vec<B32> {
    let g = RISTRETTO_BASEPOINT_COMPRESSED.0;
    let mut v = vec![[0; 32], g, env::sys(0).h.compress().0, env::sys(1).h.compress().0, small(1), small(2), small(3), small(4), [255; 32], prime(), add(&prime(), &small(1)).unwrap()];
    let mut t = g; t[31] |= 0x80; v.push(t);
    // the negative of g's field element, and g's plus the prime where that fits
    let mut n = prime(); let mut borrow = 0i16;
    for i in 0..32 { let d = prime()[i] as i16 - g[i] as i16 - borrow; borrow = (d < 0) as i16; n[i] = (d & 255) as u8; }
    v.push(n);
    v.push(order());
    let mut t = small(0); t[31] = 0x80; v.push(t);
    v
}
fn scalar_menu(own: &[u8]) -> Vec<B32> {
    let l = order();
    let mut own32 = [0; 32]; own32.copy_from_slice(own);
    let mut v = vec![[0; 32], small(1), small(15), (-Scalar::one()).to_bytes(), l, add(&l, &small(1)).unwrap(), add(&l, &l).unwrap(), [255; 32], prime()];
    let mut t = own32; t[31] |= 0x80; v.push(t);
    let mut t = own32; t[31] |= 0x40; v.push(t);
    let mut t = [0; 32]; t[31] = 0x10; v.push(t);
    let mut t = [255; 32]; t[31] = 0x7f; v.push(t);
    let mut k = own32;
    for _ in 0..15 { match add(&k, &l) { Some(x) => { v.push(x); k = x; } None => break } }
    v
}
const LENGTHS: [u64; 14] = [0, 1, 8, 31, 33, 40, 64, 255, 256, 1 << 20, 1 << 32, 1 << 40, 1 << 63, u64::max_value()];
fn menu(b: Block, s: &[u8]) -> Vec<Vec<u8>> {
    match b {
        Block::P(_) => point_menu().iter().map(|x| x.to_vec()).collect(),
        Block::S(o) => scalar_menu(&s[o..o + 32]).iter().map(|x| x.to_vec()).collect(),
        Block::L(_) => LENGTHS.iter().map(|x| x.to_le_bytes().to_vec()).collect(),
    }
}
fn offset(b: Block) -> usize { match b { Block::P(o) | Block::S(o) | Block::L(o) => o } }
fn frame(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u64).to_le_bytes().to_vec(); v.extend_from_slice(b); v }
fn json(b: &[u8]) -> String { let mut s = String::from("["); for (i, x) in b.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&x.to_string()); } s.push(']'); s }

struct Found { evals: u64, accepted: u64, rejected: u64, bad: Vec<String>, distinct: HashSet<u64>, sample: String }
struct Judge<'a> { t: &'a Type, page: &'a Page, c12: bool, f: Found }
impl<'a> Judge<'a> {
    fn new(t: &'a Type, page: &'a Page, c12: bool) -> Judge<'a> { Judge { t, page, c12, f: Found { evals: 0, accepted: 0, rejected: 0, bad: vec![], distinct: HashSet::new(), sample: String::new() } } }
    fn bad(&mut self, s: String) { if self.f.bad.len() < 3 { self.f.bad.push(s); } }
    fn seen(&mut self, route: u8, b: &[u8]) {
        self.f.evals += 1;
        let mut h = explorer::fnv(b).wrapping_mul(3).wrapping_add(route as u64);
        for c in self.t.name.bytes() { h = h.wrapping_mul(0x100000001b3) ^ c as u64; }
        self.f.distinct.insert(h);
    }
    fn count(&mut self, ok: bool) { if ok { self.f.accepted += 1 } else { self.f.rejected += 1 } }
    /// Through from_bytes.
    fn decode(&mut self, b: &[u8]) {
        let f = match self.t.decode { Some(f) => f, None => return };
        self.seen(0, b);
        let p = self.page.put(b);
        note(self.t.name, p);
        match catch_unwind(AssertUnwindSafe(|| f(p))) {
            Err(e) => { if !self.c12 { let m = format!("{}::from_bytes panics on {} ({} bytes): {}", self.t.name, hex(b), b.len(), panic_text(e)); self.bad(m) } }
            Ok(r) => {
                self.count(r.is_some());
                if let (Some(r), true) = (r, self.c12) {
                    if r[..] != b[..] { let m = format!("{}::from_bytes accepts {} ({} bytes), which encodes as {}", self.t.name, hex(b), b.len(), hex(&r)); self.bad(m) }
                    else if let Some(m) = self.wrong(b) { let m = format!("{}::from_bytes accepts {}: {}", self.t.name, hex(b), m); self.bad(m) }
                }
            }
        }
    }
    /// Something in an accepted encoding that is not a canonical scalar or point.
    fn wrong(&self, b: &[u8]) -> Option<String> {
        if !self.t.samples.iter().any(|s| s.len() == b.len()) { return None; }
        for k in (self.t.layout)(b.len()) {
            match k {
                Block::P(o) => if !point_ok(&b[o..o + 32]) { return Some(format!("bytes {}.. are no canonical point", o)) },
                Block::S(o) => if !canonical(&b[o..o + 32]) { return Some(format!("bytes {}.. are no canonical scalar", o)) },
                Block::L(o) => if b[o..o + 8] != [32, 0, 0, 0, 0, 0, 0, 0] { return Some(format!("bytes {}.. are no length of a scalar", o)) },
            }
        }
        None
    }
    /// Through bincode; `b` is the whole message.
    fn bincode(&mut self, b: &[u8]) {
        self.seen(1, b);
        let p = self.page.put(b);
        note(self.t.name, p);
        let f = self.t.bincode;
        match catch_unwind(AssertUnwindSafe(|| f(p))) {
            Err(e) => { if !self.c12 { let m = format!("{} through bincode panics on {}: {}", self.t.name, hex(b), panic_text(e)); self.bad(m) } }
            Ok(r) => {
                self.count(r.is_some());
                // bincode itself leaves what follows the value alone
                if let (Some(r), true) = (r, self.c12) {
                    if !b.starts_with(&r) { let m = format!("{} through bincode accepts {}, which encodes as {}", self.t.name, hex(b), hex(&r)); self.bad(m) }
                    else {
                        let inner = if self.t.decode.is_some() { &r[8..] } else { &r[..] };
                        if let Some(m) = self.wrong(inner) { let m = format!("{} through bincode accepts {}: {}", self.t.name, hex(b), m); self.bad(m) }
                    }
                }
            }
        }
    }
    fn json(&mut self, s: &str) {
        self.seen(2, s.as_bytes());
        let p = self.page.put(s.as_bytes());
        note(self.t.name, p);
        let q = std::str::from_utf8(p).unwrap();
        let f = self.t.json;
        match catch_unwind(AssertUnwindSafe(|| f(q))) {
            Err(e) => { if !self.c12 { let m = format!("{} through JSON panics on {}: {}", self.t.name, s, panic_text(e)); self.bad(m) } }
            Ok(r) => {
                self.count(r.is_some());
                if let (Some(r), true) = (r, self.c12) {
                    let same = match (serde_json::from_str::<serde_json::Value>(s), serde_json::from_str::<serde_json::Value>(&r)) { 
                        // serde_json takes a string for its bytes
                        (Ok(serde_json::Value::String(a)), Ok(_)) => serde_json::from_str::<Vec<u8>>(&r).map(|b| a.as_bytes() == &b[..]).unwrap_or(false),
                        (Ok(a), Ok(b)) => a == b, _ => false };
                    if !same { let m = format!("{} through JSON accepts {}, which encodes as {}", self.t.name, s, r); self.bad(m) }
                    else if let Ok(v) = serde_json::from_str::<Vec<u8>>(s) { if let Some(m) = self.wrong(&v) { let m = format!("{} through JSON accepts {}: {}", self.t.name, s, m); self.bad(m) } }
                }
            }
        }
    }
    fn all(&mut self, b: &[u8]) {
        if self.f.sample.is_empty() && b.len() > 8 { self.f.sample = format!("{} <- {}", self.t.name, hex(b)); }
        self.decode(b);
        if self.t.decode.is_some() { self.bincode(&frame(b)); self.json(&json(b)); } else { self.bincode(b); }
    }
    fn light(&mut self, b: &[u8]) { if self.t.decode.is_some() { self.decode(b) } else { self.bincode(b) } }
}

const CLASSES: [&str; 12] = ["truncations and extensions", "single bits", "bytes", "one block", "two blocks", "other types", "short strings", "bincode lengths", "JSON texts", "two bits", "three blocks", "long vectors"];
fn class(j: &mut Judge, s: &[u8], class: usize, ts: &[Type], thorough: bool) {
    let blocks = (j.t.layout)(s.len());
    match class {
        0 => {
            for n in 0..=s.len() { j.all(&s[..n]); }
            for n in 1..s.len().min(100) { j.all(&s[n..]); }
            for n in 1..=(if thorough { 300 } else { 72 }) {
                for f in [0u8, 1, 15, 255].iter() { let mut v = s.to_vec(); v.extend(vec![*f; n]); j.all(&v); }
                let mut v = s.to_vec(); let w = v.clone(); v.extend(w.iter().cycle().take(n)); j.all(&v);
                let mut v = vec![0; n]; v.extend_from_slice(s); j.all(&v);
            }
            for n in 0..520 { for f in [0u8, 1, 255].iter() { j.all(&vec![*f; n]); } }
            // blocks removed or doubled
            for i in 0..=s.len() / 8 { for k in vec![8, 16, 32, 40] { let o = 8 * i; if o + k <= s.len() {
                let mut v = s[..o].to_vec(); v.extend_from_slice(&s[o + k..]); j.all(&v);
                let mut v = s[..o + k].to_vec(); v.extend_from_slice(&s[o..]); j.all(&v);
            } } }
        }
        1 => for i in 0..s.len() * 8 { let mut v = s.to_vec(); v[i / 8] ^= 1 << (i % 8); j.all(&v); },
        2 => for i in 0..s.len() { for x in 0..=255u8 { if x != s[i] { let mut v = s.to_vec(); v[i] = x; j.light(&v); } } },
        3 => for b in &blocks { for m in menu(*b, s) { let mut v = s.to_vec(); v[offset(*b)..offset(*b) + m.len()].copy_from_slice(&m); j.all(&v); } },
        4 => for (i, b) in blocks.iter().enumerate() { for c in &blocks[i + 1..] { for m in menu(*b, s) { for n in menu(*c, s) {
            let mut v = s.to_vec();
            v[offset(*b)..offset(*b) + m.len()].copy_from_slice(&m);
            v[offset(*c)..offset(*c) + n.len()].copy_from_slice(&n);
            j.light(&v);
        } } } },
        5 => for t in ts { for x in &t.samples {
            j.all(x);
            let mut v = x.clone(); v.extend_from_slice(s); j.all(&v);
            let mut v = s.to_vec(); v.extend_from_slice(x); j.all(&v);
            if x.len() >= s.len() { j.all(&x[..s.len()]); j.all(&x[x.len() - s.len()..]); }
        } },
        6 => {
            let mut each = |b: &[u8]| { j.light(b); j.bincode(b); if let Ok(t) = std::str::from_utf8(b) { j.json(t); } };
            each(&[]);
            for a in 0..=255u8 { each(&[a]); for b in 0..=255u8 { each(&[a, b]); } }
        }
        7 => {
            let body: Vec<Vec<u8>> = vec![vec![], s[..s.len() / 2].to_vec(), s[..s.len().max(1) - 1].to_vec(), s.to_vec(), { let mut v = s.to_vec(); v.extend_from_slice(s); v }];
            for l in LENGTHS.iter().cloned().chain(0..(s.len() as u64 + 70)).chain(vec![u64::max_value() - 7, u64::max_value() - 8, (1 << 63) - 1]) {
                for b in &body { let mut v = l.to_le_bytes().to_vec(); v.extend_from_slice(b); j.bincode(&v); }
            }
            for n in 0..frame(s).len() { j.bincode(&frame(s)[..n]); }
        }
        8 => {
            const TOKENS: [&str; 22] = ["256", "-1", "1.5", "1.0", "\"x\"", "\"1\"", "null", "true", "[]", "[1]", "{}", "{\"a\":1}", "1e0", "1e300", "18446744073709551615", "18446744073709551616", "-0", "\"\\u0000\"", "", " ", "01", "\u{e9}"];
            let parts: Vec<String> = s.iter().map(|x| x.to_string()).collect();
            let n = parts.len();
            for i in vec![0, 1, n / 2, n.max(2) - 2, n.max(1) - 1] { if i < n { for t in TOKENS.iter() {
                let mut p = parts.clone(); p[i] = t.to_string(); j.json(&format!("[{}]", p.join(",")));
                let mut p = parts.clone(); p.insert(i, t.to_string()); j.json(&format!("[{}]", p.join(",")));
            } } }
            let text = json(s);
            for i in 0..text.len() { if i < 60 || i + 60 > text.len() || thorough { j.json(&text[..i]); } }
            for t in TOKENS.iter() { j.json(t); j.json(&format!("{}{}", text, t)); j.json(&format!("{}{}", t, text)); }
            j.json(&format!("[{}]", text)); j.json(&format!("{{\"bytes\":{}}}", text)); j.json(&format!("[ {} ]", parts.join(" , ")));
            j.json(&format!("\"{}\"", hex(s))); j.json(&format!("\"{}\"", s.iter().map(|x| format!("\\u{:04x}", x)).collect::<String>()));
            for d in vec![1usize, 2, 100, 127, 128, 129, 1000, 50_000] { j.json(&"[".repeat(d)); j.json(&format!("{}{}", "[".repeat(d), "]".repeat(d))); j.json(&"{\"a\":".repeat(d)); }
            for k in vec!["challenge", "responses", "P", ""] { j.json(&format!("{{\"{}\":{}}}", k, text)); j.json(&format!("{{\"challenge\":{},\"responses\":{{\"{}\":{}}}}}", text, k, text)); j.json(&format!("[{},[{}]]", text, text)); }
        }
        9 => if s.len() <= 64 { let n = s.len() * 8; for i in 0..n { for k in i + 1..n { let mut v = s.to_vec(); v[i / 8] ^= 1 << (i % 8); v[k / 8] ^= 1 << (k % 8); j.light(&v); } } },
        11 => {
            // the types whose encodings hold any number of elements
            let of = match j.t.name { "amacs::PublicKey" => 0, "amacs::SecretKey" | "credential::CredentialRequest" => 1, _ => return };
            let lengths = if thorough { (1..=300).collect::<Vec<usize>>() } else { (1..40).chain(vec![62, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 300]).collect() };
            let g = RISTRETTO_BASEPOINT_COMPRESSED.0;
            for n in lengths {
                let mut v = vec![];
                for i in 0..n { if of == 0 { v.extend_from_slice(if i % 2 == 0 { &g } else { &s[..32] }) } else { v.extend_from_slice(&Scalar::from(i as u64 * 77 + 1).to_bytes()) } }
                j.all(&v);
                for cut in vec![1, 8, 16, 31, 33] { if cut < v.len() { j.all(&v[..v.len() - cut]); j.light(&v[cut..]); } }
                for more in vec![1, 8, 16, 31] { let mut w = v.clone(); w.extend(vec![0; more]); j.all(&w); }
                let mut places = vec![0, 1, n / 2, n.max(2) - 2, n - 1]; places.dedup();
                for p in places { if p < n {
                    let b = if of == 0 { Block::P(32 * p) } else { Block::S(32 * p) };
                    for m in menu(b, &v) { let mut w = v.clone(); w[32 * p..32 * p + 32].copy_from_slice(&m); j.light(&w); }
                } }
            }
        }
        _ => for (i, b) in blocks.iter().enumerate() { for (k, c) in blocks.iter().enumerate().skip(i + 1) { for d in &blocks[k + 1..] {
            for m in menu(*b, s).iter().step_by(3) { for n in menu(*c, s).iter().step_by(3) { for o in menu(*d, s).iter().step_by(3) {
                let mut v = s.to_vec();
                for (b, m) in vec![(b, m), (c, n), (d, o)] { v[offset(*b)..offset(*b) + m.len()].copy_from_slice(m); }
                j.light(&v);
            } } }
        } } },
    }
}
fn malformed(r: &mut Report, c12: bool, thorough: bool) {
    let ts = types::types(2);
    let mut jobs = vec![];
    for c in (0..(if thorough { 11 } else { 9 })).chain(vec![11]) { for (i, t) in ts.iter().enumerate() { for s in 0..t.samples.len() {
        if c == 11 && s != 1 { continue; }
        if s > 0 && (c == 6 || c == 2 && !thorough || c >= 9 && s > 0) { continue; }
        jobs.push((c, i, s));
    } } }
    jobs.sort_by_key(|j| std::cmp::Reverse(if j.0 == 10 || j.0 == 4 || j.0 == 2 { ts[j.1].samples[j.2].len() } else { 0 }));
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    everywhere(&|| {
        let page = Page::new();
        loop {
            let k = next.fetch_add(1, Ordering::Relaxed);
            if k >= jobs.len() { break; }
            let (c, i, s) = jobs[k];
            let mut j = Judge::new(&ts[i], &page, c12);
            class(&mut j, &ts[i].samples[s], c, &ts, thorough);
            out.lock().unwrap().push((c, i, s, j.f));
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|o| (o.0, o.1, o.2));
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut by: HashMap<usize, (u64, u64, u64)> = HashMap::new();
    let mut accepted: HashMap<usize, u64> = HashMap::new();
    for (c, i, _, f) in out {
        let e = by.entry(c).or_insert((0, 0, 0)); e.0 += f.evals; e.1 += f.accepted; e.2 += f.rejected;
        *accepted.entry(i).or_insert(0) += f.accepted;
        distinct.extend(&f.distinct);
        r.evaluations += f.evals;
        for b in f.bad { r.violation(b); }
        if i % 7 == 0 && r.samples.len() < 5 && !f.sample.is_empty() { r.samples.push(f.sample); }
    }
    for (i, t) in ts.iter().enumerate() { if accepted.get(&i).cloned().unwrap_or(0) == 0 { r.violation(format!("{}: nothing is ever accepted, honest objects included", t.name)); } }
    r.distinct = distinct.len() as u64;
    for c in 0..CLASSES.len() { if let Some(e) = by.get(&c) { r.note(format!("{}: {} inputs over {} types, {} accepted, {} rejected", CLASSES[c], e.0, ts.len(), e.1, e.2)); } }
    r.rule = "every input of each class for every type and sample (truncations, extensions, bit and byte changes, replaced blocks, other types' encodings, short strings, bincode and JSON framings); counted as distinct by type, route and bytes".into();
    // numbers turned to text
    if !c12 {
        let mut n = 0u64;
        for len in 0..=255u8 { for at in 0..32 { for fill in [0u8, 9, 10, 15, 255].iter() {
            let mut b = [*fill; 32]; for x in at + 1..32 { b[x] = 0; } b[at] = len; if at == 31 { b[31] &= 0x0f; }
            if !canonical(&b) { continue; }
            n += 1;
            let r2 = catch_unwind(AssertUnwindSafe(|| { let p = PhoneNumber::from_bytes(&b).unwrap(); let s: String = p.into(); s.len() }));
            if let Err(e) = r2 { r.violation(format!("turning the decoded phone number {} into text panics: {}", hex(&b), panic_text(e))); }
        } } }
        r.evaluations += n; r.distinct += n;
        r.note(format!("{} decoded phone numbers turned to text", n));
    }
}

// ---- C11 ----
struct Trips<'a> { r: &'a mut Report }
impl<'a> Trips<'a> {
    fn ok(&mut self, c: bool, m: impl FnOnce() -> String) { if !c { self.r.violation(m()); } }
    /// `same` compares fields; `size` is the documented size.
    fn trip<T>(&mut self, name: &str, x: &T, size: Option<usize>, enc: &dyn Fn(&T) -> Vec<u8>, dec: &dyn Fn(&[u8]) -> Option<T>, same: &dyn Fn(&T, &T) -> bool)
    where T: serde::Serialize + serde::de::DeserializeOwned {
        let out: Mutex<Vec<String>> = Mutex::new(vec![]);
        let say = |m: String| out.lock().unwrap().push(m);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let b = enc(x);
            if let Some(n) = size { if b.len() != n { say(format!("{} encodes to {} bytes, documented {}", name, b.len(), n)); } }
            let check = |how: &str, y: Option<T>| match y {
                None => say(format!("{}: {} does not decode through {}", name, hex(&enc(x)), how)),
                Some(y) => {
                    if !same(x, &y) { say(format!("{}: {} comes back different through {}", name, hex(&enc(x)), how)); }
                    if enc(&y) != b { say(format!("{}: {} encodes differently after {}", name, hex(&b), how)); }
                }
            };
            check("from_bytes", dec(&b));
            let bin = bincode::serialize(x).unwrap();
            check("bincode", bincode::deserialize(&bin).ok());
            check("bincode from a reader", bincode::deserialize_from(&bin[..]).ok());
            let text = serde_json::to_string(x).unwrap();
            check("JSON", serde_json::from_str(&text).ok());
            check("JSON from a reader", serde_json::from_reader(text.as_bytes()).ok());
            check("a JSON value", serde_json::to_value(x).ok().and_then(|v| serde_json::from_value(v).ok()));
            check("indented JSON", serde_json::from_str(&serde_json::to_string_pretty(x).unwrap()).ok());
            // nested
            let nested = (vec![x, x], Some(x), 7u8);
            type N<T> = (Vec<T>, Option<T>, u8);
            let back: Option<N<T>> = bincode::deserialize(&bincode::serialize(&nested).unwrap()).ok();
            let back2: Option<N<T>> = serde_json::from_str(&serde_json::to_string(&nested).unwrap()).ok();
            for (how, n) in vec![("nested bincode", back), ("nested JSON", back2)] {
                match n {
                    None => say(format!("{}: does not decode through {}", name, how)),
                    Some((v, o, k)) => {
                        if v.len() != 2 || o.is_none() || k != 7 { say(format!("{}: wrong structure through {}", name, how)); }
                        for y in v.into_iter().chain(o) { check(how, Some(y)); }
                    }
                }
            }
        }));
        self.r.evaluations += 13;
        self.r.distinct += 9;
        for m in out.into_inner().unwrap() { self.r.violation(m); }
        if let Err(e) = res { let m = panic_text(e); self.r.violation(format!("{}: round trip panics: {}", name, m)); }
    }
}
macro_rules! trip { ($t:expr, $name:expr, $T:ty, $x:expr, $size:expr, $same:expr) => { $t.trip::<$T>($name, $x, $size, &|x| x.to_bytes(), &|b| <$T>::from_bytes(b).ok(), &$same) } }
fn same_secret(a: &amacs::SecretKey, b: &amacs::SecretKey) -> bool { a.x0 == b.x0 && a.xn == b.xn }
fn same_pair(a: &amacs::Keypair, b: &amacs::Keypair) -> bool { a.public == b.public && same_secret(&a.secret, &b.secret) }
fn eq<T: PartialEq + Debug>(a: &T, b: &T) -> bool { a == b }
fn special() -> Vec<Scalar> { vec![Scalar::zero(), Scalar::one(), -Scalar::one(), Scalar::from(256u64), Scalar::random(&mut env::rng(4))] }
fn round_trips(r: &mut Report, thorough: bool) {
    let mut t = Trips { r };
    for k in 0..(if thorough { 400 } else { 52 }) {
        let h = types::honest(k);
        trip!(t, "SystemParameters", SystemParameters, &h.sys, Some(64), eq);
        trip!(t, "amacs::Keypair", amacs::Keypair, &h.issuer.keypair, Some(96), same_pair);
        trip!(t, "amacs::SecretKey", amacs::SecretKey, &h.issuer.keypair.secret, Some(64), same_secret);
        trip!(t, "IssuerParameters", amacs::PublicKey, &h.issuer.get_issuer_parameters(), Some(32), eq);
        trip!(t, "Issuer", Issuer, &h.issuer, Some(160), |a: &Issuer, b: &Issuer| a.system_parameters == b.system_parameters && same_pair(&a.keypair, &b.keypair));
        trip!(t, "SignalIssuer", SignalIssuer, &h.signal_issuer, Some(160), |a: &SignalIssuer, b: &SignalIssuer| a.issuer.system_parameters == b.issuer.system_parameters && same_pair(&a.issuer.keypair, &b.issuer.keypair));
        trip!(t, "Tag", amacs::Tag, &h.issuance.credential.mac, Some(64), eq);
        trip!(t, "Credential", Credential, &h.issuance.credential, Some(96), eq);
        trip!(t, "CredentialIssuance", aeonflux::credential::CredentialIssuance, &h.issuance, Some(328), eq);
        trip!(t, "CredentialPresentation", aeonflux::credential::CredentialPresentation, &h.presentation, Some(256), eq);
        trip!(t, "VerifiedCredential", VerifiedCredential, &h.issuer.verify(&h.presentation).unwrap(), Some(256), eq);
        trip!(t, "SignalCredentialPresentation", signal_credential::credential::SignalCredentialPresentation, &h.signal_presentation, Some(448), eq);
        trip!(t, "VerifiedSignalCredential", VerifiedSignalCredential, &h.signal_issuer.verify(h.signal_presentation.clone()).unwrap(), Some(448), eq);
        trip!(t, "elgamal::PublicKey", elgamal::PublicKey, &h.elgamal.public, Some(32), eq);
        trip!(t, "elgamal::SecretKey", elgamal::SecretKey, &h.elgamal.secret, Some(32), eq);
        trip!(t, "elgamal::Keypair", elgamal::Keypair, &h.elgamal, Some(64), eq);
        trip!(t, "pedersen::Commitment", aeonflux::pedersen::Commitment, &h.issuance.secret_key_commitment, Some(32), eq);
        trip!(t, "PhoneNumber", PhoneNumber, &h.number, Some(32), eq);
        trip!(t, "CommittedPhoneNumber", signal_credential::phone_number::CommittedPhoneNumber, &h.entry.commitment, Some(32), eq);
        trip!(t, "RosterEntryCommitment", signal_credential::phone_number::RosterEntryCommitment, &h.entry, Some(64),
            |a: &signal_credential::phone_number::RosterEntryCommitment, b: &signal_credential::phone_number::RosterEntryCommitment| a.commitment == b.commitment && a.opening.to_bytes() == b.opening.to_bytes());
        for u in &h.users { trip!(t, "User", aeonflux::user::User, u, Some(256), eq); }
        for u in &h.signal_users { trip!(t, "SignalUser", SignalUser, u, Some(288), eq); }
    }
    // shapes and special values
    let h0 = types::honest(1);
    let sp = special();
    let mut rng = env::rng(3);
    let mut lengths: Vec<usize> = (0..if thorough { 130 } else { 40 }).collect();
    lengths.extend(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 2047, 2048]);
    for n in lengths {
        trip!(t, "amacs::SecretKey", amacs::SecretKey, &amacs::SecretKey::new(n, &mut rng), Some(32 * (n + 1)), same_secret);
        trip!(t, "amacs::PublicKey", amacs::PublicKey, &amacs::SecretKey::new(n, &mut rng).get_public_key(&env::sys(0).h), Some(32 * n), eq);
        let q = CredentialRequest { attributes_revealed: (0..n).map(|_| Scalar::random(&mut rng)).collect() };
        trip!(t, "CredentialRequest", CredentialRequest, &q, Some(32 * n), eq);
        let k = amacs::SecretKey::new(n, &mut rng);
        let pair = amacs::Keypair { public: k.get_public_key(&env::sys(0).h), secret: k };
        trip!(t, "amacs::Keypair", amacs::Keypair, &pair, Some(32 + 64 * n), same_pair);
    }
    let g = env::sys(0).g;
    for a in &sp { for b in &sp {
        trip!(t, "amacs::SecretKey", amacs::SecretKey, &amacs::SecretKey { x0: *a, xn: vec![*b] }, Some(64), same_secret);
        let k = amacs::SecretKey { x0: *a, xn: vec![*b] };
        let pair = amacs::Keypair { public: k.get_public_key(&env::sys(0).h), secret: k };
        trip!(t, "amacs::Keypair", amacs::Keypair, &pair, Some(96), same_pair);
        trip!(t, "Issuer", Issuer, &Issuer::new(env::sys(0), pair), Some(160), |a: &Issuer, b: &Issuer| a.system_parameters == b.system_parameters && same_pair(&a.keypair, &b.keypair));
        trip!(t, "amacs::PublicKey", amacs::PublicKey, &amacs::PublicKey { Xn: vec![a * g, b * g] }, Some(64), eq);
        trip!(t, "Tag", amacs::Tag, &amacs::Tag { nonce: a * g, mac: b * g }, Some(64), eq);
        trip!(t, "CredentialRequest", CredentialRequest, &CredentialRequest { attributes_revealed: vec![*a, *b] }, Some(64), eq);
        for c in &sp {
            let cred = Credential { mac: amacs::Tag { nonce: a * g, mac: b * g }, attributes: vec![*c] };
            trip!(t, "Credential", Credential, &cred, Some(96), eq);
            // in a user, all zeros stand for no credential and for no key
            if *a == Scalar::zero() && *b == Scalar::zero() && *c == Scalar::zero() { continue; }
            for key in vec![None, Some((*a, *c)), Some((*c, *b))] {
                if key == Some((Scalar::zero(), Scalar::zero())) { continue; }
                let key = key.map(|(x, y)| { let mut v = x.to_bytes().to_vec(); v.extend((y * g).compress().to_bytes().iter()); elgamal::Keypair::from_bytes(&v).unwrap() });
                let user = aeonflux::user::User { credential: Some(cred.clone()), ..aeonflux::user::User::new(env::sys(0), amacs::PublicKey { Xn: vec![c * g] }, key.clone()) };
                trip!(t, "User", aeonflux::user::User, &user, Some(256), eq);
                for number in vec![*b, h0.number.0] {
                    let credential = user.credential.clone();
                    let su = SignalUser { phone_number: PhoneNumber(number), user: aeonflux::user::User { credential, ..aeonflux::user::User::new(env::sys(0), amacs::PublicKey { Xn: vec![b * g] }, key.clone()) } };
                    trip!(t, "SignalUser", SignalUser, &su, Some(288), eq);
                }
            }
        }
        trip!(t, "SystemParameters", SystemParameters, &SystemParameters { g: a * g, h: b * g }, Some(64), eq);
    } }
    // bare proofs, through bincode
    macro_rules! bare { ($($m:ident),*) => { $(
        let ty = types::types(1).into_iter().find(|t| t.name == concat!(stringify!($m), "::Proof")).unwrap();
        for s in &ty.samples {
            let p: Result<aeonflux::proofs::$m::Proof, _> = bincode::deserialize(s);
            match p {
                Err(_) => t.r.violation(format!("{}: an encoded proof does not decode", ty.name)),
                Ok(p) => {
                    let b = bincode::serialize(&p).unwrap();
                    let q: Option<aeonflux::proofs::$m::Proof> = bincode::deserialize(&b).ok();
                    let good = b == *s && q.map(|q| q == p).unwrap_or(false);
                    t.ok(good, || format!("{}: round trip changes the proof", ty.name));
                }
            }
            t.r.evaluations += 1; t.r.distinct += 1;
        }
    )* } }
    bare!(issuance_revealed, attributes_blinded, issuance_blinded, valid_credential, committed_values_equal);
    t.r.samples.push(format!("SignalUser {}", hex(&types::honest(1).signal_users[3].to_bytes())));
    t.r.note("every honest object of generated worlds (users with and without key and credential), keys and requests of every small length, every combination of special scalars; each through bytes, bincode, JSON, readers, values and nesting".into());
    t.r.rule = "one evaluation per object and route; distinct: object and kind of route".into();
}

// ---- C13 ----
struct Numbers { page: Page, seen: HashMap<B32, Vec<u8>>, bad: Vec<String>, n: u64, longer: u64 }
impl Numbers {
    fn bad(&mut self, s: String) { if self.bad.len() < 5 { self.bad.push(s) } }
    fn number(&mut self, d: &[u8], keep: bool) {
        self.n += 1;
        let p = self.page.put(d);
        note("PhoneNumber::try_from_bytes", p);
        let r = match catch_unwind(|| PhoneNumber::try_from_bytes(p).ok()) { Ok(r) => r, Err(_) => { self.bad(format!("the number {} panics", hex(d))); return; } };
        let digits = !d.is_empty() && d.iter().all(|x| *x < 10);
        if d.len() > 26 { self.longer += 1; if r.is_some() { self.bad(format!("a number of {} bytes is accepted: {}", d.len(), hex(d))); } }
        let r = match r {
            None => { if digits && d.len() <= 26 { self.bad(format!("the number {} is refused", hex(d))); } return; }
            Some(r) => r,
        };
        let b = r.0.to_bytes();
        if !canonical(&b) { self.bad(format!("the number {} gives no canonical scalar", hex(d))); }
        if keep {
            match self.seen.get(&b) {
                Some(x) => if x[..] != d[..] { let m = format!("{} and {} give the same scalar", hex(d), hex(x)); self.bad(m) },
                None => { self.seen.insert(b, d.to_vec()); }
            }
        }
        if digits {
            let text: String = d.iter().map(|x| (b'0' + x) as char).collect();
            match catch_unwind(|| PhoneNumber::try_from_string(&text)) {
                Ok(Ok(t)) => if t != r { self.bad(format!("{} as text and as bytes give different scalars", text)) },
                _ => self.bad(format!("the text {} is refused or panics", text)),
            }
            let back = catch_unwind(AssertUnwindSafe(|| { let s: String = r.clone().into(); s }));
            match back { Ok(s) => if s != text { self.bad(format!("{} converts back to {:?}", text, s)) }, Err(_) => self.bad(format!("converting {} back panics", text)) }
        }
    }
    fn text(&mut self, s: &str) {
        self.n += 1;
        let r = catch_unwind(|| PhoneNumber::try_from_string(&s.to_string()).ok());
        match r { Err(_) => self.bad(format!("the text {:?} panics", s)), Ok(Some(_)) if s.len() > 26 => self.bad(format!("a text of {} bytes is accepted", s.len())), _ => () }
    }
}
fn phone_numbers(r: &mut Report, thorough: bool) {
    let parts: Vec<Box<dyn Fn(&mut Numbers) + Sync + Send>> = {
        let mut v: Vec<Box<dyn Fn(&mut Numbers) + Sync + Send>> = vec![];
        // every digit string up to a length
        let max = if thorough { 7 } else { 6 };
        for first in 0..10u8 { v.push(Box::new(move |n| {
            for len in 1..=max {
                let total = 10u64.pow(len as u32 - 1);
                for mut k in 0..total { let mut d = vec![first]; for _ in 1..len { d.push((k % 10) as u8); k /= 10; } n.number(&d, true); }
            }
        })); }
        // every byte string up to two bytes, every byte in every place
        for hi in 0..4u32 { v.push(Box::new(move |n| {
            if hi == 0 { n.number(&[], true); for a in 0..=255u8 { n.number(&[a], true); } }
            for a in (hi * 64)..(hi * 64 + 64) { for b in 0..=255u8 { n.number(&[a as u8, b], true); } }
        })); }
        for len in 1..=26usize { v.push(Box::new(move |n| {
            for fill in [0u8, 1, 9, 15, 16, 128, 255].iter() { for i in 0..len { for x in 0..=255u8 { let mut d = vec![*fill; len]; d[i] = x; n.number(&d, true); } } }
        })); }
        // long numbers: patterns with up to two (three) digits changed
        for len in 6..=26usize { v.push(Box::new(move |n| {
            let bases: Vec<Vec<u8>> = vec![vec![0; len], vec![9; len], (0..len).map(|i| (i % 10) as u8).collect(), (0..len).map(|i| ((len - i) % 10) as u8).collect()];
            for b in bases { for i in 0..len { for j in i..len { for x in 0..10u8 { for y in 0..10u8 {
                let mut d = b.clone(); d[i] = x; d[j] = y; n.number(&d, true);
                if thorough && j > i { for k in j + 1..len { let mut e = d.clone(); e[k] = (x + y) % 10; n.number(&e, true); } }
            } } } } }
        })); }
        // padding look-alikes: 15s, lengths and zeros around short numbers
        v.push(Box::new(|n| {
            const MENU: [u8; 8] = [0, 1, 2, 3, 4, 15, 16, 26];
            for len in 1..=6usize { for mut k in 0..8u64.pow(len as u32) { let mut d = vec![]; for _ in 0..len { d.push(MENU[(k % 8) as usize]); k /= 8; } n.number(&d, true); } }
        }));
        // too long
        v.push(Box::new(|n| {
            for len in 27..=300usize { for f in [0u8, 1, 9, 15, 255].iter() { n.number(&vec![*f; len], false); for i in vec![0, 1, 25, 26, len - 1] { let mut d = vec![*f; len]; d[i] ^= 1; n.number(&d, false); } } }
            for len in vec![65535usize, 65536, 65537, 65536 + 5] { n.number(&vec![1; len], false); n.text(&"1".repeat(len)); }
            for len in 0..=300 { for c in vec!["0", "9", "x", "\u{0}", "\u{e9}", "\u{20ac}", " ", "+"] { n.text(&c.repeat(len)); } }
            for a in 0..0x300u32 { if let Some(c) = std::char::from_u32(a) { for len in 0..27 { n.text(&format!("{}{}", c, "1".repeat(len))); } } }
        }));
        v
    };
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Numbers>> = Mutex::new(vec![]);
    everywhere(&|| {
        let mut n = Numbers { page: Page::new(), seen: HashMap::new(), bad: vec![], n: 0, longer: 0 };
        loop { let k = next.fetch_add(1, Ordering::Relaxed); if k >= parts.len() { break; } parts[k](&mut n); }
        out.lock().unwrap().push(n);
    });
    let mut seen: HashMap<B32, Vec<u8>> = HashMap::new();
    for n in out.into_inner().unwrap() {
        r.evaluations += n.n;
        for b in n.bad { r.violation(b); }
        for (k, d) in n.seen {
            match seen.get(&k) {
                Some(x) => if *x != d { r.violation(format!("{} and {} give the same scalar", hex(x), hex(&d))); },
                None => { seen.insert(k, d); }
            }
        }
        r.states += n.longer;
    }
    r.distinct = seen.len() as u64;
    r.note(format!("{} inputs, {} distinct scalars for as many distinct inputs of at most 26 bytes, {} longer ones refused", r.evaluations, seen.len(), r.states));
    r.rule = "every digit string of up to 6 (thorough 7) digits; every byte string of up to 2 bytes; every byte value at every place of seven patterns of every length up to 26; four patterns of 6 to 26 digits with every change of two digits; padding look-alikes; lengths to 65541; distinct: different accepted inputs".into();
    r.samples.push("0018006427676 as text and bytes".into());
}

// ---- C16 ----
struct Script<'a> { data: &'a [u8], pos: usize }
impl<'a> rand_core::RngCore for Script<'a> {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.pos + d.len() > self.data.len() { panic!("asked for more although an acceptable encoding was offered"); }
        d.copy_from_slice(&self.data[self.pos..self.pos + d.len()]);
        self.pos += d.len();
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl<'a> rand_core::CryptoRng for Script<'a> {}
fn parameters(r: &mut Report, thorough: bool) {
    let mut bad: Vec<B32> = vec![[0; 32], RISTRETTO_BASEPOINT_COMPRESSED.0];
    for m in point_menu() { if !point_ok(&m) && !bad.contains(&m) { bad.push(m); } }
    // encodings of the basepoint or the identity that differ in one bit
    let mut good: Vec<B32> = vec![];
    for base in vec![[0; 32], RISTRETTO_BASEPOINT_COMPRESSED.0] { for i in 0..256 { let mut t: B32 = base; t[i / 8] ^= 1 << (i % 8); if point_ok(&t) { good.push(t) } else if thorough && i % 8 == 0 { bad.push(t) } } }
    good.push((-env::sys(0).g).compress().0);
    good.push((env::sys(0).g + env::sys(0).g).compress().0);
    good.push(env::sys(0).h.compress().0);
    for k in 0..40 { good.push(env::sys(k).h.compress().0); }
    let kinds = bad.len();
    let depth = if thorough { 5 } else { 4 };
    let mut scripts: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = scripts.clone();
    for d in 0..depth {
        let width = if d < 3 { kinds } else { kinds.min(7) };
        layer = layer.iter().flat_map(|s| (0..width).map(move |k| { let mut t = s.clone(); t.push(k); t })).collect();
        scripts.extend(layer.iter().cloned());
    }
    // many of one kind, and of two in turn
    let long: Vec<usize> = (depth + 1..if thorough { 700 } else { 300 }).chain(vec![1000, 1023, 1024, 1025, 4096]).collect();
    for n in long { for k in 0..kinds {
        if n > 300 && k > 3 { continue; }
        scripts.push(vec![k; n]);
        if n < 100 || n % 16 < 2 || thorough { scripts.push((0..n).map(|i| (k + i % 2) % kinds).collect()); }
    } }
    for k in 0..2 { scripts.push(vec![k; 65_537]); }
    scripts.reverse();
    let next = AtomicUsize::new(0);
    let out: Mutex<(u64, Vec<String>)> = Mutex::new((0, vec![]));
    everywhere(&|| {
        let (mut n, mut v) = (0u64, vec![]);
        loop {
            let k = next.fetch_add(1, Ordering::Relaxed);
            if k >= scripts.len() { break; }
            let gs: Vec<&B32> = if scripts[k].len() <= 1 { good.iter().collect() } else { vec![&good[k % good.len()], &good[good.len() - 1 - k % 40]] };
            for g in gs {
                let mut data: Vec<u8> = vec![];
                for b in &scripts[k] { data.extend_from_slice(&bad[*b]); }
                data.extend_from_slice(g);
                n += 1;
                let mut s = Script { data: &data, pos: 0 };
                let res = catch_unwind(AssertUnwindSafe(|| { let p = SystemParameters::hunt_and_peck(&mut s); (p, s.pos) }));
                let want = CompressedRistretto(*g).decompress().unwrap();
                match res {
                    Err(e) => v.push(format!("random bytes {}: {}", hex(&data), panic_text(e))),
                    Ok((p, used)) => {
                        if p.g.compress() != RISTRETTO_BASEPOINT_COMPRESSED { v.push(format!("random bytes {}: g is not the basepoint", hex(&data))) }
                        else if p.h == RistrettoPoint::identity() || p.h == p.g { v.push(format!("random bytes {}: h is the identity or the basepoint", hex(&data))) }
                        else if p.h != want || used != data.len() { v.push(format!("random bytes {}: h = {} after {} bytes is not the first acceptable encoding", hex(&data), hex(&p.h.compress().0), used)) }
                    }
                }
                if v.len() > 5 { break; }
            }
        }
        let mut o = out.lock().unwrap();
        o.0 += n; o.1.extend(v);
    });
    let (n, v) = out.into_inner().unwrap();
    r.evaluations = n;
    r.distinct = n;
    for x in v { r.violation(x); }
    r.note(format!("{} kinds of unacceptable chunks in every sequence up to {} (at most 7 kinds beyond the third), each repeated and two in turn up to 300 times and more, then one of {} acceptable chunks: {} runs", kinds, depth, good.len(), n));
    r.rule = "every sequence of answers of the random source over the chunk menu up to the depth, ended by an acceptable chunk; all are distinct".into();
    r.samples.push(format!("identity, basepoint, then {}", hex(&good[0])));
}

// ---- C28 ----
struct Strings { seen: HashMap<B32, String>, bad: Vec<String>, n: u64 }
impl Strings {
    fn bad(&mut self, s: String) { if self.bad.len() < 5 { self.bad.push(s) } }
    fn add(&mut self, s: String) {
        self.n += 1;
        let m = match catch_unwind(AssertUnwindSafe(|| { let m: Vec<Scalar> = amacs::Message::from(s.clone()).into(); m })) { Ok(m) => m, Err(_) => { let m = format!("a message from the string {:?} panics", brief(&s)); self.bad(m); return; } };
        if m.len() != 1 { let m = format!("a message from the string {:?} has {} scalars", brief(&s), m.len()); self.bad(m); return; }
        let b = m[0].to_bytes();
        if !canonical(&b) { let m = format!("the string {:?} gives no canonical scalar", brief(&s)); self.bad(m); }
        match self.seen.get(&b) {
            Some(x) => if *x != s { let m = format!("the strings {:?} and {:?} give the same message", brief(&s), brief(x)); self.bad(m) },
            None => { self.seen.insert(b, s); }
        }
    }
}
fn brief(s: &str) -> String { if s.len() < 60 { s.into() } else { format!("{}... ({} bytes, {:?})", s.chars().take(20).collect::<String>(), s.len(), s.char_indices().filter(|(i, c)| *i > 0 && !s.starts_with(*c)).map(|(i, _)| i).take(3).collect::<Vec<_>>()) } }
fn strings(r: &mut Report, thorough: bool) {
    let mut parts: Vec<Box<dyn Fn(&mut Strings) + Sync + Send>> = vec![];
    // every string of up to two characters below 256 (thorough: of three below 128), every single character there is
    parts.push(Box::new(|n| { n.add(String::new()); }));
    for hi in 0..8u32 { parts.push(Box::new(move |n| {
        for a in hi * 32..hi * 32 + 32 { for b in 0..256u32 { let mut s = String::new(); s.push(a as u8 as char); s.push(b as u8 as char); n.add(s); } }
    })); }
    for hi in 0..17u32 { parts.push(Box::new(move |n| { for a in hi << 16..(hi + 1) << 16 { if let Some(c) = std::char::from_u32(a) { if thorough || a < 0x3000 || a % 16 == 0 { n.add(c.to_string()); } } } })); }
    if thorough { for a in 0..128u8 { parts.push(Box::new(move |n| { for b in 0..128u8 { for c in 0..128u8 { n.add([a, b, c].iter().map(|x| *x as char).collect()); } } })); } }
    // every string of two letters up to a length
    for first in 0..8u32 { parts.push(Box::new(move |n| {
        let max = if thorough { 18 } else { 14 };
        for len in 3..=max { for k in 0..1u32 << (len - 3) { let k = k << 3 | first; n.add((0..len).map(|i| if k >> i & 1 == 1 { 'y' } else { 'x' }).collect()); } }
    })); }
    // every length, with every one (and two neighbours, and first and any other) of the places changed
    let longest = if thorough { 640 } else { 330 };
    for part in 0..16usize { parts.push(Box::new(move |n| {
        for len in (0..=longest).filter(|l| l % 16 == part) {
            for fill in vec!['a', '\u{0}', '0', ' '] {
                let base: Vec<char> = vec![fill; len];
                n.add(base.iter().collect());
                if fill == 'a' || len <= 66 { for i in 0..len {
                    let mut t = base.clone(); t[i] = 'b'; n.add(t.iter().collect());
                    t[0] = 'b'; t[i] = 'c'; n.add(t.iter().collect());
                    if i + 1 < len { let mut t = base.clone(); t[i] = 'c'; t[i + 1] = 'b'; n.add(t.iter().collect()); }
                } }
            }
        }
    })); }
    parts.push(Box::new(|n| {
        for len in vec![1000usize, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20] {
            for at in vec![0, 1, 63, 64, 127, 128, len / 2, len - 2, len - 1] { let mut t = vec![b'a'; len]; n.add(String::from_utf8(t.clone()).unwrap()); t[at] = b'b'; n.add(String::from_utf8(t).unwrap()); }
        }
        // spellings that look alike
        for s in vec!["\u{e9}", "e\u{301}", "\u{212b}", "\u{c5}", "A\u{30a}", "alice", "Alice", "ALICE", " alice", "alice ", "alice\n", "alice\r\n", "alice\u{0}", "\u{feff}alice", "al\u{ad}ice", "+1", "1", "01", "001"] { n.add(s.into()); }
    }));
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Strings>> = Mutex::new(vec![]);
    everywhere(&|| {
        let mut n = Strings { seen: HashMap::new(), bad: vec![], n: 0 };
        loop { let k = next.fetch_add(1, Ordering::Relaxed); if k >= parts.len() { break; } parts[k](&mut n); }
        out.lock().unwrap().push(n);
    });
    let mut seen: HashMap<B32, String> = HashMap::new();
    for n in out.into_inner().unwrap() {
        r.evaluations += n.n;
        for b in n.bad { r.violation(b); }
        for (k, d) in n.seen {
            match seen.get(&k) {
                Some(x) => if *x != d { r.violation(format!("the strings {:?} and {:?} give the same message", brief(&d), brief(x))); },
                None => { seen.insert(k, d); }
            }
        }
    }
    r.distinct = seen.len() as u64;
    // the same string always gives the same message, and a tag on one string is one on no other
    let mut menu: Vec<String> = vec!["".into(), "\u{0}".into(), " ".into(), "a".into(), "A".into(), "b".into(), "ab".into(), "ba".into(), "alice".into(), "alice@example.com".into(), "bob".into()];
    for len in vec![31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024] { menu.push("a".repeat(len)); menu.push(format!("{}b", "a".repeat(len - 1))); menu.push(format!("b{}", "a".repeat(len - 1))); }
    let mut rng = env::rng(28);
    let key = amacs::SecretKey::new(1, &mut rng);
    for s in menu.iter() {
        let tag = match key.mac(&s.clone().into(), &mut rng) { Ok(t) => t, Err(_) => { r.violation(format!("no tag for the string {:?}", brief(s))); continue; } };
        for t in menu.iter() {
            r.evaluations += 1;
            if key.verify(&tag, &t.clone().into()).is_ok() != (s == t) { r.violation(format!("a tag on the string {:?} is {} for {:?}", brief(s), if s == t { "refused" } else { "accepted" }, brief(t))); }
        }
    }
    r.note(format!("{} strings, {} distinct scalars for as many distinct strings; tags on each of {} strings tried on all of them", r.evaluations, seen.len(), menu.len()));
    r.rule = "every string of two characters below 256, every character (quick: every one below U+3000, each sixteenth after), every string of two letters up to 14 (18), every length to 330 (640) with every place, every two neighbours and the first and any other changed; distinct: different strings".into();
    r.samples.push("\"a\" 128 times, with place 127 changed".into());
}

// ---- C29 ----
/// objects that differ in one block from honest ones
fn variants(t: &Type, thorough: bool) -> Vec<Vec<u8>> {
    let mut v = t.samples.clone();
    let menu: Vec<B32> = point_menu().into_iter().filter(|p| point_ok(p)).collect();
    let count = if thorough { 6 } else { 3 };
    for s in t.samples.iter().take(count) {
        for b in (t.layout)(s.len()) {
            match b {
                Block::P(at) => {
                    let mut own = [0; 32]; own.copy_from_slice(&s[at..at + 32]);
                    let mut m = menu.clone();
                    if let Some(p) = CompressedRistretto(own).decompress() { for q in vec![-p, p + p, p + env::sys(0).g] { m.push(q.compress().0); } }
                    for x in m { let mut c = s.clone(); c[at..at + 32].copy_from_slice(&x); v.push(c); }
                }
                Block::S(at) => {
                    for i in 0..253 { let mut c = s.clone(); c[at + i / 8] ^= 1 << (i % 8); if canonical(&c[at..at + 32]) { v.push(c); } }
                    for x in vec![[0; 32], small(1), (-Scalar::one()).to_bytes()] { let mut c = s.clone(); c[at..at + 32].copy_from_slice(&x); v.push(c); }
                }
                Block::L(_) => (),
            }
        }
        // two blocks of a kind in each other's place
        let l = (t.layout)(s.len());
        for a in l.iter() { for b in l.iter() { match (a, b) {
            (Block::P(x), Block::P(y)) | (Block::S(x), Block::S(y)) if x < y => { let mut c = s.clone(); let first = c[*x..*x + 32].to_vec(); let second = c[*y..*y + 32].to_vec(); c[*x..*x + 32].copy_from_slice(&second); c[*y..*y + 32].copy_from_slice(&first); v.push(c); }
            _ => (),
        } } }
    }
    v
}
/// (pairs compared, what is wrong) among the objects that decode
fn equal<T: PartialEq>(name: &str, decode: &(dyn Fn(&[u8]) -> Option<T> + Sync), encode: &(dyn Fn(&T) -> Vec<u8> + Sync), all: &[Vec<u8>], near: usize) -> (u64, u64, Vec<String>) {
    let objects: Vec<(Vec<u8>, T)> = all.iter().filter_map(|b| catch_unwind(AssertUnwindSafe(|| decode(b))).ok().and_then(|x| x).map(|x| (encode(&x), x))).collect();
    let (mut n, mut bad) = (0, vec![]);
    for (i, (a, x)) in objects.iter().enumerate() {
        for (j, (b, y)) in objects.iter().enumerate() {
            // every pair with an honest object, and the neighbours of each
            if i >= near && j >= near && (if i < j { j - i } else { i - j }) > 12 { continue; }
            n += 1;
            let same = a == b;
            if ((x == y) != same || (x != y) == same) && bad.len() < 3 { bad.push(format!("{}: {} and {} are {}", name, hex(a), hex(b), if same { "unequal" } else { "equal" })); }
        }
    }
    (n, objects.len() as u64, bad)
}
/// every index vector below the dimensions
fn grid(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for d in dims { v = v.into_iter().flat_map(|x| (0..*d).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect(); }
    v
}
/// objects made of the same parts are equal, of different parts not
fn made_of<T: PartialEq>(name: &str, dims: &[usize], make: &dyn Fn(&[usize]) -> T) -> (u64, u64, Vec<String>) {
    let all: Vec<(Vec<usize>, T, T)> = grid(dims).into_iter().map(|i| { let x = make(&i); let y = make(&i); (i, x, y) }).collect();
    let (mut n, mut bad) = (0, vec![]);
    for (i, x, _) in all.iter() { for (j, _, y) in all.iter() {
        n += 1;
        if ((x == y) != (i == j) || (x != y) == (i == j)) && bad.len() < 3 { bad.push(format!("{}: made of the parts {:?} and {:?} they are {}", name, i, j, if i == j { "unequal" } else { "equal" })); }
    } }
    (n, all.len() as u64, bad)
}
fn assembled(thorough: bool) -> Vec<(u64, u64, Vec<String>)> {
    use aeonflux::credential::{CredentialBlindIssuance, CredentialBlindRequest, CredentialIssuance, CredentialPresentation};
    use aeonflux::elgamal::Encryption;
    use aeonflux::pedersen::Commitment;
    use aeonflux::proofs::*;
    use aeonflux::user::User;
    use signal_credential::credential::SignalCredentialPresentation;
    use signal_credential::phone_number::CommittedPhoneNumber;
    let s = env::sys(0);
    let pt: Vec<RistrettoPoint> = vec![s.g, s.h, RistrettoPoint::identity(), s.g + s.h];
    let sc: Vec<Scalar> = vec![Scalar::one(), -Scalar::one(), Scalar::zero(), Scalar::from(5u64)];
    let few = if thorough { 3 } else { 2 };
    // lists of the first two elements
    fn list<T: Clone>(v: &[T], k: usize) -> Vec<T> { let l: [&[usize]; 8] = [&[], &[0], &[1], &[0, 1], &[1, 0], &[0, 0], &[2], &[0, 1, 0]]; l[k].iter().map(|i| v[*i].clone()).collect() }
    let co: Vec<Commitment> = pt.iter().map(|p| Commitment::from_bytes(&p.compress().0).unwrap()).collect();
    let en: Vec<Encryption> = grid(&[3, 3]).iter().map(|i| Encryption { commitment: pt[i[0]], encryption: pt[i[1]] }).collect();
    let pk: Vec<elgamal::PublicKey> = pt.iter().map(|p| elgamal::PublicKey::from_bytes(&p.compress().0).unwrap()).collect();
    let pair = |i: usize, j: usize| { let mut b = sc[i].to_bytes().to_vec(); b.extend_from_slice(&pt[j].compress().0); elgamal::Keypair::from_bytes(&b).unwrap() };
    fn proofs<T: serde::de::DeserializeOwned>(n: usize) -> Vec<T> { (0..3u8).map(|k| { let mut v = vec![]; for i in 0..n { v.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]); let mut x = [0; 32]; x[0] = if k > 0 && i == (if k == 1 { 0 } else { n - 1 }) { 1 } else { 0 }; v.extend_from_slice(&x); } bincode::deserialize(&v).unwrap() }).collect() }
    let (ir, ab, ib, vc, ce) = (|k: usize| proofs::<issuance_revealed::Proof>(5).swap_remove(k), |k: usize| proofs::<attributes_blinded::Proof>(5).swap_remove(k), |k: usize| proofs::<issuance_blinded::Proof>(7).swap_remove(k), |k: usize| proofs::<valid_credential::Proof>(4).swap_remove(k), |k: usize| proofs::<committed_values_equal::Proof>(4).swap_remove(k));
    let tag = |i: usize| amacs::Tag { nonce: pt[i], mac: pt[1 - i] };
    let credential = |i: usize, k: usize| Credential { mac: tag(i), attributes: list(&sc, k) };
    let show = |i: &[usize]| CredentialPresentation { rerandomized_mac_commitment: co[i[0]], rerandomized_nonce: pt[i[1]], attributes_revealed: list(&sc, i[2]), attributes_blinded: list(&co, i[3]), proof: vc(i[4]) };
    let optional = |k: usize| if k == 0 { None } else { Some(list(&sc, k - 1)) };
    let hidden = |k: usize| if k == 0 { None } else { Some(list(&en, k - 1)) };
    vec![
        made_of("amacs::Tag", &[4, 4], &|i| amacs::Tag { nonce: pt[i[0]], mac: pt[i[1]] }),
        made_of("amacs::PublicKey", &[8], &|i| amacs::PublicKey { Xn: list(&pt, i[0]) }),
        made_of("Credential", &[2, 8], &|i| credential(i[0], i[1])),
        made_of("CredentialRequest", &[8], &|i| CredentialRequest { attributes_revealed: list(&sc, i[0]) }),
        made_of("CredentialIssuance", &[3, 2, 8, 3], &|i| CredentialIssuance { secret_key_commitment: co[i[0]], credential: credential(i[1], i[2]), proof: ir(i[3]) }),
        made_of("CredentialBlindRequest", &[if thorough { 9 } else { 6 }, if thorough { 9 } else { 6 }, 4, 2], &|i| CredentialBlindRequest { attributes_revealed: optional(i[0]), attributes_blinded: hidden(i[1]), attributes_blinded_proof: if i[2] == 0 { None } else { Some(ab(i[2] - 1)) }, public_key: pk[i[3]] }),
        made_of("CredentialBlindIssuance", &[3, 2, 4, 3, 4, 4], &|i| CredentialBlindIssuance { proof: ib(i[0]), blinding_commitment: pt[i[1]], auxiliary_commitments: list(&pt, i[2]), encrypted_mac: en[i[3]], attributes_revealed: list(&sc, i[4]), encrypted_attributes: list(&en, i[5]) }),
        made_of("CredentialPresentation", &[few, few, if thorough { 8 } else { 6 }, 8, 3], &show),
        made_of("VerifiedCredential", &[2, 2, 4, 4, 3], &|i| VerifiedCredential(show(i))),
        made_of("SignalCredentialPresentation", &[3, 3, 2, 2, 4, 4, 3], &|i| SignalCredentialPresentation { roster_entry_commitment: CommittedPhoneNumber(co[i[0]]), roster_membership_proof: ce(i[1]), presentation: show(&i[2..]) }),
        made_of("elgamal::Encryption", &[4, 4], &|i| Encryption { commitment: pt[i[0]], encryption: pt[i[1]] }),
        made_of("elgamal::Keypair", &[4, 4], &|i| pair(i[0], i[1])),
        made_of("SystemParameters", &[4, 4], &|i| SystemParameters { g: pt[i[0]], h: pt[i[1]] }),
        made_of("CommittedPhoneNumber", &[4], &|i| CommittedPhoneNumber(co[i[0]])),
        made_of("PhoneNumber", &[4], &|i| PhoneNumber(sc[i[0]])),
        made_of("User", &[2, 4, 5, 5], &|i| User { system_parameters: SystemParameters { g: s.g, h: pt[i[0] + 1] }, issuer_parameters: amacs::PublicKey { Xn: list(&pt, i[1]) }, key: if i[2] == 0 { None } else { Some(pair((i[2] - 1) / 2, (i[2] - 1) % 2)) }, credential: if i[3] == 0 { None } else { Some(credential((i[3] - 1) / 2, (i[3] - 1) % 2)) } }),
        made_of("SignalUser", &[3, 2, 2, 5, 3], &|i| SignalUser { phone_number: PhoneNumber(sc[i[0]]), user: User { system_parameters: SystemParameters { g: s.g, h: pt[i[1] + 1] }, issuer_parameters: amacs::PublicKey { Xn: list(&pt, i[2]) }, key: if i[3] == 0 { None } else { Some(pair((i[3] - 1) / 2, (i[3] - 1) % 2)) }, credential: if i[4] == 0 { None } else { Some(credential(i[4] - 1, 1)) } } }),
    ]
}
fn equality(r: &mut Report, thorough: bool) {
    use aeonflux::credential::{CredentialIssuance, CredentialPresentation};
    use aeonflux::pedersen;
    use aeonflux::proofs::*;
    use aeonflux::user::User;
    use signal_credential::credential::SignalCredentialPresentation;
    use signal_credential::phone_number::CommittedPhoneNumber;
    let all = types::types(if thorough { 8 } else { 4 });
    let jobs: Mutex<Vec<Box<dyn Fn() -> (u64, u64, Vec<String>) + Sync + Send>>> = Mutex::new(vec![]);
    let of = |name: &str| { let t = all.iter().find(|t| t.name == name).expect(name); (variants(t, thorough), t.samples.len()) };
    macro_rules! eq { ($($name:expr, $t:ty;)*) => { $( {
        let (v, k) = of($name);
        jobs.lock().unwrap().push(Box::new(move || equal::<$t>($name, &|b| <$t>::from_bytes(b).ok(), &|x| x.to_bytes(), &v, k)));
    } )* } }
    macro_rules! bare { ($($name:expr, $t:ty;)*) => { $( {
        let (v, k) = of($name);
        jobs.lock().unwrap().push(Box::new(move || equal::<$t>($name, &|b| bincode::deserialize(b).ok(), &|x| bincode::serialize(x).unwrap(), &v, k)));
    } )* } }
    eq! {
        "amacs::Tag", amacs::Tag; "amacs::PublicKey", amacs::PublicKey; "credential::Credential", Credential; "credential::CredentialRequest", CredentialRequest;
        "credential::CredentialIssuance", CredentialIssuance; "credential::CredentialPresentation", CredentialPresentation; "credential::VerifiedCredential", VerifiedCredential;
        "elgamal::PublicKey", elgamal::PublicKey; "elgamal::SecretKey", elgamal::SecretKey; "elgamal::Keypair", elgamal::Keypair; "parameters::SystemParameters", SystemParameters;
        "pedersen::Commitment", pedersen::Commitment; "user::User", User; "SignalCredentialPresentation", SignalCredentialPresentation; "VerifiedSignalCredential", VerifiedSignalCredential;
        "SignalUser", SignalUser; "PhoneNumber", PhoneNumber; "CommittedPhoneNumber", CommittedPhoneNumber;
    }
    bare! {
        "issuance_revealed::Proof", issuance_revealed::Proof; "attributes_blinded::Proof", attributes_blinded::Proof; "issuance_blinded::Proof", issuance_blinded::Proof;
        "valid_credential::Proof", valid_credential::Proof; "committed_values_equal::Proof", committed_values_equal::Proof;
    }
    let jobs = jobs.into_inner().unwrap();
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(u64, u64, Vec<String>)>> = Mutex::new(vec![]);
    everywhere(&|| loop { let k = next.fetch_add(1, Ordering::Relaxed); if k >= jobs.len() { break; } let x = jobs[k](); out.lock().unwrap().push(x); });
    let mut objects = 0;
    for (n, d, bad) in assembled(thorough) { r.evaluations += n; objects += d; for b in bad { r.violation(b); } }
    for (n, d, bad) in out.into_inner().unwrap() { r.evaluations += n; objects += d; for b in bad { r.violation(b); } }
    r.distinct = objects;
    // what the protocol made equals what its encoding decodes to, and its copy
    macro_rules! made { ($what:expr, $x:expr, $t:ty) => {{ r.evaluations += 1; let x = $x; match <$t>::from_bytes(&x.to_bytes()) { Ok(y) => if !(*x == y && y == *x) || *x != y { r.violation(format!("{}: decoded from its encoding it does not equal itself", $what)) }, Err(_) => r.violation(format!("{}: does not decode", $what)) } }} }
    macro_rules! copy { ($what:expr, $x:expr) => {{ r.evaluations += 1; let x = $x; let y = x.clone(); if !(*x == y) || x.to_bytes() != y.to_bytes() { r.violation(format!("{}: its clone does not equal it", $what)) } }} }
    for k in 0..(if thorough { 24 } else { 8 }) {
        let h = types::honest(k);
        let v = VerifiedSignalCredential::from_bytes(&h.signal_presentation.to_bytes()).unwrap();
        made!("parameters", &h.sys, SystemParameters); copy!("parameters", &h.sys);
        made!("an issuance", &h.issuance, CredentialIssuance); made!("a credential", &h.issuance.credential, Credential); copy!("a credential", &h.issuance.credential);
        made!("a tag", &h.issuance.credential.mac, amacs::Tag); copy!("a tag", &h.issuance.credential.mac);
        made!("a commitment", &h.issuance.secret_key_commitment, pedersen::Commitment); copy!("a commitment", &h.issuance.secret_key_commitment);
        made!("a presentation", &h.presentation, CredentialPresentation); copy!("a presentation", &h.presentation);
        made!("a Signal presentation", &h.signal_presentation, SignalCredentialPresentation); copy!("a Signal presentation", &h.signal_presentation);
        made!("a verified credential", &v, VerifiedSignalCredential); copy!("a verified credential", &v);
        made!("a public key", &h.issuer.keypair.public, amacs::PublicKey); copy!("a public key", &h.issuer.keypair.public);
        made!("a key pair", &h.elgamal, elgamal::Keypair); copy!("a key pair", &h.elgamal);
        made!("a number", &h.number, PhoneNumber); copy!("a number", &h.number);
        made!("an entry", &h.entry.commitment, CommittedPhoneNumber); copy!("an entry", &h.entry.commitment);
        for u in h.users.iter() { made!("a user", u, User); }
        for u in h.signal_users.iter() { made!("a Signal user", u, SignalUser); }
    }
    r.note(format!("{} pairs of {} objects of 26 types compared with ==, against their encodings or parts", r.evaluations, objects));
    r.rule = "honest objects, and each with one block replaced: every bit of every scalar, points from a menu, two blocks exchanged; objects put together from every combination of parts; every pair with an honest object, and each object with its twelve neighbours; distinct: objects".into();
    r.samples.push("a presentation and itself with bit 200 of the last response flipped".into());
}

fn main() {
    guard::setup();
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    let mut r = Report::default();
    match &a[1][..] {
        "C10" => { guard::watchdog(); malformed(&mut r, false, thorough) }
        "C12" => malformed(&mut r, true, thorough),
        "C11" => round_trips(&mut r, thorough),
        "C13" => phone_numbers(&mut r, thorough),
        "C16" => parameters(&mut r, thorough),
        "C28" => strings(&mut r, thorough),
        "C29" => equality(&mut r, thorough),
        _ => panic!("nothing to do"),
    }
    r.finish(&a[3], "bytes");
}
