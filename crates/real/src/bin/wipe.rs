//! C17: secrets are gone from memory when their owner is.  wipe C17 TIER OUTDIR
//! Histories of operations on objects holding secrets, under an allocator that looks at every block it takes back.
#![feature(thread_local, maybe_uninit)]
#[path = "../env.rs"] mod env;
#[path = "../guard.rs"] mod guard;
#[path = "../../../shared/report.rs"] mod report;
use aeonflux::amacs::{self, Message, Rerandomization};
use aeonflux::elgamal;
use aeonflux::issuer::Issuer;
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::user::User;
use curve25519_dalek::scalar::Scalar;
use env::EnvRng;
use guard::{everywhere, panic_text};
use report::Report;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::RosterEntryCommitment;
use signal_credential::user::SignalUser;
use std::alloc::{GlobalAlloc, Layout, System};
use std::mem;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

const MAX: usize = 4096;
const PENDING: usize = 1 << 20;
#[thread_local] static mut ACTIVE: bool = false;
#[thread_local] static mut WORDS: [u64; MAX] = [0; MAX];
#[thread_local] static mut NWORDS: usize = 0;
#[thread_local] static mut FILTER: [bool; 65536] = [false; 65536];
#[thread_local] static mut WATCH: [(usize, usize); MAX] = [(0, 0); MAX];
#[thread_local] static mut NWATCH: usize = 0;
#[thread_local] static mut SEEN: [u8; PENDING] = [0; PENDING];
#[thread_local] static mut NSEEN: usize = 0;
#[thread_local] static mut BAD: u32 = 0; // 1: a released block holds a secret, 2: an element was not zero on release
#[thread_local] static mut RELEASED: u64 = 0;

unsafe fn holds_secret(p: *const u8, n: usize) -> bool {
    if n < 8 { return false; }
    for i in 0..=(n - 8) {
        let w = ptr::read_unaligned(p.add(i) as *const u64);
        if !FILTER[w as u16 as usize] { continue; }
        for k in 0..NWORDS { if WORDS[k] == w { return true; } }
    }
    false
}
unsafe fn released(p: *const u8, n: usize) {
    if !ACTIVE { return; }
    RELEASED += 1;
    if holds_secret(p, n) { BAD |= 1; }
    // for secrets that will only be known later
    if NSEEN + n <= PENDING { ptr::copy_nonoverlapping(p, SEEN.as_mut_ptr().add(NSEEN), n); NSEEN += n; }
    let mut k = 0;
    while k < NWATCH {
        let (a, l) = WATCH[k];
        if a >= p as usize && a + l <= p as usize + n {
            for i in 0..l { if ptr::read_volatile((a + i) as *const u8) != 0 { BAD |= 2; } }
            NWATCH -= 1;
            WATCH[k] = WATCH[NWATCH];
        } else { k += 1; }
    }
}
struct Looking;
unsafe impl GlobalAlloc for Looking {
    /// What an earlier owner left in a block is not its next owner's.
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { released(p, l.size()); System.dealloc(p, l) }
    /// Always moves, as an allocator may.
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if q.is_null() { return q; }
        ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
#[global_allocator] static LOOKING: Looking = Looking;

fn quiet<R>(f: impl FnOnce() -> R) -> R { unsafe { let a = ACTIVE; ACTIVE = false; let r = f(); ACTIVE = a; r } }
/// Learn the secrets in a region.
fn learn(regions: &[(usize, usize)]) {
    unsafe {
        for (a, l) in regions { for i in 0..l / 8 {
            let w = ptr::read_unaligned((a + 8 * i) as *const u64);
            let distinct = w.to_le_bytes();
            if distinct.iter().filter(|b| **b == 0).count() > 3 { continue; } // too plain to be told from other data
            if FILTER[w as u16 as usize] && (0..NWORDS).any(|k| WORDS[k] == w) { continue; }
            if NWORDS == MAX { panic!("too many secrets in one history"); }
            { WORDS[NWORDS] = w; NWORDS += 1; FILTER[w as u16 as usize] = true; }
        } }
    }
}

/// An object holding secrets.
trait Holder: Sized {
    const NAME: &'static str;
    /// number of sizes
    const SIZES: usize;
    fn make(size: usize, rng: &mut EnvRng) -> Self;
    /// Where its secrets are.
    fn regions(&self) -> Vec<(usize, usize)>;
    fn copy(&self) -> Option<Self> { None }
    fn encoded(&self) -> Option<Vec<u8>> { None }
    fn decode(_b: &[u8]) -> Option<Self> { None }
    fn empty() -> Option<Self> { None }
    fn exercise(&self, _rng: &mut EnvRng) {}
    fn consume(self) { drop(self) }
}
fn at<T>(x: &T, n: usize) -> (usize, usize) { (x as *const T as usize, n) }
fn whole<T>(x: &T) -> Vec<(usize, usize)> { vec![at(x, mem::size_of::<T>())] }
const LONG: usize = 6; // from here on
fn sizes(k: usize) -> usize { [1, 0, 2, 3, 5, 9, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 300][k] }

impl Holder for amacs::SecretKey {
    const NAME: &'static str = "amacs::SecretKey"; const SIZES: usize = 18;
    fn make(k: usize, rng: &mut EnvRng) -> Self { amacs::SecretKey::new(sizes(k), rng) }
    fn regions(&self) -> Vec<(usize, usize)> { let mut v = vec![at(&self.x0, 32)]; for x in &self.xn { v.push(at(x, 32)); } v }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { amacs::SecretKey::from_bytes(b).ok() }
    fn empty() -> Option<Self> { Some(Default::default()) }
    fn exercise(&self, rng: &mut EnvRng) {
        let m = Message((0..self.xn.len()).map(|i| Scalar::from(i as u64 + 3)).collect());
        if let Ok(t) = self.mac(&m, rng) { let _ = self.verify(&t, &m); }
        self.get_public_key(&env::sys(0).h);
    }
}
impl Holder for Rerandomization {
    const NAME: &'static str = "amacs::Rerandomization"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { Rerandomization::new(rng) }
    fn regions(&self) -> Vec<(usize, usize)> { whole(self) }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn empty() -> Option<Self> { Some(Default::default()) }
    fn exercise(&self, _: &mut EnvRng) { let s = env::sys(0); let t = amacs::Tag { nonce: s.g, mac: s.h }; self.apply_to_tag(&t); let _ = self * &t; let _ = &t * self; }
}
impl Holder for elgamal::SecretKey {
    const NAME: &'static str = "elgamal::SecretKey"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { elgamal::SecretKey::generate(rng) }
    fn regions(&self) -> Vec<(usize, usize)> { whole(self) }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { elgamal::SecretKey::from_bytes(b).ok() }
    fn empty() -> Option<Self> { Some(Default::default()) }
    fn exercise(&self, _: &mut EnvRng) { let s = env::sys(0); self.decrypt(&elgamal::Encryption { commitment: s.g, encryption: s.h }); let _ = elgamal::PublicKey::from(self); }
}
impl Holder for elgamal::Keypair {
    const NAME: &'static str = "elgamal::Keypair"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { elgamal::Keypair::generate(rng) }
    fn regions(&self) -> Vec<(usize, usize)> { whole(&self.secret) }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { elgamal::Keypair::from_bytes(b).ok() }
    fn exercise(&self, rng: &mut EnvRng) { let e = Ephemeral::new(rng); self.encrypt(&(&Scalar::from(5u64)).into(), &e); }
}
impl Holder for Ephemeral {
    const NAME: &'static str = "Ephemeral"; const SIZES: usize = 2;
    fn make(k: usize, rng: &mut EnvRng) -> Self { if k == 0 { Ephemeral::new(rng) } else { Scalar::random(rng).into() } }
    fn regions(&self) -> Vec<(usize, usize)> { whole(self) }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn empty() -> Option<Self> { Some(Default::default()) }
    fn exercise(&self, _: &mut EnvRng) { let s = env::sys(0); let _ = self * &s.g; let _ = &s.h * self; let _ = s.g * self; let _ = self * s.h; }
    fn consume(self) { let _ = (-self) * env::sys(0).g; }
}
impl Holder for Nonces {
    const NAME: &'static str = "Nonces"; const SIZES: usize = 18;
    fn make(k: usize, rng: &mut EnvRng) -> Self { Nonces::new(rng, sizes(k)) }
    fn regions(&self) -> Vec<(usize, usize)> { self.iter().map(|e| at(e, mem::size_of::<Ephemeral>())).collect() }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn empty() -> Option<Self> { Some(Default::default()) }
    fn exercise(&self, _: &mut EnvRng) { for e in self.iter() { let _ = e * env::sys(0).g; } }
}
impl Holder for amacs::Keypair {
    const NAME: &'static str = "amacs::Keypair"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { amacs::Keypair::new(&env::sys(0).h, rng) }
    fn regions(&self) -> Vec<(usize, usize)> { self.secret.regions() }
    fn copy(&self) -> Option<Self> { Some(self.clone()) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { amacs::Keypair::from_bytes(b).ok() }
}
impl Holder for Issuer {
    const NAME: &'static str = "Issuer"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { Issuer::create(env::sys(0), rng) }
    fn regions(&self) -> Vec<(usize, usize)> { self.keypair.regions() }
    fn copy(&self) -> Option<Self> { Some(Issuer::new(self.system_parameters, self.keypair.clone())) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { Issuer::from_bytes(b).ok() }
    fn exercise(&self, _: &mut EnvRng) { self.get_issuer_parameters(); }
}
impl Holder for SignalIssuer {
    const NAME: &'static str = "SignalIssuer"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { SignalIssuer::create(env::sys(0), rng) }
    fn regions(&self) -> Vec<(usize, usize)> { self.issuer.keypair.regions() }
    fn copy(&self) -> Option<Self> { Some(SignalIssuer::new(self.issuer.system_parameters, self.issuer.keypair.clone())) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { SignalIssuer::from_bytes(b).ok() }
    fn exercise(&self, _: &mut EnvRng) { self.get_issuer_parameters(); }
}
impl Holder for User {
    const NAME: &'static str = "User"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self {
        let p = amacs::PublicKey { Xn: vec![env::sys(1).h] };
        User::new(env::sys(0), p, Some(elgamal::Keypair::generate(rng)))
    }
    fn regions(&self) -> Vec<(usize, usize)> { self.key.as_ref().map(|k| k.regions()).unwrap_or_default() }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { User::from_bytes(b).ok() }
}
impl Holder for SignalUser {
    const NAME: &'static str = "SignalUser"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self {
        let p = amacs::PublicKey { Xn: vec![env::sys(1).h] };
        SignalUser::new(env::sys(0), p, Some(elgamal::Keypair::generate(rng)), &[1, 2, 3]).unwrap()
    }
    fn regions(&self) -> Vec<(usize, usize)> { self.user.regions() }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { SignalUser::from_bytes(b).ok() }
}
impl Holder for RosterEntryCommitment {
    const NAME: &'static str = "RosterEntryCommitment"; const SIZES: usize = 1;
    fn make(_: usize, rng: &mut EnvRng) -> Self { RosterEntryCommitment::create(&[1, 2, 3], &env::sys(0), rng).unwrap() }
    fn regions(&self) -> Vec<(usize, usize)> { whole(&self.opening) }
    fn encoded(&self) -> Option<Vec<u8>> { Some(self.to_bytes()) }
    fn decode(b: &[u8]) -> Option<Self> { RosterEntryCommitment::from_bytes(b).ok() }
    fn exercise(&self, _: &mut EnvRng) { let _ = self.open(&[1, 2, 3], &env::sys(0)); }
}

struct Stop;
const OPS: [&str; 15] = ["make", "decode", "clone to the other place", "move to the other place", "swap", "drop", "drop the other", "box and drop", "overwrite with a new one",
    "unwind with it", "replace by the default", "put in a growing vector", "use", "consume", "overwrite the other with a clone"];

/// Two places for objects; memory that outlives them.
struct Places<T> { mem: Vec<mem::MaybeUninit<T>>, live: [bool; 2] }
impl<T: Holder> Places<T> {
    fn ptr(&self, i: usize) -> *mut T { unsafe { (self.mem.as_ptr() as *mut T).add(i) } }
    fn get(&self, i: usize) -> &T { unsafe { &*self.ptr(i) } }
    fn put(&mut self, i: usize, x: T) { unsafe { ptr::write(self.ptr(i), x) } self.live[i] = true; quiet(|| learn(&self.get(i).regions())); }
    fn take(&mut self, i: usize) -> T { self.live[i] = false; unsafe { ptr::read(self.ptr(i)) } }
    /// Watch where the secrets of an object at `p` are; returns those inside the object itself.
    fn watch(x: &T) -> Vec<(usize, usize)> {
        quiet(|| {
            let (a, n) = (x as *const T as usize, mem::size_of::<T>());
            let mut inner = vec![];
            for r in x.regions() { if r.0 >= a && r.0 < a + n { inner.push(r) } else { unsafe { WATCH[NWATCH] = r; NWATCH += 1; } } }
            inner
        })
    }
    /// After an object is gone: its own bytes, and elements never given back, must be zero.
    fn gone(inner: &[(usize, usize)]) -> Result<(), String> {
        unsafe {
            for (a, l) in inner { for i in 0..*l { if ptr::read_volatile((a + i) as *const u8) != 0 { return Err("its own memory is not zero afterwards".into()); } } }
            for k in 0..NWATCH { let (a, l) = WATCH[k]; for i in 0..l { if ptr::read_volatile((a + i) as *const u8) != 0 { return Err("an element outside is neither released nor zero".into()); } } }
            NWATCH = 0;
            if BAD & 2 != 0 { return Err("an element was not zero when its memory was released".into()); }
            if BAD & 1 != 0 { return Err("a released block holds a secret".into()); }
            Ok(())
        }
    }
    fn drop_at(&mut self, i: usize) -> Result<(), String> {
        let inner = Self::watch(self.get(i));
        self.live[i] = false;
        unsafe { ptr::drop_in_place(self.ptr(i)); }
        quiet(|| Self::gone(&inner))
    }
    /// Ok(false): not possible here.
    fn op(&mut self, op: usize, size: usize, rng: &mut EnvRng) -> Result<bool, String> {
        let (a, b) = (self.live[0], self.live[1]);
        match op {
            0 => { if a { return Ok(false); } let x = T::make(size, rng); self.put(0, x); }
            1 => {
                if a && b { return Ok(false); }
                let made = quiet(|| T::make(size, rng));
                let mut buf = [0u8; 65536];
                let n = match quiet(|| made.encoded()) { None => { quiet(|| drop(made)); return Ok(false); } Some(v) => { buf[..v.len()].copy_from_slice(&v); let n = v.len(); quiet(|| drop(v)); n } };
                quiet(|| { learn(&made.regions()); drop(made) });
                let y = T::decode(&buf[..n]);
                // what decoding refuses it must have cleaned up as well
                buf[n] = 0; let _ = T::decode(&buf[..n + 1]);
                let last = buf[n - 1]; buf[n - 1] = 0xff; let _ = T::decode(&buf[..n]); buf[n - 1] = last;
                match y { Some(y) => self.put(if a { 1 } else { 0 }, y), None => return Err("does not decode".into()) }
            }
            2 => { if !a || b { return Ok(false); } match self.get(0).copy() { Some(x) => self.put(1, x), None => return Ok(false) } }
            3 => { if !a || b { return Ok(false); } let x = self.take(0); self.put(1, x); }
            4 => { if !a || !b { return Ok(false); } unsafe { ptr::swap(self.ptr(0), self.ptr(1)) } }
            5 => { if !a { return Ok(false); } self.drop_at(0)?; }
            6 => { if !b { return Ok(false); } self.drop_at(1)?; }
            7 => { if !a { return Ok(false); } let x = Box::new(self.take(0)); let mut inner = Self::watch(&x); quiet(|| unsafe { for r in inner.drain(..) { WATCH[NWATCH] = r; NWATCH += 1; } }); drop(x); quiet(|| Self::gone(&[]))?; quiet(|| drop(inner)); }
            8 => { if !a { return Ok(false); } let outer = { let v = Self::watch(self.get(0)); quiet(|| drop(v)); 0 }; let _ = outer; unsafe { *self.ptr(0) = T::make(size, rng); } quiet(|| Self::gone(&[]))?; quiet(|| learn(&self.get(0).regions())); }
            9 => {
                if !a { return Ok(false); }
                let x = self.take(0);
                let v = Self::watch(&x); quiet(|| drop(v));
                let r = catch_unwind(AssertUnwindSafe(move || { let _held = x; std::panic::resume_unwind(Box::new(Stop)); }));
                quiet(|| drop(r));
                quiet(|| Self::gone(&[]))?;
            }
            10 => { if !a { return Ok(false); } match T::empty() { None => return Ok(false), Some(e) => { let old = mem::replace(unsafe { &mut *self.ptr(0) }, e); let v = Self::watch(&old); quiet(|| drop(v)); drop(old); quiet(|| Self::gone(&[]))?; } } }
            11 => {
                if !a { return Ok(false); }
                // moving objects is not wiping them, so the vector is made large enough first
                let mut v: Vec<T> = quiet(|| Vec::with_capacity(3));
                let x = self.take(0); v.push(x);
                if b { let y = self.take(1); v.push(y); }
                for x in &v { let i = Self::watch(x); quiet(|| unsafe { for r in i { WATCH[NWATCH] = r; NWATCH += 1; } }); }
                drop(v);
                quiet(|| Self::gone(&[]))?;
            }
            12 => { if !a { return Ok(false); } self.get(0).exercise(rng); }
            13 => { if !a { return Ok(false); } let x = self.take(0); let v = Self::watch(&x); quiet(|| drop(v)); x.consume(); quiet(|| Self::gone(&[]))?; }
            _ => {
                if !a || !b { return Ok(false); }
                let c = match self.get(0).copy() { Some(c) => c, None => return Ok(false) };
                let v = Self::watch(self.get(1)); quiet(|| drop(v));
                unsafe { *self.ptr(1) = c; }
                quiet(|| Self::gone(&[]))?;
                quiet(|| learn(&self.get(1).regions()));
            }
        }
        unsafe {
            // blocks released before the secrets in them were known
            if holds_secret(SEEN.as_ptr(), NSEEN) { return Err("a block released while it was made holds a secret".into()); }
            NSEEN = 0;
            if BAD & 1 != 0 { return Err("a released block holds a secret".into()); }
            if BAD & 2 != 0 { return Err("an element was not zero when its memory was released".into()); }
        }
        Ok(true)
    }
}
#[derive(Default)]
struct Count { histories: u64, ops: u64, dead: u64, blocks: u64, bad: Vec<String> }
fn history<T: Holder>(h: &[usize], size: usize, c: &mut Count) -> bool {
    unsafe { for k in 0..NWORDS { FILTER[WORDS[k] as u16 as usize] = false; } NWORDS = 0; NWATCH = 0; NSEEN = 0; BAD = 0; RELEASED = 0; }
    env::salt(h.iter().fold(size as u64 + 1, |a, x| a * 16 + *x as u64));
    let mut rng = env::rng(17);
    let mut p: Places<T> = Places { mem: Vec::with_capacity(2), live: [false; 2] };
    unsafe { p.mem.set_len(2); }
    let mut fail = None;
    let mut possible = true;
    unsafe { ACTIVE = true; }
    for (i, op) in h.iter().enumerate() {
        let r = catch_unwind(AssertUnwindSafe(|| p.op(*op, size, &mut rng)));
        quiet(|| match r {
            Ok(Ok(true)) => c.ops += 1,
            Ok(Ok(false)) => possible = false,
            Ok(Err(e)) => fail = Some(format!("step {} ({}): {}", i + 1, OPS[*op], e)),
            Err(e) => fail = Some(format!("step {} ({}) panics: {}", i + 1, OPS[*op], panic_text(e))),
        });
        if fail.is_some() || !possible { break; }
    }
    if fail.is_none() { for i in 0..2 { if p.live[i] { if let Err(e) = p.drop_at(i) { quiet(|| fail = Some(format!("the final drop: {}", e))); break; } } } }
    unsafe { ACTIVE = false; c.blocks += RELEASED; }
    if possible || fail.is_some() { c.histories += 1; } else { c.dead += 1; }
    if let Some(f) = fail { if c.bad.len() < 3 { c.bad.push(format!("{} (size {}), history {:?}: {}", T::NAME, size, h.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), f)); } }
    possible
}
/// Every history of up to `depth` operations from `h` on.
fn explore<T: Holder>(h: &mut Vec<usize>, depth: usize, size: usize, c: &mut Count) {
    for op in 0..OPS.len() {
        h.push(op);
        if history::<T>(h, size, c) && h.len() < depth { explore::<T>(h, depth, size, c); }
        h.pop();
        if c.bad.len() >= 3 { return; }
    }
}
fn jobs<T: Holder>(v: &mut Vec<Box<dyn Fn() -> (String, Count) + Sync + Send>>, depth: usize) {
    for size in 0..T::SIZES { for first in 0..2 { for second in 0..OPS.len() {
        let d = if size >= LONG { depth - 3 } else if size > 0 && T::SIZES > 2 { depth - 1 } else { depth };
        v.push(Box::new(move || {
            let mut c = Count::default();
            let mut h = vec![first];
            if second == 0 { history::<T>(&h, size, &mut c); }
            if c.bad.is_empty() { h.push(second); if history::<T>(&h, size, &mut c) { explore::<T>(&mut h, d, size, &mut c); } }
            (T::NAME.to_string(), c)
        }));
    } } }
}
fn main() {
    guard::setup();
    let a: Vec<String> = std::env::args().collect();
    let depth = if a[2] == "thorough" { 7 } else { 6 };
    let mut v = vec![];
    jobs::<amacs::SecretKey>(&mut v, depth);
    jobs::<Nonces>(&mut v, depth);
    jobs::<Rerandomization>(&mut v, depth);
    jobs::<elgamal::SecretKey>(&mut v, depth);
    jobs::<elgamal::Keypair>(&mut v, depth);
    jobs::<Ephemeral>(&mut v, depth);
    jobs::<amacs::Keypair>(&mut v, depth - 1);
    jobs::<Issuer>(&mut v, depth - 1);
    jobs::<SignalIssuer>(&mut v, depth - 1);
    jobs::<User>(&mut v, depth - 1);
    jobs::<SignalUser>(&mut v, depth - 1);
    jobs::<RosterEntryCommitment>(&mut v, depth - 1);
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    everywhere(&|| loop {
        let k = next.fetch_add(1, Ordering::Relaxed);
        if k >= v.len() { break; }
        let r = v[k]();
        out.lock().unwrap().push(r);
    });
    let mut r = Report::default();
    let mut by: std::collections::BTreeMap<String, Count> = Default::default();
    for (n, c) in out.into_inner().unwrap() {
        let e = by.entry(n).or_default();
        e.histories += c.histories; e.ops += c.ops; e.blocks += c.blocks; e.dead += c.dead;
        for b in c.bad { r.violation(b); }
    }
    for (n, c) in &by {
        r.note(format!("{}: {} histories, {} operations, {} released blocks looked at", n, c.histories, c.ops, c.blocks));
        r.evaluations += c.histories; r.distinct += c.histories; r.transitions += c.ops;
    }
    r.rule = format!("every history of up to {} operations (one less for sizes from 0 and 2 to 9 and for containers, three less for 8 to 200 elements) over {:?} on two places, for every type and size; histories with an impossible operation are not counted", depth, OPS);
    r.samples.push("amacs::SecretKey of 5 elements: make, clone to the other place, box and drop, drop the other".into());
    r.finish(&a[3], "wipe");
}
