//! C18, C19, C27: the C API.  ffi C18|C19|C27 TIER OUTDIR   (VERIF_LIB: the built library; track.so preloaded)
//! C27 makes every call through functions compiled against the published header (VERIF_SHIM; VERIF_SHIM2 if the copies differ).
//! Every case runs in a child process, its inputs in read-only memory that ends where readable memory ends.
#[path = "../api.rs"] mod api;
#[path = "../../../shared/report.rs"] mod report;
use api::*;
use report::Report;
use std::ffi::CString;
use std::fmt::Write as _;

type P = *const u8;
#[repr(C)] #[derive(Clone, Copy)] struct Buf { len: u64, ptr: P }
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn dlopen(p: *const i8, f: i32) -> *mut u8;
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}
unsafe fn sym(h: *mut u8, n: &str) -> *mut u8 {
    let c = CString::new(n).unwrap();
    dlsym(h, c.as_ptr())
}

const OPEN: usize = 11;

/// An argument as it is passed.
#[derive(Clone, Copy, PartialEq)]
enum Arg<'a> { Bytes(&'a [u8]), Null(u64), Zero(&'a [u8]), Wrap(&'a [u8], u64) }

struct Slot(*mut u8);
const SLOT: usize = 16384;
/// Readable memory for lengths that only differ from the right one beyond what a narrower integer holds; NULL if there is none.
fn vast() -> *mut u8 {
    static mut VAST: *mut u8 = 1 as *mut u8;
    unsafe {
        if VAST as usize == 1 {
            let p = mmap(std::ptr::null_mut(), (1 << 32) + 4 * SLOT, 3, 0x4022, -1, 0); // private, anonymous, no reserve
            VAST = if p as isize == -1 { std::ptr::null_mut() } else { p };
        }
        VAST
    }
}
impl Slot {
    fn new() -> Slot {
        unsafe {
            let p = mmap(std::ptr::null_mut(), SLOT + 8192, 0, 0x22, -1, 0);
            assert!(p as isize != -1);
            mprotect(p.add(4096), SLOT, 3);
            Slot(p.add(4096))
        }
    }
    /// A read-only copy that ends where readable memory ends (`start`: that starts there instead).
    fn put(&self, b: &[u8], start: bool) -> P {
        unsafe {
            assert!(b.len() <= SLOT && mprotect(self.0, SLOT, 3) == 0);
            std::ptr::write_bytes(self.0, 0xc7, SLOT);
            let p = if start { self.0 } else { self.0.add(SLOT - b.len()) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            mprotect(self.0, SLOT, 1);
            p
        }
    }
}
static mut SHIM_LENGTH: *mut u8 = 0 as *mut u8;
/// In the order of tools/shim.py.
const CONSTANTS: [(&str, u64); 11] = [("LENGTH_SEED", 32), ("LENGTH_SYSTEM_PARAMETERS", 64), ("LENGTH_ISSUER", 160), ("LENGTH_ISSUER_PARAMETERS", 32), ("LENGTH_ISSUER_KEYPAIR", 96), ("LENGTH_USER", 288),
    ("LENGTH_CREDENTIAL_ISSUANCE", 328), ("LENGTH_CREDENTIAL_PRESENTATION", 448), ("LENGTH_VERIFIED_CREDENTIAL", 448), ("LENGTH_ROSTER_ENTRY_COMMITMENT", 64), ("LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING", 32)];
struct Api {
    f: [*mut u8; 12],
    slots: Vec<Slot>,
    query: extern "C" fn(P, usize) -> i32,
    damage: extern "C" fn(i32) -> u64,
    forget: extern "C" fn(P),
    /// the results of the case at hand
    results: Vec<P>,
}
impl Api {
    /// `shim`: a library whose functions call the published header's.
    fn load(shim: Option<&str>) -> Api {
        unsafe {
            let lib = CString::new(std::env::var("VERIF_LIB").unwrap()).unwrap();
            let h = dlopen(lib.as_ptr(), 0x102); // now, global
            assert!(!h.is_null(), "the library does not load");
            let mut f = [std::ptr::null_mut(); 12];
            for i in 0..12 { f[i] = sym(h, FUNCTIONS[i].0); }
            if let (Some(s), true) = (shim, f.iter().all(|f| !f.is_null())) {
                let s = CString::new(s).unwrap();
                let h = dlopen(s.as_ptr(), 2);
                assert!(!h.is_null(), "the header's callers do not load");
                for i in 0..12 { f[i] = sym(h, &format!("shim_{}", FUNCTIONS[i].0)); }
                SHIM_LENGTH = sym(h, "shim_length");
            }
            let q = sym(std::ptr::null_mut(), "track_query");
            assert!(!q.is_null(), "track.so is not preloaded");
            let on: extern "C" fn(i32) = std::mem::transmute(sym(std::ptr::null_mut(), "track_on"));
            on(1);
            Api { f, slots: (0..5).map(|_| Slot::new()).collect(), query: std::mem::transmute(q), damage: std::mem::transmute(sym(std::ptr::null_mut(), "track_damage")), forget: std::mem::transmute(sym(std::ptr::null_mut(), "track_forget")), results: vec![] }
        }
    }
    fn call(&self, f: usize, args: &[Arg], start: bool) -> Buf {
        let mut w: Vec<(P, u64)> = vec![];
        for (i, a) in args.iter().enumerate() {
            w.push(match a {
                Arg::Bytes(b) => (self.slots[i].put(b, start), b.len() as u64),
                Arg::Null(n) => (std::ptr::null(), *n),
                Arg::Zero(b) => (self.slots[i].put(b, start), 0),
                Arg::Wrap(b, more) => unsafe {
                    let p = vast();
                    if p.is_null() { (p as P, *more) } else {
                        let p = p.add(i * SLOT / 8);
                        std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
                        (p as P, b.len() as u64 + more)
                    }
                },
            });
        }
        type F = *mut u8;
        let g: F = self.f[f];
        macro_rules! go { ($t:ty, $($x:expr),*) => { unsafe { let f: $t = std::mem::transmute::<F, $t>(g); f($($x),*) } } }
        match f {
            0 => go!(extern "C" fn(P) -> Buf, w[0].0),
            1 => go!(extern "C" fn(P, u64, P) -> Buf, w[0].0, w[0].1, w[1].0),
            3 | 10 => go!(extern "C" fn(P, u64) -> Buf, w[0].0, w[0].1),
            2 | 5 | 6 => go!(extern "C" fn(P, u64, P, u64) -> Buf, w[0].0, w[0].1, w[1].0, w[1].1),
            4 | 8 | 9 => go!(extern "C" fn(P, u64, P, u64, P) -> Buf, w[0].0, w[0].1, w[1].0, w[1].1, w[2].0),
            7 => go!(extern "C" fn(P, u64, P, u64, P, u64, P, u64) -> Buf, w[0].0, w[0].1, w[1].0, w[1].1, w[2].0, w[2].1, w[3].0, w[3].1),
            _ => go!(extern "C" fn(P, u64, P, u64, P, u64) -> Buf, w[0].0, w[0].1, w[1].0, w[1].1, w[2].0, w[2].1),
        }
    }
    /// The result as bytes, if it is a success; what is wrong with the buffer itself.
    fn take(&mut self, f: usize, r: Buf, lengths: &[u64; 12]) -> Result<Option<Vec<u8>>, String> {
        if f == OPEN {
            if !r.ptr.is_null() || r.len > 1 { return Err(format!("returned length {} and pointer {:?} instead of 0 or 1 and NULL", r.len, r.ptr)); }
            return Ok(if r.len == 1 { Some(vec![]) } else { None });
        }
        if r.len == 0 {
            if !r.ptr.is_null() { return Err("an error result has a pointer that is not NULL".into()); }
            return Ok(None);
        }
        if r.ptr.is_null() { return Err(format!("length {} with a NULL pointer", r.len)); }
        if r.len != lengths[f] { return Err(format!("{} bytes returned, {} documented", r.len, lengths[f])); }
        match (self.query)(r.ptr, r.len as usize) {
            2 => return Err("the result points to freed memory".into()),
            3 => return Err("the result reaches beyond its block".into()),
            _ => (),
        }
        self.results.push(r.ptr);
        let here = 0u8;
        let d = (&here as *const u8 as isize).wrapping_sub(r.ptr as isize);
        if d.abs() < (1 << 20) { return Err("the result points into the stack".into()); }
        Ok(Some(unsafe { std::slice::from_raw_parts(r.ptr, r.len as usize) }.to_vec()))
    }
}
/// How an argument differs from an honest one.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Var { Honest, Other, Null, NullEmpty, NullHuge, Empty, Cut(usize), Longer(usize, u8), Flip(usize, u8), Fill(u8), Block(usize, u8), Digits(usize, u8), Wrap(u8) }
/// Certainly refused, whatever the library says.
fn refused(v: Var, a: A) -> bool {
    match v {
        Var::Null | Var::NullEmpty | Var::NullHuge => true,
        Var::Empty => a != A::Seed,
        Var::Cut(_) | Var::Longer(..) => a != A::Num && a != A::Seed,
        Var::Digits(n, _) => n > 26,
        Var::Wrap(_) => true,
        _ => false,
    }
}
fn bytes(ws: &[World], a: A, v: Var) -> Vec<u8> {
    let h = ws[0].get(a);
    match v {
        Var::Other => ws[1].get(a).to_vec(),
        Var::Cut(n) => h[..n].to_vec(),
        Var::Longer(n, k) => { let mut x = h.to_vec(); for i in 0..n { x.push(match k { 0 => 0, 1 => h[i % h.len()], _ => 0xff }); } x }
        Var::Flip(i, b) => { let mut x = h.to_vec(); x[i] ^= 1 << b; x }
        Var::Fill(b) => vec![b; h.len()],
        Var::Block(at, k) => {
            let mut x = h.to_vec();
            let mut n = [0u8; 32];
            match k {
                0 => (), 1 => n = [0xff; 32], 2 => n[0] = 1,
                3 => n.copy_from_slice(&[0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10]), // the group order
                4 => n.copy_from_slice(&ws[0].sys[..32]), 5 => n.copy_from_slice(&ws[1].sys[32..64]), _ => n.copy_from_slice(&ws[1].entry[32..64]),
            }
            x[at..at + 32].copy_from_slice(&n);
            x
        }
        Var::Digits(n, k) => (0..n).map(|i| match k { 0 => (i % 10) as u8, 1 => 0, _ => 255 }).collect(),
        _ => h.to_vec(),
    }
}
fn small(a: A) -> Vec<Var> {
    let mut v = vec![Var::Honest, Var::Other, Var::Null];
    if a == A::Seed { return v; }
    v.extend(vec![Var::NullEmpty, Var::NullHuge, Var::Empty, Var::Cut(1), Var::Flip(0, 0), Var::Fill(0), Var::Fill(255), Var::Longer(1, 0), Var::Longer(32, 1)]);
    v.push(Var::Wrap(16));
    // parameters of any number of attributes decode: 2^27 of them take minutes, as they should
    if a != A::Par { v.push(Var::Wrap(32)); }
    if a == A::Num { v.extend(vec![Var::Digits(26, 0), Var::Digits(27, 0), Var::Digits(32, 0), Var::Digits(33, 1)]); }
    v
}
fn large(a: A, n: usize) -> Vec<Var> {
    let mut v = small(a);
    if a == A::Seed { v.extend(vec![Var::Fill(0), Var::Fill(255)]); return v; }
    if a == A::Num { for k in 0..3 { for n in 1..80 { v.push(Var::Digits(n, k)); } } for n in &[255, 256, 1000, 4096, 16384] { v.push(Var::Digits(*n, 0)); } return v; }
    for i in 1..n { v.push(Var::Cut(i)); }
    for k in 0..3 { for i in 1..130 { v.push(Var::Longer(i, k)); } for i in &[160, 192, 256, 288, 320, 352, 448, 512, 1024, 4096, 8192] { v.push(Var::Longer(*i, k)); } }
    for i in 0..n { for b in 0..8 { v.push(Var::Flip(i, b)); } }
    if n >= 32 { for at in 0..=(n - 32) { if at % 8 == 0 { for k in 0..7 { v.push(Var::Block(at, k)); } } } }
    v
}
#[derive(Clone)]
enum Case {
    /// one call
    Call(usize, Vec<Var>),
    /// calls one after the other, all results kept; true: with a bad argument
    Sequence(Vec<(usize, bool)>),
    /// a long history: the function this many times (12: every function in turn), the worlds in turn, all results kept
    Long(usize, usize),
    /// which steps of the protocol go through the C API
    Mixed(u32),
    /// a call with arguments from the two worlds
    Cross(usize, Vec<u8>),
    /// show with the entry of another, then verify; (user, entry, issuer, roster verifier's issuer)
    Roster(u8, u8, u8, u8),
    /// a number and one near it: open, obtain_finish, show for the other's entry
    Numbers(usize, u8, u8),
}
fn describe(c: &Case) -> String {
    match c {
        Case::Call(f, v) => format!("{} with {:?} arguments {:?}", FUNCTIONS[*f].0, FUNCTIONS[*f].1, v),
        Case::Sequence(s) => format!("the calls {:?}", s.iter().map(|(f, bad)| format!("{}{}", FUNCTIONS[*f].0, if *bad { " (bad argument)" } else { "" })).collect::<Vec<_>>()),
        Case::Long(f, n) => format!("{} calls of {}", n, if *f < 12 { FUNCTIONS[*f].0 } else { "every function in turn" }),
        Case::Mixed(m) => format!("an honest run, through the C API: {:?}", STEPS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, f)| FUNCTIONS[*f].0).collect::<Vec<_>>()),
        Case::Cross(f, v) => format!("{} with {:?} of the worlds {:?}", FUNCTIONS[*f].0, FUNCTIONS[*f].1, v),
        Case::Numbers(n, p, r) => { let (a, b) = number_pair(*n, *p, *r); format!("a user with number {:?} and the number {:?}", a, b) }
        Case::Roster(a, b, c, d) => format!("user {} shows for entry {}, issuer {} verifies, issuer {} checks the roster proof", a, b, c, d),
    }
}
struct Run<'a> { api: Api, ws: &'a [World], lengths: [u64; 12], which: &'a str, calls: u64, errors: u64, successes: u64 }
impl<'a> Run<'a> {
    /// One call; compares with the library as far as the property at hand goes.
    fn once(&mut self, f: usize, args: &[Arg], raw: &[&[u8]], must_fail: bool, start: bool) -> Result<(Option<Vec<u8>>, Buf), String> {
        let r = self.api.call(f, args, start);
        self.calls += 1;
        let got = self.api.take(f, r, &self.lengths)?;
        if got.is_some() { self.successes += 1 } else { self.errors += 1 }
        if must_fail && got.is_some() { return Err("succeeded".into()); }
        if !must_fail {
            let l = lib(f, raw);
            if got.is_some() && l.is_none() { return Err("succeeded although the library reports an error".into()); }
            if self.which != "C18" {
                match (&got, &l) {
                    (None, Some(_)) => return Err("failed although the library succeeds".into()),
                    (Some(c), Some(l1)) => if !agree(c, l1, &lib(f, raw).unwrap_or_default()) { return Err("differs from the library's result".into()); },
                    _ => (),
                }
            }
        }
        if (self.api.damage)(0) != 0 { return Err("memory that is not the function's own was written to".into()); }
        scribble(3);
        if let Some(g) = &got { if f != OPEN && unsafe { std::slice::from_raw_parts(r.ptr, r.len as usize) } != &g[..] { return Err("the result changed after the call".into()); } }
        Ok((got, r))
    }
    fn run(&mut self, c: &Case) -> Result<(), String> {
        match c {
            Case::Call(f, vs) => {
                let kinds = FUNCTIONS[*f].1;
                let data: Vec<Vec<u8>> = (0..kinds.len()).map(|i| bytes(self.ws, kinds[i], vs[i])).collect();
                let args: Vec<Arg> = (0..kinds.len()).map(|i| match vs[i] { Var::Null => Arg::Null(data[i].len() as u64), Var::NullEmpty => Arg::Null(0), Var::NullHuge => Arg::Null(!0), Var::Empty => Arg::Zero(&data[i]), Var::Wrap(k) => Arg::Wrap(&data[i], 1 << k), _ => Arg::Bytes(&data[i]) }).collect();
                let raw: Vec<&[u8]> = data.iter().map(|d| &d[..]).collect();
                let bad = (0..kinds.len()).any(|i| refused(vs[i], kinds[i]));
                self.once(*f, &args, &raw, bad, false)?;
                Ok(())
            }
            Case::Cross(f, vs) => {
                let kinds = FUNCTIONS[*f].1;
                let raw: Vec<&[u8]> = (0..kinds.len()).map(|i| self.ws[vs[i] as usize].get(kinds[i])).collect();
                let args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                let (got, _) = self.once(*f, &args, &raw, false, false)?;
                // what must be so by the meaning of the call
                let same = |ix: &[usize]| ix.iter().all(|i| vs[*i] == vs[ix[0]]);
                let expect = match f { 5 | 6 => Some(same(&[0, 1])), 7 => Some(same(&[0, 1, 2, 3])), 11 => Some(same(&[0, 1, 2])), _ => Some(true) };
                if let Some(e) = expect { if e != got.is_some() { return Err(format!("{} although the objects {}", if e { "failed" } else { "succeeded" }, if e { "belong together" } else { "do not belong together" })); } }
                Ok(())
            }
            Case::Sequence(s) => {
                let mut kept: Vec<(usize, Buf, Vec<u8>)> = vec![];
                for (f, bad) in s {
                    let kinds = FUNCTIONS[*f].1;
                    let raw: Vec<&[u8]> = kinds.iter().map(|k| self.ws[0].get(*k)).collect();
                    let mut args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                    if *bad { args[0] = Arg::Null(raw[0].len() as u64); }
                    let r = self.api.call(*f, &args, false);
                    self.calls += 1;
                    let got = self.api.take(*f, r, &self.lengths).map_err(|e| format!("{}: {}", FUNCTIONS[*f].0, e))?;
                    if got.is_some() { self.successes += 1 } else { self.errors += 1 }
                    if *bad == got.is_some() { return Err(format!("{} {}", FUNCTIONS[*f].0, if *bad { "succeeded" } else { "failed" })); }
                    if let (Some(g), false) = (got, *f == OPEN) { kept.push((*f, r, g)); }
                    scribble(3);
                    for (f, r, g) in &kept {
                        if (self.api.query)(r.ptr, r.len as usize) == 2 { return Err(format!("the result of {} was freed by a later call", FUNCTIONS[*f].0)); }
                        if unsafe { std::slice::from_raw_parts(r.ptr, r.len as usize) } != &g[..] { return Err(format!("the result of {} was changed by a later call", FUNCTIONS[*f].0)); }
                    }
                }
                for i in 0..kept.len() { for j in 0..i {
                    let (a, b) = (&kept[i].1, &kept[j].1);
                    if (a.ptr as u64) < b.ptr as u64 + b.len && (b.ptr as u64) < a.ptr as u64 + a.len { return Err("two results share memory".into()); }
                } }
                if (self.api.damage)(0) != 0 { return Err("memory that is not the function's own was written to".into()); }
                Ok(())
            }
            Case::Long(f, n) => {
                let mut kept: Vec<(usize, Buf, Vec<u8>)> = vec![];
                for k in 0..*n {
                    unsafe { alarm(120); }
                    let g = if *f < 12 { *f } else { k % 12 };
                    // once in a while an argument is missing
                    let bad = k % 37 == 36;
                    let w = &self.ws[if *f < 12 { k & 1 } else { k / 12 & 1 }];
                    let raw: Vec<&[u8]> = FUNCTIONS[g].1.iter().map(|a| w.get(*a)).collect();
                    let mut args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                    if bad { args[0] = Arg::Null(raw[0].len() as u64); }
                    let at = |e: String| format!("call {}, {}: {}", k + 1, FUNCTIONS[g].0, e);
                    let (got, r) = self.once(g, &args, &raw, bad, false).map_err(&at)?;
                    if bad == got.is_some() { return Err(at(if bad { "succeeded".into() } else { "failed".into() })); }
                    if let (Some(b), true) = (got, g != OPEN) { kept.push((g, r, b)); }
                    // the newest result against all, and all for what they were
                    for (i, (h, r, b)) in kept.iter().enumerate() {
                        if unsafe { std::slice::from_raw_parts(r.ptr, r.len as usize) } != &b[..] { return Err(at(format!("the result of an earlier call of {} changed", FUNCTIONS[*h].0))); }
                        let a = &kept[kept.len() - 1].1;
                        if i + 1 < kept.len() && (a.ptr as u64) < r.ptr as u64 + r.len && (r.ptr as u64) < a.ptr as u64 + a.len { return Err(at(format!("the result shares memory with an earlier one of {}", FUNCTIONS[*h].0))); }
                    }
                }
                for (h, r, _) in &kept { if (self.api.query)(r.ptr, r.len as usize) == 2 { return Err(format!("a result of {} was freed by a later call", FUNCTIONS[*h].0)); } }
                Ok(())
            }
            Case::Mixed(m) => {
                let seed = self.ws[(m & 1) as usize].seed.clone();
                let m = *m; let num = self.ws[(m >> 1 & 1) as usize].num.clone();
                let mut have: Vec<(A, Vec<u8>)> = vec![(A::Seed, seed), (A::Num, num)];
                for (k, f) in STEPS.iter().enumerate() {
                    let kinds = FUNCTIONS[*f].1;
                    let data: Vec<Vec<u8>> = kinds.iter().map(|a| have.iter().find(|h| h.0 == *a).unwrap().1.clone()).collect();
                    let raw: Vec<&[u8]> = data.iter().map(|d| &d[..]).collect();
                    let out = if m >> k & 1 == 1 {
                        let args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                        self.once(*f, &args, &raw, false, k % 2 == 1).map_err(|e| format!("{} {}", FUNCTIONS[*f].0, e))?.0
                    } else { lib(*f, &raw) };
                    let out = match out { Some(o) => o, None => return Err(format!("{} failed", FUNCTIONS[*f].0)) };
                    let kind = match f { 0 => A::Sys, 1 => A::Key, 2 => A::Iss, 3 => A::Par, 4 => A::Cred, 7 => A::User, 9 => A::Entry, 8 => A::Pres, 5 => A::Ver,
                        6 | 10 => { if &out[..] != &have.iter().find(|h| h.0 == A::Entry).unwrap().1[..32] { return Err(format!("{} does not give the entry's commitment", FUNCTIONS[*f].0)); } continue }
                        _ => continue };
                    have.push((kind, out));
                }
                Ok(())
            }
            Case::Numbers(n, p, r) => {
                let ((a, b), w) = (number_pair(*n, *p, *r), &self.ws[0]);
                if b.is_empty() { return Ok(()); }
                let (cred, user, entry) = someone(w, &a);
                let same = a == b;
                let mut go = |f: usize, raw: &[&[u8]]| -> Result<Option<Vec<u8>>, String> {
                    let args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                    self.once(f, &args, raw, false, false).map(|r| r.0).map_err(|e| format!("{} {}", FUNCTIONS[f].0, e))
                };
                for (f, raw) in vec![(11, vec![&entry[..], &b, &w.sys]), (7, vec![&b[..], &w.sys, &w.par, &cred])] {
                    if go(f, &raw)?.is_some() != same { return Err(format!("{} {}", FUNCTIONS[f].0, if same { "failed" } else { "succeeded" })); }
                }
                if let Some(other) = go(9, &[&b, &w.sys, &w.seed])? {
                    if b.len() > 26 { return Err("an entry was made for a number that is too long".into()); }
                    let pres = match go(8, &[&user, &other, &w.seed])? { Some(p) => p, None => return Err("user_show failed".into()) };
                    if go(5, &[&w.iss, &pres])?.is_none() { return Err("issuer_verify failed".into()); }
                    if go(6, &[&w.iss, &pres])?.is_some() != same { return Err(format!("issuer_verify_roster_membership {}", if same { "failed" } else { "succeeded" })); }
                } else if b.len() <= 26 { return Err("no entry can be made".into()); }
                Ok(())
            }
            Case::Roster(u, e, i, j) => {
                let w = |k: &u8| &self.ws[*k as usize];
                let raw: Vec<&[u8]> = vec![&w(u).user, &w(e).entry, &w(u).seed];
                let (w_i, w_j) = (w(i).iss.clone(), w(j).iss.clone());
                let commitment = w(e).entry[..32].to_vec();
                let args: Vec<Arg> = raw.iter().map(|b| Arg::Bytes(b)).collect();
                let pres = match self.once(8, &args, &raw, false, false)?.0 { Some(p) => p, None => return Ok(()) };
                let v = self.once(5, &[Arg::Bytes(&w_i), Arg::Bytes(&pres)], &[&w_i, &pres], false, false)?.0;
                if v.is_some() != (u == i) { return Err(format!("issuer_verify {}", if u == i { "failed" } else { "succeeded" })); }
                let r = self.once(6, &[Arg::Bytes(&w_j), Arg::Bytes(&pres)], &[&w_j, &pres], false, false)?.0;
                let good = u == e && u == j;
                if r.is_some() != good { return Err(format!("issuer_verify_roster_membership {}", if good { "failed" } else { "succeeded" })); }
                if let Some(r) = r { if r != commitment { return Err("another commitment came back".into()); } }
                Ok(())
            }
        }
    }
}
#[inline(never)] fn scribble(n: u32) -> u8 { let mut a = [0x5au8; 16384]; unsafe { std::ptr::write_volatile(&mut a[77], n as u8); } if n > 0 { a[5] ^ scribble(n - 1) } else { a[99] } }

fn lengths() -> Result<[u64; 12], String> {
    let text = std::fs::read_to_string("/repo/ffi/src/include/credential.h").map_err(|e| e.to_string())?;
    let mut r = [0; 12];
    for (i, f) in FUNCTIONS.iter().enumerate() { if let Some(n) = f.2 {
        let at = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).scan((), |_, w| Some(w)).collect::<Vec<_>>();
        let k = at.iter().position(|w| *w == n).ok_or(format!("{} is not in credential.h", n))?;
        r[i] = at[k + 1..].iter().filter(|w| !w.is_empty()).next().and_then(|w| w.parse().ok()).ok_or(format!("{} has no value in credential.h", n))?;
    } }
    Ok(r)
}
fn combos(menus: &[Vec<Var>]) -> Vec<Vec<Var>> {
    let mut out = vec![vec![]];
    for m in menus { out = out.into_iter().flat_map(|p: Vec<Var>| m.iter().map(move |v| { let mut q = p.clone(); q.push(*v); q }).collect::<Vec<_>>()).collect(); }
    out
}
fn cases(which: &str, thorough: bool, ws: &[World]) -> Vec<Case> {
    let mut c = vec![];
    for f in 0..12 {
        let kinds = FUNCTIONS[f].1;
        for i in 0..kinds.len() {
            let menu = if which == "C27" && !thorough { small(kinds[i]) } else { large(kinds[i], ws[0].get(kinds[i]).len()) };
            for v in menu { let mut a = vec![Var::Honest; kinds.len()]; a[i] = v; c.push(Case::Call(f, a)); }
            if which == "C27" && !thorough { continue; }
            for j in 0..i { for v in small(kinds[i]) { for w in small(kinds[j]) { let mut a = vec![Var::Honest; kinds.len()]; a[i] = v; a[j] = w; c.push(Case::Call(f, a)); } } }
        }
        if thorough { for a in combos(&kinds.iter().map(|k| small(*k)).collect::<Vec<_>>()) { c.push(Case::Call(f, a)); } }
        for m in 0..1u32 << kinds.len() { c.push(Case::Cross(f, (0..kinds.len()).map(|i| (m >> i & 1) as u8).collect())); }
    }
    if which == "C18" {
        let letters: Vec<(usize, bool)> = (0..12).flat_map(|f| vec![(f, false), (f, true)]).collect();
        for a in &letters { for b in &letters { for d in &letters { c.push(Case::Sequence(vec![*a, *b, *d])); } } }
        if thorough { for a in letters.iter().filter(|l| !l.1) { for b in &letters { for d in &letters { for e in letters.iter().filter(|l| !l.1) { c.push(Case::Sequence(vec![*a, *b, *d, *e])); } } } } }
    } else {
        for m in 0..1 << 12 { c.push(Case::Mixed(m)); }
        for n in 1..=26 { for p in 0..PATTERNS { for r in 0..RELATIONS { c.push(Case::Numbers(n, p, r)); } } }
        for m in 0..16u8 { c.push(Case::Roster(m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1)); }
    }
    if which != "C27" { for f in (0..13).rev() { c.push(Case::Long(f, match (f, thorough) { (12, false) => 900, (12, true) => 4000, (_, false) => 300, (_, true) => 1000 })); } }
    c
}
const TEXT: usize = 1 << 16;
struct Shared(*mut u64);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (which, thorough) = (a[1].as_str(), a[2] == "thorough");
    unsafe { let n = open(b"/dev/null\0".as_ptr() as *const i8, 1); dup2(n, 1); }
    let mut r = Report::default();
    let shim = if which == "C27" { Some(std::env::var("VERIF_SHIM").unwrap()) } else { None };
    let lengths = match lengths() { Ok(l) => l, Err(e) => { r.violation(e); r.finish(&a[3], "ffi"); return; } };
    let ws = vec![world(0), world(1)];
    let cs = cases(which, thorough, &ws);
    let workers = explorer::threads();
    let shm: Vec<Shared> = (0..workers).map(|_| unsafe { Shared(mmap(std::ptr::null_mut(), 4096 + TEXT, 3, 0x21, -1, 0) as *mut u64) }).collect();
    // [next case, text length, calls, errors, successes, done]
    let api = Api::load(shim.as_ref().map(|s| &s[..]));
    let mut lengths = lengths;
    if which == "C27" && r.violations.is_empty() && api.f.iter().all(|f| !f.is_null()) {
        let length: extern "C" fn(i32) -> u64 = unsafe { std::mem::transmute(SHIM_LENGTH) };
        for (i, f) in FUNCTIONS.iter().enumerate() { if let Some(n) = f.2 { lengths[i] = length(CONSTANTS.iter().position(|c| c.0 == n).unwrap() as i32); } }
        // what an argument of each kind takes
        let takes = [("LENGTH_SEED", A::Seed), ("LENGTH_SYSTEM_PARAMETERS", A::Sys), ("LENGTH_ISSUER", A::Iss), ("LENGTH_ISSUER_PARAMETERS", A::Par), ("LENGTH_ISSUER_KEYPAIR", A::Key), ("LENGTH_USER", A::User),
            ("LENGTH_CREDENTIAL_ISSUANCE", A::Cred), ("LENGTH_CREDENTIAL_PRESENTATION", A::Pres), ("LENGTH_VERIFIED_CREDENTIAL", A::Ver), ("LENGTH_ROSTER_ENTRY_COMMITMENT", A::Entry)];
        for (n, a) in &takes {
            let l = length(CONSTANTS.iter().position(|c| c.0 == *n).unwrap() as i32);
            if l != ws[0].get(*a).len() as u64 { r.violation(format!("{} is {} in the header, {} bytes are what the library takes and makes", n, l, ws[0].get(*a).len())); }
        }
    }
    for (i, f) in api.f.iter().enumerate() { if f.is_null() { r.violation(format!("{} is not exported", FUNCTIONS[i].0)); } }
    if !r.violations.is_empty() { r.finish(&a[3], "ffi"); return; }
    let mut run = Run { api, ws: &ws, lengths, which, calls: 0, errors: 0, successes: 0 };
    std::panic::set_hook(Box::new(|_| ()));
    let mut pids = vec![0; workers];
    let mut deaths = 0;
    let child = |w: usize, run: &mut Run| unsafe {
        let s = shm[w].0;
        let text = (s as *mut u8).add(4096);
        let mut bad = 0;
        loop {
            let k = *s as usize * workers + w;
            if k >= cs.len() || bad >= 5 { break; }
            alarm(120);
            // nobody uses the results of earlier cases any more
            for p in run.api.results.split_off(0) { (run.api.forget)(p); }
            if let Err(e) = run.run(&cs[k]) {
                bad += 1;
                let t = format!("{}: {}\n", describe(&cs[k]), e);
                let n = *s.add(1) as usize;
                if n + t.len() < TEXT { std::ptr::copy_nonoverlapping(t.as_ptr(), text.add(n), t.len()); *s.add(1) = (n + t.len()) as u64; }
            }
            *s += 1;
            *s.add(2) = run.calls; *s.add(3) = run.errors; *s.add(4) = run.successes;
        }
        if (run.api.damage)(1) != 0 && bad == 0 {
            let t = format!("freed memory was written to in the cases of worker {}\n", w);
            let n = *s.add(1) as usize;
            std::ptr::copy_nonoverlapping(t.as_ptr(), text.add(n), t.len()); *s.add(1) = (n + t.len()) as u64;
        }
        *s.add(5) = 1;
        _exit(0)
    };
    for w in 0..workers { unsafe { let p = fork(); if p == 0 { child(w, &mut run) } assert!(p > 0); pids[w] = p; } }
    let mut totals = [0u64; 3];
    let mut running = workers;
    while running > 0 {
        unsafe {
            let mut st = 0;
            let p = waitpid(-1, &mut st, 0);
            let w = match pids.iter().position(|q| *q == p) { Some(w) => w, None => continue };
            let s = shm[w].0;
            for i in 0..3 { totals[i] += *s.add(2 + i); *s.add(2 + i) = 0; }
            if *s.add(5) == 1 { running -= 1; continue; }
            let k = *s as usize * workers + w;
            r.violation(format!("{}: the call ended the process ({})", describe(&cs[k.min(cs.len() - 1)]), if st & 127 == 14 { "it does not return".into() } else if st & 127 != 0 { format!("signal {}", st & 127) } else { format!("status {}", st >> 8) }));
            deaths += 1;
            *s += 1;
            if deaths > 20 { running -= 1; continue; }
            let p = fork();
            if p == 0 { child(w, &mut run) }
            pids[w] = p;
        }
    }
    for s in &shm { unsafe {
        let n = *s.0.add(1) as usize;
        let t = std::slice::from_raw_parts((s.0 as *const u8).add(4096), n);
        for l in String::from_utf8_lossy(t).lines() { r.violation(l.to_string()); }
    } }
    r.evaluations = totals[0]; r.distinct = cs.len() as u64; r.transitions = totals[0];
    let mut by = String::new();
    for f in 0..12 { let _ = write!(by, "{} {}; ", FUNCTIONS[f].0, cs.iter().filter(|c| match c { Case::Call(g, _) | Case::Cross(g, _) => *g == f, _ => false }).count()); }
    r.note(format!("{} cases, {} calls of the C API: {} successes, {} errors", cs.len(), totals[0], totals[2], totals[1]));
    r.note(format!("single calls by function: {}", by));
    r.rule = if which == "C18" { "every function with every argument replaced by every entry of its menu (NULL, empty, every shorter length, longer by up to 8192 bytes, by 2^16 and by 2^32 bytes, every single bit flipped, blocks replaced by special values), pairs of replaced arguments, every sequence of 3 calls, good or failing, with all results kept, and histories of 300 calls of each function and 900 of all in turn with all results kept".into() }
        else if which == "C27" { "through callers compiled against the published header: every assignment of the 12 protocol steps to the C API or the library, every mix of two worlds' objects for every function, numbers of every length with numbers near each, and the fault menus, all compared with the library; every length constant".into() }
        else { "every assignment of the 12 protocol steps to the C API or the library, every mix of two worlds' objects for every function, numbers of every length and of three digit patterns with 14 numbers near each, every single call of the fault menus compared with the library, and histories of 300 calls of each function and 900 of all in turn".into() };
    for k in &[0, cs.len() / 2, cs.len() - 1] { r.samples.push(describe(&cs[*k])); }
    r.finish(&a[3], "ffi");
    let _ = unsafe { write(2, b"\n".as_ptr(), 1) };
}
