//! Stateless model checker: every source of nondeterminism of the code under test (random draws,
//! random-oracle answers, environment answers, harness parameters) is a *choice point* on a tape; `explore`
//! runs the scenario on every tape, or on every tape with at most `bound` departures from a baseline.

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

/// Order and dimension of the toy group (see stub-dalek).
static ELL: AtomicUsize = AtomicUsize::new(5);
static DIM: AtomicUsize = AtomicUsize::new(1);
pub fn ell() -> u32 { ELL.load(Ordering::Relaxed) as u32 }
pub fn dim() -> usize { DIM.load(Ordering::Relaxed) }
pub fn set_group(ell: u32, dim: usize) {
    ELL.store(ell as usize, Ordering::SeqCst);
    DIM.store(dim, Ordering::SeqCst);
}

const DIVERGED: &str = "the same answers do not give the same execution: something is kept from one run to the next";
const TOO_DEEP: &str = "more choice points than the exploration's depth bound";

/// Cuts code that keeps drawing until it likes the answer when the answers are fixed.
const MAX_DRAWS: u64 = 2_000_000;

#[derive(Clone, Debug)]
pub struct Point { pub n: u32, pub val: u32, pub dev: bool, pub param: bool }

/// How fresh random-oracle queries are answered.
#[derive(Clone, Debug)]
pub enum Oracle { Choose, Const(u32) }

pub struct Query { pub log: Vec<u8>, pub val: u32, pub fresh: bool }

struct Ctx {
    prefix: Vec<u32>,           // values to take at the first choice points
    points: Vec<Point>,
    baseline: u64,              // 0: default answer 0; otherwise a fixed pseudo-random non-zero default
    bounded: bool,              // deviations are counted for draws
    free_params: bool,          // harness parameters are not counted as deviations
    oracle: Oracle,
    memo: HashMap<Vec<u8>, u32>,
    queries: Vec<Query>,
    streams: HashMap<Vec<u8>, Vec<u32>>,
    entropy: u64,
    entropy_fixed: bool,
    reseeding: bool,
    draws: u64,
    trace: Vec<(String, u32)>,  // harness parameters, for replay against the real build
    replay: Option<Vec<u32>>,   // replaying such a trace
    outcome: Vec<String>,
    digest: u64,
    diverged: bool,
    fixed_draws: Option<Vec<u32>>,
    fixed_pos: usize,
    unique: Option<u32>,        // answer draws with 1, 2, 3, ... without branching
    keep_queries: bool,
    keep_keys: bool,
    max_depth: usize,
    steps: u64,
    inner: Vec<u64>,
    keys: Vec<Vec<u8>>,
}

impl Ctx {
    fn new() -> Ctx {
        Ctx { prefix: vec![], points: vec![], baseline: 0, bounded: false, free_params: true, oracle: Oracle::Choose,
              memo: HashMap::new(), queries: vec![], streams: HashMap::new(), keep_queries: false, keep_keys: false, unique: None, max_depth: 1000, steps: 0, inner: vec![], entropy: 0, entropy_fixed: false, reseeding: false,
              draws: 0, trace: vec![], replay: None, outcome: vec![], digest: 0xcbf29ce484222325, diverged: false,
              fixed_draws: None, fixed_pos: 0, keys: vec![] }
    }
    fn reset(&mut self) {
        self.points.clear(); self.memo.clear(); self.queries.clear(); self.streams.clear(); self.entropy = 0;
        self.entropy_fixed = false; self.reseeding = false; self.draws = 0; self.trace.clear();
        self.outcome.clear(); self.oracle = Oracle::Choose; self.digest = 0xcbf29ce484222325; self.diverged = false;
        self.fixed_draws = None; self.fixed_pos = 0; self.keys.clear(); self.unique = None;
        self.keep_queries = false; self.keep_keys = false; self.steps = 0; self.inner.clear();
    }
    fn choice(&mut self, n: u32, param: bool) -> u32 {
        assert!(n > 0);
        let i = self.points.len();
        if i >= self.max_depth { panic!(TOO_DEEP); }
        let default = if self.baseline == 0 || n == 1 { 0 } else if param { 0 } else {
            // splitmix64 of (baseline, i), never 0
            let mut z = self.baseline.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((i as u64).wrapping_mul(0xBF58476D1CE4E5B9));
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            1 + (z % (n as u64 - 1)) as u32
        };
        let alt = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if alt >= n { self.diverged = true; }
        let val = (default + alt) % n;
        let dev = alt != 0 && self.bounded && !(param && self.free_params);
        self.points.push(Point { n, val: alt, dev, param });
        val
    }
}

thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::new()); }
fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T { CTX.with(|c| f(&mut c.borrow_mut())) }

/// A choice the harness makes (a parameter of the scenario).  Recorded for replay on the real build.
pub fn param(label: &str, n: u32) -> u32 {
    with(|c| {
        let v = if let Some(ref r) = c.replay {
            let i = c.trace.len();
            if i >= r.len() { panic!("replay: more parameters than recorded"); }
            r[i]
        } else { c.choice(n, true) };
        assert!(v < n, "replay diverged at {}", label);
        c.trace.push((label.to_string(), v));
        v
    })
}
/// A choice of the environment (random draw, oracle answer).
pub fn draw(n: u32) -> u32 {
    with(|c| {
        c.draws += 1;
        if c.draws > MAX_DRAWS { panic!(TOO_DEEP); }
        if let Some(u) = c.unique { c.unique = Some(u + 1); return u % n; }
        if let Some(ref f) = c.fixed_draws {
            let v = f[c.fixed_pos % f.len()] % n;
            c.fixed_pos += 1;
            return v;
        }
        c.choice(n, false)
    })
}
/// Answer the following draws from this list (cyclically) without branching; None: branch again.
pub fn fix_draws(v: Option<Vec<u32>>) { with(|c| { c.fixed_draws = v; c.fixed_pos = 0; }) }

/// Answer the following draws with start, start + 1, ... so that every fresh draw is different; None: branch again.
pub fn unique_draws(start: Option<u32>) { with(|c| c.unique = start) }

/// Record an observable result.  Traces are compared on these against the real build.
pub fn outcome(s: &str) { observe(s.as_bytes()); with(|c| c.outcome.push(s.to_string())) }
fn found() -> &'static Mutex<HashMap<String, String>> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    static mut FOUND: Option<Mutex<HashMap<String, String>>> = None;
    ONCE.call_once(|| unsafe { FOUND = Some(Mutex::new(HashMap::new())); });
    unsafe { FOUND.as_ref().unwrap() }
}
/// Something that breaks the property but may be a listed known finding: recorded, and the exploration goes on.
pub fn finding(key: &str, detail: impl FnOnce() -> String) {
    let mut m = found().lock().unwrap();
    if !m.contains_key(key) { m.insert(key.to_string(), detail()); }
}
pub fn findings() -> Vec<(String, String)> {
    let mut v: Vec<_> = found().lock().unwrap().iter().map(|(k, d)| (k.clone(), d.clone())).collect();
    v.sort();
    v
}
/// Fold an observation into the digest of the execution's final state.
pub fn observe(b: &[u8]) {
    with(|c| for x in b { c.digest = (c.digest ^ (*x as u64)).wrapping_mul(0x100000001b3); })
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b { h = (h ^ (*x as u64)).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}
/// A scenario that itself enumerates cases counts them here (transitions) and reports the distinct states it saw.
pub fn step(n: u64) { with(|c| c.steps += n) }
pub fn state(b: &[u8]) { let h = fnv(b); with(|c| c.inner.push(h)) }
/// The probability of the draws made so far, as a multiple of base^-k.
pub fn weight(base: u32, k: u32) -> u128 {
    with(|c| {
        let mut w: u128 = 1;
        for _ in 0..k { w *= base as u128; }
        for p in c.points.iter().filter(|p| !p.param) { assert!(w % p.n as u128 == 0, "weight bound too small"); w /= p.n as u128; }
        w
    })
}
pub fn outcomes() -> Vec<String> { with(|c| c.outcome.clone()) }

pub fn set_oracle(o: Oracle) { with(|c| c.oracle = o) }
pub fn oracle_memo() -> HashMap<Vec<u8>, u32> { with(|c| c.memo.clone()) }
pub fn restore_oracle(m: &HashMap<Vec<u8>, u32>) { with(|c| c.memo = m.clone()) }
pub fn forget_oracle() { with(|c| { c.memo.clear(); }) }
/// Queries are recorded from the first call on.
pub fn take_queries() -> Vec<Query> { with(|c| { c.keep_queries = true; std::mem::replace(&mut c.queries, vec![]) }) }
pub fn take_keys() -> Vec<Vec<u8>> { with(|c| { c.keep_keys = true; std::mem::replace(&mut c.keys, vec![]) }) }
pub fn draws_made() -> u64 { with(|c| c.draws) }
/// Does system entropy repeat (always the same bytes) or not?
pub fn set_entropy_fixed(b: bool) { with(|c| c.entropy_fixed = b) }
// ---- used by the stubs ----

fn put(dest: &mut [u8], v: u64) {
    for b in dest.iter_mut() { *b = 0; }
    let mut v = v;
    for b in dest.iter_mut().take(8) { *b = v as u8; v >>= 8; }
}
/// A value below ell as random bytes: half of it in the first 16 bytes and half in the next, so that neither part is
/// uniform alone; and what is too short for a scalar of the real curve is not uniform here either.
fn put_random(dest: &mut [u8], v: u64) {
    let l = ell() as u64;
    if dest.len() < 31 { return put(dest, v % if l > 2 { l - 1 } else { 1 }); }
    if l % 2 == 0 || dest.len() < 32 { return put(dest, v); }
    let mut inverse = 1;
    for _ in 0..128 { inverse = if inverse % 2 == 0 { inverse / 2 } else { (inverse + l) / 2 }; }
    put(dest, (v + 1) / 2);
    put(&mut dest[16..24], v / 2 * inverse % l);
}
pub fn reseed_begin() { with(|c| c.reseeding = true) }
pub fn reseed_end() { with(|c| c.reseeding = false) }
/// Bytes from a random source: one draw in Z/ell, or unique (or constant) bytes while seeding a generator.
pub fn fill(dest: &mut [u8]) {
    let reseeding = with(|c| c.reseeding);
    if reseeding {
        let e = with(|c| { if !c.entropy_fixed { c.entropy += 1; } c.entropy });
        put(dest, 0x5eed_0000 + e);
    } else {
        let v = draw(ell());
        put_random(dest, v as u64);
    }
}
/// Bytes from the system's own generator (thread_rng).
pub fn system_fill(dest: &mut [u8]) {
    if with(|c| c.entropy_fixed && !c.reseeding) { return put(dest, 1); }
    fill(dest)
}
/// Random oracle over transcripts.
pub fn oracle(log: &[u8], dest: &mut [u8]) {
    let o = with(|c| c.oracle.clone());
    let (v, fresh) = match o {
        Oracle::Const(x) => (x % ell(), false),
        Oracle::Choose => match with(|c| c.memo.get(log).cloned()) {
            Some(v) => (v, false),
            None => { let v = draw(ell()); with(|c| { c.memo.insert(log.to_vec(), v); }); (v, true) }
        },
    };
    with(|c| if c.keep_queries { c.queries.push(Query { log: log.to_vec(), val: v, fresh }) });
    put(dest, v as u64);
}
/// A keyed generator's stream: equal keys give equal streams.
pub fn stream_key(key: &[u8]) { with(|c| if c.keep_keys { c.keys.push(key.to_vec()) }) }
pub fn stream(key: &[u8], pos: usize, dest: &mut [u8]) {
    if with(|c| c.reseeding) { return fill(dest); }
    let known = with(|c| c.streams.get(key).and_then(|s| s.get(pos).cloned()));
    let v = match known {
        Some(v) => v,
        None => {
            let v = draw(ell());
            with(|c| {
                if let Some(s) = c.streams.get_mut(key) { s.push(v); return; }
                c.streams.insert(key.to_vec(), vec![v]);
            });
            v
        }
    };
    put_random(dest, v as u64);
}

// ---- exploration ----

#[derive(Clone)]
pub struct Opts {
    pub name: String,
    pub baseline: u64,
    /// None: every tape.  Some(k): every tape with at most k random draws off the baseline.
    pub bound: Option<usize>,
    /// Harness parameters do not count as deviations (they are always enumerated in full).
    pub free_params: bool,
    pub traces: usize,      // keep up to this many distinct traces for replay on the real build
    pub max_depth: usize,   // executions with more choice points are cut and counted
    pub max_execs: u64,     // safety cap; hitting it is reported as an error
}
impl Opts {
    pub fn new(name: &str) -> Opts {
        Opts { name: name.to_string(), baseline: 0, bound: None, free_params: true, traces: 0, max_depth: 1000, max_execs: 2_000_000_000 }
    }
    pub fn baseline(mut self, b: u64) -> Opts { self.baseline = b; self }
    pub fn bound(mut self, b: usize) -> Opts { self.bound = Some(b); self }
    pub fn traces(mut self, n: usize) -> Opts { self.traces = n; self }
}

#[derive(Clone, Debug)]
pub struct Violation { pub scenario: String, pub ell: u32, pub dim: usize, pub baseline: u64, pub bound: Option<usize>, pub tape: Vec<u32>, pub msg: String }
pub struct Trace { pub params: Vec<(String, u32)>, pub outcome: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub max_depth: usize,
    pub truncated: u64,     // choice points whose alternatives were beyond the bound
    pub violations: Vec<Violation>,
    pub traces: Vec<Trace>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub diverged: Vec<Violation>,
    pub too_deep: u64,      // executions cut at the depth bound
}

struct Shared { stack: Mutex<(Vec<Vec<u32>>, usize, bool)>, cv: Condvar, stop: AtomicBool, execs: AtomicUsize, diverged: AtomicUsize }

fn run_one(opts: &Opts, prefix: &[u32], f: &(dyn Fn() + Sync)) -> Result<(), String> {
    with(|c| {
        c.reset();
        c.prefix.clear();
        c.prefix.extend_from_slice(prefix);
        c.baseline = opts.baseline;
        c.bounded = opts.bound.is_some();
        c.free_params = opts.free_params;
        c.replay = None;
        c.max_depth = opts.max_depth;
    });
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f()));
    match r {
        Ok(()) => Ok(()),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                      else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                      else { "panic".to_string() }),
    }
}

pub fn threads() -> usize {
    std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// Run `f` on every tape within the bounds of `opts`.  A panic in `f` is a violation.
pub fn explore(opts: &Opts, f: &(dyn Fn() + Sync)) -> Stats {
    let n = threads();
    let shared = Arc::new(Shared { stack: Mutex::new((vec![vec![]], 0, false)), cv: Condvar::new(),
                                   stop: AtomicBool::new(false), execs: AtomicUsize::new(0), diverged: AtomicUsize::new(0) });
    let total = Mutex::new(Stats::default());
    let tf: &(dyn Fn() + Sync) = f;
    let (e, d) = (ell(), dim());
    // Scoped threads by hand: all are joined below.
    let ptr = unsafe { std::mem::transmute::<&(dyn Fn() + Sync), &'static (dyn Fn() + Sync)>(tf) };
    let total_ptr = &total as *const Mutex<Stats> as usize;
    let mut hs = vec![];
    for _ in 0..n {
        let sh = shared.clone();
        let o = opts.clone();
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let total = unsafe { &*(total_ptr as *const Mutex<Stats>) };
            worker(&sh, &o, ptr, n, total, e, d)
        }).unwrap());
    }
    for h in hs { h.join().unwrap(); }
    let mut t = std::mem::replace(&mut *total.lock().unwrap(), Stats::default());
    t.violations.sort_by(|a, b| (a.tape.len(), &a.tape).cmp(&(b.tape.len(), &b.tape)));
    let d = std::mem::replace(&mut t.diverged, vec![]);
    t.violations.extend(d.into_iter().take(1));
    t
}

fn worker(sh: &Shared, o: &Opts, f: &'static (dyn Fn() + Sync), n: usize, total: &Mutex<Stats>, e: u32, d: usize) {
    let mut local: Vec<Vec<u32>> = vec![];
    let mut st = Stats::default();
    let mut seen_traces: HashSet<Vec<u32>> = HashSet::new();
    'outer: loop {
        if local.is_empty() {
            let mut g = sh.stack.lock().unwrap();
            g.1 += 1; // idle
            loop {
                if g.2 { break 'outer; }
                if let Some(p) = g.0.pop() { g.1 -= 1; local.push(p); break; }
                if g.1 == n { g.2 = true; sh.cv.notify_all(); break 'outer; }
                g = sh.cv.wait(g).unwrap();
            }
        }
        let prefix = local.pop().unwrap();
        if sh.stop.load(Ordering::Relaxed) { continue; }
        let r = run_one(o, &prefix, f);
        let execs = sh.execs.fetch_add(1, Ordering::Relaxed) as u64;
        if execs >= o.max_execs { st.capped = true; sh.stop.store(true, Ordering::Relaxed); }
        st.executions += 1;
        with(|c| {
            // every answer the code gets is on the tape: a prefix that is not reached again means it keeps something between runs
            let diverged = c.diverged || c.points.len() < prefix.len();
            // its branches would not be reached either
            if diverged && sh.diverged.fetch_add(1, Ordering::Relaxed) >= 1000 { sh.stop.store(true, Ordering::Relaxed); }
            if diverged && st.diverged.len() < 2 {
                st.diverged.push(Violation { scenario: o.name.clone(), ell: e, dim: d, baseline: o.baseline, bound: o.bound, tape: prefix.clone(), msg: DIVERGED.into() });
            }
            st.max_depth = st.max_depth.max(c.points.len());
            st.transitions += (c.points.len() + 1).saturating_sub(prefix.len().max(1)) as u64;
            st.transitions += c.steps;
            if st.states.len() < 3_000_000 { st.states.insert(c.digest); for h in c.inner.iter() { st.states.insert(*h); } }
            let devs = c.points[..prefix.len().min(c.points.len())].iter().filter(|p| p.dev).count();
            for i in prefix.len()..(if diverged { 0 } else { c.points.len() }) {
                let p = c.points[i].clone();
                let counts = o.bound.is_some() && !(p.param && o.free_params);
                if counts && devs + 1 > o.bound.unwrap() { st.truncated += 1; continue; }
                // the points between prefix.len() and i took alternative 0: no further deviations
                for alt in (1..p.n).rev() {
                    let mut t: Vec<u32> = c.points[..i].iter().map(|q| q.val).collect();
                    t.push(alt);
                    local.push(t);
                }
            }
            match r {
                Err(ref m) if m == TOO_DEEP => st.too_deep += 1,
                Err(ref m) => {
                    if st.violations.len() < 20 {
                        st.violations.push(Violation { scenario: o.name.clone(), ell: e, dim: d, baseline: o.baseline, bound: o.bound,
                            tape: c.points.iter().map(|q| q.val).collect(),
                            msg: format!("{} [params: {}]", m, c.trace.iter().map(|(l, v)| format!("{}={}", l, v)).collect::<Vec<_>>().join(" ")) });
                    }
                    if st.violations.len() >= 20 { sh.stop.store(true, Ordering::Relaxed); }
                }
                Ok(()) => {
                    if o.traces > 0 && st.traces.len() < o.traces && c.points.iter().all(|p| p.param || p.val == 0) {
                        let key: Vec<u32> = c.trace.iter().map(|t| t.1).collect();
                        if seen_traces.insert(key) {
                            st.traces.push(Trace { params: c.trace.clone(), outcome: c.outcome.clone() });
                        }
                    }
                    if st.samples.len() < 2 {
                        st.samples.push(format!("{} ell={} dim={} tape={:?} params={:?} outcome={:?}", o.name, e, d,
                            c.points.iter().map(|q| q.val).collect::<Vec<_>>(),
                            c.trace.iter().map(|(l, v)| format!("{}={}", l, v)).collect::<Vec<_>>(), c.outcome));
                    }
                }
            }
        });
        if local.len() > 1 {
            let mut g = sh.stack.lock().unwrap();
            if g.1 > 0 && g.0.len() < n {
                let k = (local.len() / 2).max(1);
                g.0.extend(local.drain(..k));
                sh.cv.notify_all();
            }
        }
    }
    let mut t = total.lock().unwrap();
    t.executions += st.executions;
    t.transitions += st.transitions;
    t.max_depth = t.max_depth.max(st.max_depth);
    t.truncated += st.truncated;
    t.too_deep += st.too_deep;
    t.capped |= st.capped;
    t.violations.extend(st.violations);
    t.diverged.extend(st.diverged);
    if t.states.is_empty() { t.states = st.states; } else { t.states.extend(st.states); }
    for tr in st.traces { if t.traces.len() < o.traces { t.traces.push(tr); } }
    if t.samples.len() < 2 { t.samples.extend(st.samples); t.samples.truncate(2); }
}

/// Run one tape again (for replay files).
pub fn replay_tape(opts: &Opts, tape: &[u32], f: &(dyn Fn() + Sync)) -> Result<(), String> { run_one(opts, tape, f) }

/// Run a scenario with recorded harness parameters (on the real build, where draws do not branch).
pub fn replay_params(params: &[u32], f: &(dyn Fn() + Sync)) -> Result<Vec<String>, String> {
    with(|c| { c.reset(); c.prefix.clear(); c.baseline = 1; c.bounded = false; c.max_depth = 1_000_000; c.replay = Some(params.to_vec()); });
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f()));
    let out = with(|c| { c.replay = None; c.outcome.clone() });
    match r {
        Ok(()) => Ok(out),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                      else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                      else { "panic".to_string() }),
    }
}
