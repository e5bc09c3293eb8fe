//! C21: buffers for foreign callers.  buf C21 TIER OUTDIR   (run under track.so)
//! Every length and content pattern, with the allocator answering and refusing, in sequences that keep earlier buffers.
#[path = "../../../shared/report.rs"] mod report;
use report::Report;
use std::ffi::CString;
extern "C" {
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn free(p: *mut u8);
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
fn sym<T>(n: &str) -> T {
    let c = CString::new(n).unwrap();
    let p = unsafe { dlsym(std::ptr::null_mut(), c.as_ptr()) };
    assert!(!p.is_null(), "track.so is not preloaded");
    unsafe { std::mem::transmute_copy(&p) }
}
struct Track { on: extern "C" fn(i32), fail: extern "C" fn(i64), count: extern "C" fn() -> u64, size: extern "C" fn(*const u8) -> usize, query: extern "C" fn(*const u8, usize) -> i32, damage: extern "C" fn(i32) -> u64 }
const PATTERNS: usize = 5;
fn byte(pattern: usize, i: usize, n: usize) -> u8 {
    match pattern { 0 => (i * 167 + 13) as u8, 1 => 0, 2 => 255, 3 => if i + 1 == n { 0 } else { 7 }, _ => if i == 0 { 0 } else { 9 } }
}
struct In { base: *mut u8, size: usize }
impl In {
    fn new(size: usize) -> In { unsafe { let p = mmap(std::ptr::null_mut(), size + 8192, 0, 0x22, -1, 0); mprotect(p.add(4096), size, 3); In { base: p.add(4096), size } } }
    fn put(&self, pattern: usize, n: usize, start: bool) -> &'static [u8] {
        unsafe {
            mprotect(self.base, self.size, 3);
            let p = if start { self.base } else { self.base.add(self.size - n) };
            for i in 0..n { *p.add(i) = byte(pattern, i, n); }
            mprotect(self.base, self.size, 1);
            std::slice::from_raw_parts(p, n)
        }
    }
}
static mut STATE: *mut u64 = 0 as *mut u64; // [length, pattern, allocator fails, calls, text length, done]
/// One call with the allocator answering (`fails`: refusing).
fn one(t: &Track, b: &[u8], fails: bool) -> Result<Option<*mut u8>, String> {
    unsafe { *STATE.add(3) += 1; }
    (t.on)(1);
    let before = (t.count)();
    if fails { (t.fail)(0) } else { (t.fail)(-1) }
    let p = allocbuf::allocate_buffer_for_bytes(b) as *mut u8;
    (t.fail)(-1);
    let asked = (t.count)() - before;
    (t.on)(0);
    if fails {
        if asked == 0 && p.is_null() { return Err("NULL although the allocator was not asked".into()); }
        if asked > 0 && !p.is_null() && asked == 1 { return Err("not NULL although the allocator failed".into()); }
        if p.is_null() { return Ok(None); }
    }
    if p.is_null() { return Err("NULL although the allocator did not fail".into()); }
    let size = (t.size)(p);
    if size == !0 { return Err(format!("the result is not the start of a live block (kind {})", (t.query)(p, 1))); }
    if size < b.len() + 1 { return Err(format!("a block of {} bytes", size)); }
    let got = unsafe { std::slice::from_raw_parts(p, b.len() + 1) };
    if &got[..b.len()] != b { return Err("the copy differs".into()); }
    if got[b.len()] != 0 { return Err("no zero byte after the copy".into()); }
    if (t.damage)(0) != 0 { return Err("wrote beyond the block".into()); }
    Ok(Some(p))
}
fn explore(t: &Track, longest: usize, say: &mut dyn FnMut(String)) {
    let pages = In::new(1 << 20);
    let state = |n: usize, p: usize, f: bool| unsafe { *STATE = n as u64; *STATE.add(1) = p as u64; *STATE.add(2) = f as u64; alarm(60); };
    let mut bad = 0;
    for n in 0..=longest { for pattern in 0..PATTERNS { for start in 0..2 { for fails in 0..2 {
        state(n, pattern, fails == 1);
        match one(t, pages.put(pattern, n, start == 1), fails == 1) {
            Err(e) => { say(format!("{} bytes, pattern {}, allocator {}: {}", n, pattern, if fails == 1 { "fails" } else { "works" }, e)); bad += 1; if bad > 3 { return; } }
            Ok(Some(p)) => unsafe { free(p) },
            Ok(None) => (),
        }
    } } } }
    for n in &[8191usize, 8192, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20] { for fails in 0..2 {
        state(*n, 0, fails == 1);
        match one(t, pages.put(0, *n, false), fails == 1) { Err(e) => { say(format!("{} bytes: {}", n, e)); return; } Ok(Some(p)) => unsafe { free(p) }, Ok(None) => () }
    } }
    // more than can be allocated; nothing of it may be read
    for n in &[1usize << 47, std::isize::MAX as usize, 1 << 63, !0 - 1, !0] { for fails in 0..2 {
        state(*n, 0, fails == 1);
        unsafe { *STATE.add(3) += 1; }
        (t.on)(1);
        (t.fail)(if fails == 1 { 0 } else { -1 });
        let p = allocbuf::allocate_buffer_for_bytes(unsafe { std::slice::from_raw_parts(pages.base.add(pages.size), *n) });
        (t.fail)(-1);
        (t.on)(0);
        if !p.is_null() { say(format!("{} bytes: not NULL", n)); return; }
    } }
    // sequences of calls, the earlier buffers kept
    let menu = [0usize, 1, 15, 16, 17, 255];
    let k = menu.len() * 2;
    for code in 0..k * k * k * k {
        let mut kept: Vec<(*mut u8, Vec<u8>)> = vec![];
        let mut c = code;
        for step in 0..4 {
            let (n, fails) = (menu[c % k / 2], c % 2 == 1);
            c /= k;
            state(n, step, fails);
            let b = pages.put(step % PATTERNS, n, false);
            match one(t, b, fails) { Err(e) => { say(format!("call {} of a sequence, {} bytes: {}", step + 1, n, e)); return; } Ok(Some(p)) => kept.push((p, b.to_vec())), Ok(None) => () }
            for (p, b) in &kept {
                let s = unsafe { std::slice::from_raw_parts(*p, b.len() + 1) };
                if &s[..b.len()] != &b[..] || s[b.len()] != 0 { say(format!("an earlier buffer of {} bytes changed in a later call (sequence {})", b.len(), code)); return; }
            }
        }
        for i in 0..kept.len() { for j in 0..i { if kept[i].0 == kept[j].0 { say("two calls gave the same block".into()); return; } } }
        for (p, _) in kept { unsafe { free(p) } }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let longest = if a[2] == "thorough" { 40000 } else { 4200 };
    let t = Track { on: sym("track_on"), fail: sym("track_fail"), count: sym("track_allocations"), size: sym("track_size"), query: sym("track_query"), damage: sym("track_damage") };
    let mut r = Report::default();
    unsafe {
        STATE = mmap(std::ptr::null_mut(), 65536, 3, 0x21, -1, 0) as *mut u64;
        let p = fork();
        if p == 0 {
            explore(&t, longest, &mut |e| {
                let n = *STATE.add(4) as usize;
                if n + e.len() + 1 < 60000 { std::ptr::copy_nonoverlapping(e.as_ptr(), (STATE as *mut u8).add(4096 + n), e.len()); *(STATE as *mut u8).add(4096 + n + e.len()) = b'\n'; *STATE.add(4) += e.len() as u64 + 1; }
            });
            *STATE.add(5) = 1;
            _exit(0)
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if *STATE.add(5) != 1 { r.violation(format!("{} bytes, allocator {}: the call ended the process (status {})", *STATE, if *STATE.add(2) == 1 { "fails" } else { "works" }, st)); }
        let text = std::slice::from_raw_parts((STATE as *const u8).add(4096), *STATE.add(4) as usize);
        for l in String::from_utf8_lossy(text).lines() { r.violation(l.to_string()); }
        r.evaluations = *STATE.add(3);
        r.distinct = *STATE.add(3);
        r.transitions = *STATE.add(3);
    }
    r.note(format!("lengths 0..={} and some up to 1 MiB, {} content patterns, input at either end of its page, allocator answering and refusing; all sequences of 4 calls over 6 lengths x 2 allocator answers", longest, PATTERNS));
    r.rule = "every length, content pattern and allocator answer; every sequence of 4 calls from the menu".into();
    r.samples.push("17 bytes, allocator refuses: NULL".into());
    r.finish(&a[3], "buf");
}
