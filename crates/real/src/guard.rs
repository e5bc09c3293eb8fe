//! Inputs that end where readable memory ends, and a note of the case at hand for when the process dies of it.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
}
const SIZE: usize = 1 << 20;
pub struct Page(*mut u8);
unsafe impl Send for Page {}
impl Page {
    pub fn new() -> Page {
        unsafe {
            let p = mmap(std::ptr::null_mut(), SIZE + 4096, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p.add(SIZE), 4096, 0) == 0);
            Page(p)
        }
    }
    /// A copy of `b` whose end is the end of readable memory.
    pub fn put(&self, b: &[u8]) -> &[u8] {
        assert!(b.len() <= SIZE);
        unsafe {
            let p = self.0.add(SIZE - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
}
thread_local! { static CASE: Cell<(&'static str, usize, usize)> = Cell::new(("", 0, 0)); }
pub fn note(what: &'static str, b: &[u8]) {
    CASE.with(|c| c.set((what, b.as_ptr() as usize, b.len())));
    TICK.with(|t| { t.0.store(b.as_ptr() as usize, Ordering::Relaxed); t.1.store(b.len(), Ordering::Relaxed); t.2.store(t.2.load(Ordering::Relaxed).wrapping_add(1), Ordering::Relaxed); });
}
/// (input, its length, cases so far) per thread
type Tick = Arc<(AtomicUsize, AtomicUsize, AtomicUsize)>;
static TICKS: Mutex1 = Mutex1(UnsafeCell::new(None), AtomicBool::new(false));
struct Mutex1(UnsafeCell<Option<Vec<Tick>>>, AtomicBool);
unsafe impl Sync for Mutex1 {}
impl Mutex1 {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<Tick>) -> R) -> R {
        while self.1.compare_and_swap(false, true, Ordering::SeqCst) { std::thread::yield_now(); }
        let r = f(unsafe { (*self.0.get()).get_or_insert_with(Vec::new) });
        self.1.store(false, Ordering::SeqCst);
        r
    }
}
thread_local! { static TICK: Tick = { let t: Tick = Default::default(); TICKS.with(|v| v.push(t.clone())); t }; }
/// One case that takes longer than this is a case that does not end.
const PATIENCE: u32 = 120;
fn watch() {
    let mut last: Vec<(usize, u32)> = vec![];
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        TICKS.with(|v| for (i, t) in v.iter().enumerate() {
            if Arc::strong_count(t) < 2 { continue; } // its thread has ended
            let n = t.2.load(Ordering::Relaxed);
            if i >= last.len() { last.push((n, 0)); continue; }
            if last[i].0 != n { last[i] = (n, 0); continue; }
            last[i].1 += 1;
            if last[i].1 > PATIENCE && n > 0 {
                let (p, l) = (t.0.load(Ordering::Relaxed), t.1.load(Ordering::Relaxed));
                eprintln!("no end of decoding {}", hex(unsafe { std::slice::from_raw_parts(p as *const u8, l.min(600)) }));
                unsafe { _exit(101) }
            }
        });
    }
}
extern "C" fn died(n: i32) {
    let (w, p, l) = CASE.with(|c| c.get());
    unsafe {
        let say = |b: &[u8]| { write(2, b.as_ptr(), b.len()); };
        say(b"\nsignal "); say(&[b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]);
        say(b" while decoding "); say(w.as_bytes()); say(b" from ");
        let s = std::slice::from_raw_parts(if l == 0 { 1 as *const u8 } else { p as *const u8 }, l.min(600));
        for x in s { say(&[b"0123456789abcdef"[(x >> 4) as usize], b"0123456789abcdef"[(x & 15) as usize]]); }
        say(b"\n");
        _exit(101)
    }
}
/// Started by those who note every case.
pub fn watchdog() { std::thread::spawn(watch); }
/// Quiet: no panic messages, nothing on stdout; note the case on a fatal signal.
pub fn setup() {
    std::panic::set_hook(Box::new(|_| ()));
    unsafe {
        for s in [4, 6, 7, 8, 11].iter() { signal(*s, died as usize); }
        let n = open(b"/dev/null\0".as_ptr() as *const i8, 1);
        if n >= 0 { dup2(n, 1); }
    }
}
/// Run `work` on every core and wait.
pub fn everywhere(work: &(dyn Fn() + Sync)) {
    let p = unsafe { std::mem::transmute::<&(dyn Fn() + Sync), &'static (dyn Fn() + Sync)>(work) };
    let hs: Vec<_> = (0..explorer::threads()).map(|_| std::thread::Builder::new().stack_size(8 << 20).spawn(move || p()).unwrap()).collect();
    for h in hs { h.join().unwrap(); }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".to_string())
}
