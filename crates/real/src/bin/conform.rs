//! The structural scenarios on the real curve.  conform TIER OUTDIR SCENARIOS [TRACES]
//! With TRACES, every trace the toy build explored is replayed here and must end the same; the parameter space is
//! enumerated here too if there are none.
#[path = "../env.rs"] mod env;
#[path = "../../../shared/scen.rs"] mod scen;
#[path = "../../../shared/systems.rs"] mod systems;
#[path = "../../../shared/parts.rs"] mod parts;
#[path = "../../../shared/report.rs"] mod report;
use explorer::*;
use report::Report;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    extern "C" { fn dup2(a: i32, b: i32) -> i32; fn open(p: *const i8, f: i32, ...) -> i32; }
    unsafe { let n = open(b"/dev/null\0".as_ptr() as *const i8, 1); if n >= 0 { dup2(n, 1); } }
    if a[1] == "replay" {
        let p: Vec<u32> = a[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        env::salt(p.iter().fold(1u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64)));
        match replay_params(&p, &scen::find(&a[2]).expect("scenario")) {
            Ok(o) => { eprintln!("no violation: {:?}", o); std::process::exit(0) }
            Err(m) => { eprintln!("violation: {}", m); std::process::exit(1) }
        }
    }
    let mut r = Report::default();
    if a.len() > 4 {
        let text = std::fs::read_to_string(&a[4]).unwrap();
        let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split('\t').collect()).collect();
        let next = AtomicUsize::new(0);
        let found = Mutex::new(vec![]);
        let work = || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= lines.len() { break; }
            let l = &lines[i];
            let f = scen::find(l[0]).expect("scenario");
            let p: Vec<u32> = l[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            env::salt(p.iter().fold(1u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64)));
            match replay_params(&p, &f) {
                Ok(o) => if o.join("|") != l[2] { found.lock().unwrap().push(format!("real {} {}: over the real curve {:?}, over the toy group {}", l[0], l[1], o, l[2])); },
                Err(m) => found.lock().unwrap().push(format!("real {} {}: {}", l[0], l[1], m)),
            }
        };
        scoped(&work);
        let mut f = found.into_inner().unwrap();
        f.sort();
        r.validated = lines.len() as u64;
        r.note(format!("{} traces of the toy exploration replayed over the real curve, outcomes compared", lines.len()));
        for x in f.into_iter().take(5) { r.violation(x); }
        r.samples.push(lines.get(lines.len() / 2).map(|l| l.join(" ")).unwrap_or_default());
    } else {
        for name in a[3].split(',').filter(|s| !s.is_empty()) {
            let f = scen::find(name).expect("scenario");
            let s = explore(&Opts::new(name).baseline(7).bound(0), &f);
            r.part(name, s, "real curve, every combination of harness parameters");
        }
    }
    r.finish(&a[2], "real");
}
/// Run `work` on every core and wait.
fn scoped(work: &(dyn Fn() + Sync)) {
    let p = unsafe { std::mem::transmute::<&(dyn Fn() + Sync), &'static (dyn Fn() + Sync)>(work) };
    let hs: Vec<_> = (0..threads()).map(|_| std::thread::Builder::new().stack_size(8 << 20).spawn(move || p()).unwrap()).collect();
    for h in hs { h.join().unwrap(); }
}
