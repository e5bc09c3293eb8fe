//! Explorations over the toy group.  toy PROPERTY TIER OUTDIR | toy replay SCENARIO ELL DIM BASELINE TAPE
#![feature(thread_local)]
mod pool;
#[global_allocator] static POOL: pool::Pool = pool::Pool;
mod env;
#[path = "../../shared/systems.rs"] mod systems;
mod alg;
#[path = "../../shared/parts.rs"] mod parts;
#[path = "../../shared/scen.rs"] mod scen;
#[path = "../../shared/report.rs"] mod report;
use explorer::*;
use report::Report;
use systems::SYSTEMS;

/// Scenarios by name; arguments follow after colons.
fn scenario(name: &str) -> Option<Box<dyn Fn() + Sync + Send>> {
    if let Some(f) = scen::find(name) { return Some(Box::new(f)); }
    let a: Vec<&str> = name.split(':').collect();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let b = |i: usize| a.get(i) == Some(&"all");
    Some(match a[0] {
        "c01" => Box::new(alg::c01),
        "c02_verify" => { let n = n(1); Box::new(move || alg::c02_verify(n)) }
        "c02_mac" => { let n = n(1); Box::new(move || alg::c02_mac(n)) }
        "c02_keygen" => Box::new(alg::c02_keygen),
        "c02_rerandomise" => Box::new(alg::c02_rerandomise),
        "c03" => Box::new(alg::c03),
        "c03_shape" => { let (r, b) = (n(1), n(2)); Box::new(move || alg::c03_shape(r, b)) }
        "c04" => Box::new(alg::c04),
        "c05" => Box::new(alg::c05),
        "c06_show" => Box::new(alg::c06_show),
        "c06_two" => Box::new(alg::c06_two),
        "c06_two_full" => Box::new(alg::c06_two_full),
        "c06_nonces" => Box::new(alg::c06_nonces),
        "c06_entry" => Box::new(alg::c06_entry),
        "c07_complete" => { let (k, all) = (n(1), b(2)); Box::new(move || alg::c07_complete(k, all)) }
        "c07_sound" => { let (k, all) = (n(1), b(2)); Box::new(move || alg::c07_sound(k, all)) }
        "c08" => { let (k, all) = (n(1), b(2)); Box::new(move || alg::c08(k, all)) }
        "c09" => { let (k, all) = (n(1), b(2)); Box::new(move || alg::c09(k, all)) }
        "c09_prover" => { let k = n(1); Box::new(move || alg::c09_prover(k)) }
        "c09_contexts" => Box::new(alg::c09_contexts),
        "c14_pedersen" => Box::new(alg::c14_pedersen),
        "c14_entry" => Box::new(alg::c14_entry),
        "c15" => Box::new(alg::c15),
        "c15_keygen" => Box::new(alg::c15_keygen),
        "c23" => { let (k, all, fixed) = (n(1), b(2), a[3] == "fixed"); Box::new(move || alg::c23(k, all, fixed)) }
        "c26" => Box::new(alg::c26),
        "c23_flows" => { let (i, j) = (n(1), n(2)); Box::new(move || alg::c23_flows(i, j)) },
        _ => return None,
    })
}

struct Run { r: Report }
impl Run {
    fn go(&mut self, name: &str, l: u32, d: usize, opts: impl Fn(Opts) -> Opts, what: &str) {
        let t = std::time::Instant::now();
        set_group(l, d);
        let o = opts(Opts::new(name));
        let f = scenario(name).expect(name);
        let s = explore(&o, &*f);
        let ctx = format!("group of order {}^{}, baseline {}, {}; {} [{:.1}s]", l, d, o.baseline,
            o.bound.map(|b| format!("at most {} draws off the baseline", b)).unwrap_or("every draw".to_string()), what, { let d = t.elapsed(); d.as_secs() as f32 + d.subsec_millis() as f32 / 1000.0 });
        eprintln!("{} {}: {} executions, {} transitions, {} states, depth {}, {} violations", name, ctx, s.executions, s.transitions, s.states.len(), s.max_depth, s.violations.len());
        self.r.part(name, s, &ctx);
    }
    fn full(&mut self, name: &str, l: u32, d: usize, what: &str) { self.go(name, l, d, |o| { let mut o = o; o.max_depth = 40; o }, what) }
    fn bounded(&mut self, name: &str, l: u32, d: usize, base: u64, k: usize, what: &str) { self.go(name, l, d, |o| o.baseline(base).bound(k), what) }
    /// A structural scenario: large group, parameters enumerated in full, pseudo-random draws; traces kept for replay.
    fn structural(&mut self, name: &str) { self.go(name, 65521, 2, |o| { let mut o = o.baseline(7).bound(0).traces(100_000); if name == "long_run" { o.max_depth = 1_000_000; } o }, "every combination of harness parameters, pseudo-random draws") }
    fn distributions(&mut self, what: &str, secrets: usize) {
        match alg::compare_distributions() {
            Err(e) => self.r.violation(format!("{}: {}", what, e)),
            Ok((c, cells)) => {
                let m = alg::most_secrets();
                if m < secrets { self.r.violation(format!("{}: only {} secrets were compared", what, m)); }
                self.r.note(format!("{}: {} contexts, up to {} secrets each, {} weighted observations compared exactly", what, c, m, cells));
            }
        }
    }
    fn uniform(&mut self, context: &[u8], n: usize, less: usize, what: &str) {
        match alg::uniform(context, n, less) {
            Err(e) => self.r.violation(format!("{}: {}", what, e)),
            Ok(()) => self.r.note(format!("{}: uniform over {} values", what, n)),
        }
    }
}

fn run(prop: &str, thorough: bool) -> Report {
    let mut x = Run { r: Report::default() };
    alg::reset_tables();
    match prop {
        "C01" => {
            x.structural("complete");
            x.structural("numbers_complete");
            x.structural("long_run");
            x.full("c01", 2, 2, "one issuance, presentation and verification");
            for b in 0..(if thorough { 6 } else { 2 }) { x.bounded("c01", 3, 1, b, if thorough { 4 } else { 3 }, "likewise"); }
            for l in vec![5, 7] { for b in 0..2 { x.bounded("c01", l, 2, b, if thorough { 3 } else { 2 }, "likewise"); } }
            x.bounded("c01", 65521, 2, 1, 0, "likewise, a large group");
        }
        "C02" => {
            x.structural("mac_grid");
            x.structural("mac_lengths");
            for n in 0..=3 { x.full(&format!("c02_verify:{}", n), 3, 1, "every key, message, tag"); }
            for n in 0..=2 { x.full(&format!("c02_verify:{}", n), 3, 2, "every key, message, tag"); }
            for n in 0..=(if thorough { 3 } else { 2 }) { x.full(&format!("c02_verify:{}", n), 5, 1, "every key, message, tag"); }
            if thorough { x.full("c02_verify:4", 3, 1, "every key, message, tag"); x.full("c02_verify:2", 7, 1, "every key, message, tag"); }
            for l in vec![3, 5] {
                alg::reset_tables();
                for n in 0..=2 { x.full(&format!("c02_mac:{}", n), l, 2, "every key, message, draw"); }
                x.full("c02_keygen", l, 1, "every draw");
                x.full("c02_rerandomise", l, 1, "every key, tag, draw, message");
                x.uniform(&[1], l as usize, 1, "tag nonces");
                for n in 0..4 { x.uniform(&[3, n], (l as usize).pow(n as u32 + 1), 0, "generated keys"); }
                x.uniform(&[4], l as usize, 1, "re-randomisation factors");
                x.distributions("tag nonces by key and message", 2);
            }
        }
        "C03" => {
            x.structural("verify_splice");
            x.structural("verify_tamper");
            x.structural("verify_shape");
            x.structural("roster_swap");
            for b in 0..3 { for r in 0..3 { x.full(&format!("c03_shape:{}:{}", r, b), 3, 1, "every presentation of so many revealed and blinded attributes and every challenge answer"); } }
            x.full("c03", 3, 1, "every presentation and every challenge answer");
            x.full("c03", 3, 2, "every presentation and every challenge answer");
            if thorough { x.full("c03", 5, 1, "every presentation, claimed challenge and one other"); }
        }
        "C04" => {
            x.structural("roster_pairs");
            x.structural("roster_splice");
            x.structural("roster_tamper");
            x.structural("roster_swap");
            x.structural("numbers_roster");
            x.full("c04", 3, 1, "every roster proof and every challenge answer");
            x.full("c04", 3, 2, "every roster proof and every challenge answer");
            x.full("c04", 5, 1, "every roster proof, claimed challenge and one other");
            if thorough { x.full("c04", 7, 1, "every roster proof, claimed challenge and one other"); }
        }
        "C05" => {
            x.structural("issuance_splice");
            x.structural("issuance_tamper");
            x.structural("numbers_issue");
            x.full("c05", 3, 1, "every issuance and every challenge answer");
            if thorough { x.full("c05", 3, 2, "every issuance and every challenge answer"); }
        }
        "C06" => {
            x.structural("shown_values");
            // dimension 1: commitments hide perfectly only in a cyclic group
            x.full("c06_show", 2, 1, "every draw and secret");
            x.distributions("presentations with roster entry", 2);
            alg::reset_tables();
            x.full("c06_two", 2, 1, "every draw, pair of secrets, same or different user");
            x.distributions("two presentations", 4);
            alg::reset_tables();
            for l in vec![2, 3, 5, 7] { x.full("c06_entry", l, 1, "every draw, number"); x.distributions("roster entries", l as usize); alg::reset_tables(); }
            x.full("c06_nonces", 3, 1, "every draw and secret");
            x.distributions("presentations of the credential alone", 6);
            alg::reset_tables();
            if thorough {
                x.full("c06_show", 3, 1, "every draw and secret");
                x.distributions("presentations with roster entry", 6);
                alg::reset_tables();
                x.full("c06_two_full", 2, 1, "every draw and secret");
                x.distributions("two presentations with roster entry", 2);
            }
        }
        "C07" => {
            x.structural("proof_grid");
            for k in 0..5 {
                let blinded = k == 2;
                x.full(&format!("c07_complete:{}:all", k), 2, 1, "every base, witness, draw");
                x.go(&format!("c07_complete:{}:some", k), 3, 2, |o| o.bound(if thorough { 4 } else { 2 }), "four choices of bases, every witness");
                x.go(&format!("c07_complete:{}:some", k), 5, 1, |o| o.baseline(3).bound(if blinded && !thorough { 0 } else { 1 }), "four choices of bases, every witness");
                x.full(&format!("c07_sound:{}:all", k), 2, 1, "every statement, challenge, responses");
                if !blinded { x.full(&format!("c07_sound:{}:all", k), 3, 1, "every statement, challenge, responses"); }
                x.full(&format!("c07_sound:{}:some", k), 3, 2, "27 statements for four choices of bases, changed in one place; every challenge and responses");
                if thorough && !blinded { x.full(&format!("c07_sound:{}:some", k), 5, 1, "likewise"); }
            }
        }
        "C08" => {
            x.structural("proof_masks");
            for k in 0..5 {
                let blinded = k == 2;
                for (l, all) in vec![(2u32, true), (3, !blinded)] {
                    if blinded && l == 3 && !thorough { continue; }
                    x.full(&format!("c08:{}:{}", k, if all { "all" } else { "some" }), l, 1, "every base, witness, challenge, draw");
                    x.uniform(&[k as u8], (l as usize).pow(SYSTEMS[k].secs.len() as u32), 0, SYSTEMS[k].name);
                    x.distributions(SYSTEMS[k].name, 2);
                    alg::reset_tables();
                }
            }
        }
        "C09" => {
            x.structural("proof_context");
            for k in 0..5 { x.full(&format!("c09:{}:all", k), 2, 1, "every statement, challenge, responses in three contexts"); }
            alg::reset_tables();
            for k in 0..5 {
                let all = thorough && k != 2;
                x.full(&format!("c09:{}:{}", k, if all { "all" } else { "some" }), 3, if all { 1 } else { 2 }, "statements changed in up to two places, or all; every challenge and responses");
                if all { alg::reset_tables(); }
                x.full(&format!("c09_prover:{}", k), 2, 1, "every draw");
            }
            x.bounded("c09_contexts", 5, 1, 3, if thorough { 3 } else { 2 }, "honest runs");
            x.bounded("c09_contexts", 65521, 2, 5, 0, "one run");
        }
        "C14" => {
            x.structural("entry_open");
            x.structural("numbers_open");
            x.full("c14_pedersen", 3, 2, "every value, opening, basepoint, commitment");
            x.full("c14_pedersen", 5, 1, "every value, opening, basepoint, commitment");
            x.full("c14_entry", 3, 2, "every number, parameters, opening, commitment");
            alg::reset_tables();
            x.full("c14_entry", 5, 1, "every number, parameters, opening, commitment");
            x.uniform(&[7], 5, 1, "openings");
            if thorough { x.full("c14_pedersen", 7, 1, "likewise"); x.full("c14_entry", 7, 1, "likewise"); x.full("c14_entry", 5, 2, "likewise"); }
        }
        "C15" => {
            x.structural("elgamal_grid");
            for l in vec![2, 3, 5, 7, 11] {
                if l > 7 && !thorough { continue; }
                alg::reset_tables();
                x.full("c15", l, 1, "every key, messages, nonces");
                x.full("c15_keygen", l, 1, "every draw");
                x.uniform(&[5], l as usize, 1, "generated secret keys");
                x.distributions("first element of ciphertexts by message", l as usize);
            }
        }
        "C22" => {
            x.structural("history3");
            if thorough { x.go("history4", 65521, 2, |o| o.baseline(7).bound(0).traces(100_000), "every history of 4 operations"); x.go("history5", 65521, 2, |o| o.baseline(7).bound(0), "every history of 5 operations"); }
            else { x.go("history4", 65521, 2, |o| o.baseline(7).bound(0), "every history of 4 operations"); }
        }
        "C23" => {
            x.structural("proof_masks");
            let big = 2_147_483_629;
            for k in 0..5 {
                for f in vec!["fixed", "fresh"] {
                    let all = k != 2 || thorough;
                    x.full(&format!("c23:{}:{}:{}", k, if all && thorough { "all" } else { "some" }, f), big, 2, "statement and witness vectors over two values");
                }
            }
            for (i, j) in if thorough { vec![(8, 4), (600, 1), (1, 600), (40, 40)] } else { vec![(8, 4), (400, 1), (1, 400)] } {
                x.go(&format!("c23_flows:{}:{}", i, j), big, 2, |o| { let mut o = o; o.max_depth = 1_000_000; o }, &format!("{} issuances with {} presentations each", i, j));
            }
        }
        "C24" => {
            x.structural("interleaved2");
            if thorough { x.structural("interleaved3"); } else { x.go("interleaved3", 65521, 2, |o| o.baseline(7).bound(0), "every interleaving, pseudo-random draws"); }
            x.structural("issuer_history3");
            if thorough { x.go("issuer_history4", 65521, 2, |o| o.baseline(7).bound(0).traces(100_000), "every history of 4 requests"); }
        }
        "C26" => {
            x.structural("operators");
            for (l, d) in vec![(3, 1), (3, 2), (5, 1), (7, 1)] { x.full("c26", l, d, "every pair of scalars, every pair of points, every draw"); }
            x.go("c26", 5, 2, |o| o.baseline(3).bound(0), "every pair of scalars, every pair of points");
            if thorough { x.full("c26", 5, 2, "likewise, every draw"); x.full("c26", 11, 1, "likewise, every draw"); x.go("c26", 7, 2, |o| o.baseline(3).bound(0), "likewise"); }
        }
        _ => panic!("nothing to do for {}", prop),
    }
    x.r
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    // the library prints to stdout on bad input
    extern "C" { fn dup2(a: i32, b: i32) -> i32; fn open(p: *const i8, f: i32, ...) -> i32; }
    unsafe { let n = open(b"/dev/null\0".as_ptr() as *const i8, 1); if n >= 0 { dup2(n, 1); } }
    if a[1] == "replay" {
        set_group(a[3].parse().unwrap(), a[4].parse().unwrap());
        alg::reset_tables();
        let tape: Vec<u32> = a[6].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let f = scenario(&a[2]).expect("scenario");
        let o = Opts::new(&a[2]).baseline(a[5].parse().unwrap());
        match replay_tape(&o, &tape, &*f) {
            Ok(()) => { eprintln!("no violation: {:?}", outcomes()); std::process::exit(0) }
            Err(m) => { eprintln!("violation: {}", m); std::process::exit(1) }
        }
    }
    let r = run(&a[1], a[2] == "thorough");
    r.finish(&a[3], "toy");
}
