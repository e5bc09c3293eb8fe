//! C20: the JavaScript API, natively.  js C20 TIER OUTDIR
#[path = "../api.rs"] mod api;
#[path = "../guard.rs"] #[allow(dead_code)] mod guard;
#[path = "/repo/wasm/src/js.rs"] #[allow(unused_mut, unused_macros, dead_code)] mod js;
#[path = "../../../shared/report.rs"] mod report;
use api::*;
use guard::{everywhere, panic_text};
use report::Report;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use wasm_bindgen::JsValue;

/// The functions of FUNCTIONS the JavaScript API has.
const HAS: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
fn array(b: &[u8]) -> String { let mut s = String::from("["); for (i, x) in b.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&x.to_string()); } s.push(']'); s }
/// The bytes a value stands for, if it stands for bytes.
fn bytes_of(s: &str) -> Option<Vec<u8>> { serde_json::from_str::<Vec<u8>>(s).ok().or_else(|| serde_json::from_str::<String>(s).ok().map(|s| s.into_bytes())) }

/// An argument: an object's JSON text, or plain bytes.
#[derive(Clone)]
enum Arg { Js(String), Raw(Vec<u8>) }
fn call(f: usize, a: &[Arg]) -> JsValue {
    let j = |i: usize| match &a[i] { Arg::Js(s) => JsValue(s.clone()), _ => unreachable!() };
    let r = |i: usize| match &a[i] { Arg::Raw(b) => &b[..], _ => unreachable!() };
    match f {
        0 => js::system_parameters_create(r(0)),
        1 => js::issuer_create(j(0), r(1)),
        2 => js::issuer_new(j(0), j(1)),
        3 => js::issuer_get_issuer_parameters(j(0)),
        4 => js::issuer_issue(j(0), r(1), r(2)),
        5 => js::issuer_verify(j(0), j(1)),
        6 => js::issuer_verify_roster_membership(j(0), j(1)),
        7 => js::user_obtain_finish(r(0), j(1), j(2), j(3)),
        _ => js::user_show(j(0), j(1), r(2)),
    }
}
fn plain(a: A) -> bool { a == A::Num || a == A::Seed }
fn arg(a: A, b: &[u8]) -> Arg { if plain(a) { Arg::Raw(b.to_vec()) } else { Arg::Js(array(b)) } }

static CALLS: AtomicUsize = AtomicUsize::new(0);
static GOOD: AtomicUsize = AtomicUsize::new(0);
/// One call compared with the library; its result as bytes.
fn once(f: usize, a: &[Arg]) -> Result<Option<Vec<u8>>, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let kinds = FUNCTIONS[f].1;
    let r = match catch_unwind(AssertUnwindSafe(|| call(f, a))) { Ok(r) => r, Err(e) => return Err(format!("panics: {}", panic_text(e))) };
    let mut data = vec![];
    for (i, x) in a.iter().enumerate() {
        match x {
            Arg::Raw(b) => data.push(if kinds[i] == A::Seed && b.len() != 32 { None } else { Some(b.clone()) }),
            Arg::Js(s) => data.push(bytes_of(s)),
        }
    }
    let go = || { let raw: Option<Vec<&[u8]>> = data.iter().map(|d| d.as_ref().map(|d| &d[..])).collect(); raw.and_then(|r| lib(f, &r)) };
    let l = go();
    if r.0 == "0" {
        return if l.is_some() { Err("gives 0 although the library succeeds".into()) } else { Ok(None) };
    }
    let got = match serde_json::from_str::<Vec<u8>>(&r.0) { Ok(b) => b, Err(_) => return Err(format!("gives neither 0 nor bytes: {}", &r.0[..r.0.len().min(80)])) };
    GOOD.fetch_add(1, Ordering::Relaxed);
    match l {
        None => Err("succeeds although the library reports an error".into()),
        Some(l) => if agree(&got, &l, &go().unwrap_or_default()) { Ok(Some(got)) } else { Err("differs from the library's result".into()) },
    }
}
/// Texts that are not the honest object's.
fn menu(h: &[u8], thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = ["null", "0", "1", "-1", "true", "false", "\"\"", "\"abc\"", "[]", "{}", "[[]]", "[null]", "[1.5]", "[256]", "[-1]", "[\"1\"]", "[true]", "[1e3]", "1e400", "[1e400]",
        "{\"g\":[1],\"h\":[2]}", "[0", "", "]", "\u{1f600}", "\"\\u0000\"", "[99999999999999999999]", "{\"0\":1}", "[{}]", "\"\\ud800\"", "nul", "[1,]"].iter().map(|s| s.to_string()).collect();
    v.push(format!("\"{}\"", "a".repeat(h.len())));
    v.push("[".repeat(300));
    v.push(format!("[{}]", array(h)));
    v.push(format!("{{\"bytes\":{}}}", array(h)));
    v.push(format!(" {} ", array(h)));
    v.push(format!("{}0", array(h)));
    for n in 0..h.len() { v.push(array(&h[..n])); }
    for n in &[1usize, 2, 8, 31, 32, 33, 64, 96, 128, 448, 1000, 5000] { for k in &[0u8, 1, 255] { let mut x = h.to_vec(); x.extend(vec![*k; *n]); v.push(array(&x)); } let mut x = h.to_vec(); for i in 0..*n { x.push(h[i % h.len()]); } v.push(array(&x)); }
    for i in 0..h.len() { for b in 0..8 { if thorough || b == i % 8 || b == 7 { let mut x = h.to_vec(); x[i] ^= 1 << b; v.push(array(&x)); } } }
    for i in 0..h.len() {
        let parts: Vec<String> = h.iter().map(|x| x.to_string()).collect();
        for bad in &["256", "-1", "1.0", "null", "\"1\"", "[1]"] { let mut p = parts.clone(); p[i] = bad.to_string(); v.push(format!("[{}]", p.join(","))); }
    }
    for at in 0..h.len() / 32 { for k in &[0u8, 255] { let mut x = h.to_vec(); for i in 0..32 { x[32 * at + i] = *k; } v.push(array(&x)); } }
    v
}
enum Case { One(usize, usize, String), Lens(usize, usize, usize, u8), Mixed(u32), Cross(usize, u32), Roster(u32), Trip(usize), Numbers(usize, u8, u8) }
fn describe(c: &Case) -> String {
    match c {
        Case::One(f, i, s) => format!("{} with argument {} = {}", FUNCTIONS[*f].0, i + 1, s),
        Case::Lens(f, i, n, k) => format!("{} with argument {} of {} bytes {}", FUNCTIONS[*f].0, i + 1, n, k),
        Case::Mixed(m) => format!("an honest run with steps {:b} through the JavaScript API", m),
        Case::Cross(f, m) => format!("{} with arguments of two worlds ({:b})", FUNCTIONS[*f].0, m),
        Case::Roster(m) => format!("user {} shows for entry {}, issuer {} verifies, issuer {} checks the roster proof", *m & 1, *m >> 1 & 1, *m >> 2 & 1, *m >> 3),
        Case::Numbers(n, p, r) => { let (a, b) = number_pair(*n, *p, *r); format!("a user with number {:?} and the number {:?}", a, b) }
        Case::Trip(k) => format!("object {} to a value and back", k),
    }
}
fn run(ws: &[World], c: &Case) -> Result<(), String> {
    let honest = |f: usize| -> Vec<Arg> { FUNCTIONS[f].1.iter().map(|k| arg(*k, ws[0].get(*k))).collect() };
    match c {
        Case::One(f, i, s) => { let mut a = honest(*f); a[*i] = Arg::Js(s.clone()); once(*f, &a).map(|_| ()) }
        Case::Lens(f, i, n, k) => {
            let mut a = honest(*f);
            a[*i] = Arg::Raw((0..*n).map(|x| match k { 0 => (x % 10) as u8, _ => *k }).collect());
            let r = once(*f, &a)?;
            if FUNCTIONS[*f].1[*i] == A::Seed && (*n == 32) != r.is_some() { return Err("a seed of 32 bytes, and no other, is good".into()); }
            if FUNCTIONS[*f].1[*i] == A::Num && *n > 26 && r.is_some() { return Err("a number of more than 26 digits is not refused".into()); }
            Ok(())
        }
        Case::Cross(f, m) => {
            let w = |i: usize| (m >> i & 1) as usize;
            let a: Vec<Arg> = FUNCTIONS[*f].1.iter().enumerate().map(|(i, k)| arg(*k, ws[w(i)].get(*k))).collect();
            let r = once(*f, &a)?;
            let good = match f { 5 | 6 => w(0) == w(1), 7 => (0..4).all(|i| w(i) == w(0)), _ => true };
            if good != r.is_some() { return Err(if good { "fails although the objects belong together" } else { "succeeds although the objects do not belong together" }.into()); }
            Ok(())
        }
        Case::Mixed(m) => {
            let mut have: Vec<(A, Vec<u8>)> = vec![(A::Seed, ws[(m & 1) as usize].seed.clone()), (A::Num, ws[(*m as usize >> 1) & 1].num.clone())];
            for f in STEPS.iter() {
                let kinds = FUNCTIONS[*f].1;
                let data: Vec<Vec<u8>> = kinds.iter().map(|a| have.iter().find(|h| h.0 == *a).unwrap().1.clone()).collect();
                let out = match HAS.iter().position(|g| g == f) {
                    Some(k) if m >> k & 1 == 1 => once(*f, &data.iter().zip(kinds).map(|(d, k)| arg(*k, d)).collect::<Vec<_>>()).map_err(|e| format!("{} {}", FUNCTIONS[*f].0, e))?,
                    _ => lib(*f, &data.iter().map(|d| &d[..]).collect::<Vec<_>>()),
                };
                let out = match out { Some(o) => o, None => return Err(format!("{} failed", FUNCTIONS[*f].0)) };
                let kind = match f { 0 => A::Sys, 1 => A::Key, 2 => A::Iss, 3 => A::Par, 4 => A::Cred, 7 => A::User, 9 => A::Entry, 8 => A::Pres, 5 => A::Ver,
                    6 => { if &out[..] != &have.iter().find(|h| h.0 == A::Entry).unwrap().1[..32] { return Err("the issuer did not get the entry's commitment".into()); } continue }
                    _ => continue };
                have.push((kind, out));
            }
            Ok(())
        }
        Case::Roster(m) => {
            let w = |i: u32| &ws[(m >> i & 1) as usize];
            let (u, e, i, j) = (*m & 1, *m >> 1 & 1, *m >> 2 & 1, *m >> 3 & 1);
            let pres = match once(8, &[arg(A::User, &w(0).user), arg(A::Entry, &w(1).entry), arg(A::Seed, &w(0).seed)])? { Some(p) => p, None => return Err("user_show failed".into()) };
            let v = once(5, &[arg(A::Iss, &w(2).iss), arg(A::Pres, &pres)])?;
            if v.is_some() != (u == i) { return Err(format!("issuer_verify {}", if u == i { "failed" } else { "succeeded" })); }
            let r = once(6, &[arg(A::Iss, &w(3).iss), arg(A::Ver, &pres)])?;
            let good = u == e && u == j;
            if r.is_some() != good { return Err(format!("issuer_verify_roster_membership {}", if good { "failed" } else { "succeeded" })); }
            if let Some(r) = r { if &r[..] != &w(1).entry[..32] { return Err("another commitment came back".into()); } }
            Ok(())
        }
        Case::Numbers(n, p, r) => {
            let ((a, b), w) = (number_pair(*n, *p, *r), &ws[0]);
            let (cred, user, _) = someone(w, &a);
            let same = a == b;
            let go = |f: usize, raw: &[&[u8]]| {
                let args: Vec<Arg> = raw.iter().zip(FUNCTIONS[f].1).map(|(b, k)| arg(*k, b)).collect();
                once(f, &args).map_err(|e| format!("{} {}", FUNCTIONS[f].0, e))
            };
            if go(7, &[&b, &w.sys, &w.par, &cred])?.is_some() != same { return Err(format!("user_obtain_finish {}", if same { "failed" } else { "succeeded" })); }
            if go(4, &[&w.iss, &b, &w.seed])?.is_some() != (b.len() <= 26) { return Err("issuer_issue takes a number that is too long, or none that is not".into()); }
            if b.len() > 26 { return Ok(()); }
            let other = lib(9, &[&b, &w.sys, &w.seed]).unwrap();
            let pres = match go(8, &[&user, &other, &w.seed])? { Some(p) => p, None => return Err("user_show failed".into()) };
            if go(5, &[&w.iss, &pres])?.is_none() { return Err("issuer_verify failed".into()); }
            if go(6, &[&w.iss, &pres])?.is_some() != same { return Err(format!("issuer_verify_roster_membership {}", if same { "failed" } else { "succeeded" })); }
            Ok(())
        }
        Case::Trip(k) => {
            use signal_credential::{amacs, credential, issuer, parameters, phone_number, user};
            let w = &ws[k & 1];
            macro_rules! trip { ($t:ty, $b:expr) => {{
                let x = <$t>::from_bytes($b).map_err(|_| "does not decode".to_string())?;
                let v = JsValue::from_serde(&x).map_err(|e| e.to_string())?;
                let y: $t = v.into_serde().map_err(|e| e.to_string())?;
                if &y.to_bytes()[..] != &$b[..] { return Err("came back changed".into()); }
                if bytes_of(&v.0) != Some($b.to_vec()) { return Err("is not its bytes".into()); }
            }} }
            match *k >> 1 {
                0 => trip!(parameters::SystemParameters, &w.sys), 1 => trip!(amacs::Keypair, &w.key), 2 => trip!(issuer::SignalIssuer, &w.iss), 3 => trip!(issuer::IssuerParameters, &w.par),
                4 => trip!(credential::SignalCredentialIssuance, &w.cred), 5 => trip!(credential::SignalCredentialPresentation, &w.pres), 6 => trip!(credential::VerifiedSignalCredential, &w.pres),
                7 => trip!(user::SignalUser, &w.user), 8 => trip!(phone_number::RosterEntryCommitment, &w.entry), _ => trip!(phone_number::CommittedPhoneNumber, &w.entry[..32]),
            }
            Ok(())
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    guard::setup();
    let ws = vec![world(0), world(1)];
    let mut cs = vec![];
    for f in HAS.iter() {
        let kinds = FUNCTIONS[*f].1;
        for (i, k) in kinds.iter().enumerate() {
            if plain(*k) { for n in 0..140 { for b in &[0u8, 1, 255] { cs.push(Case::Lens(*f, i, n, *b)); } } }
            else { for s in menu(ws[0].get(*k), thorough) { cs.push(Case::One(*f, i, s)); } }
        }
        for m in 0..1 << kinds.len() { cs.push(Case::Cross(*f, m)); }
    }
    for m in 0..1 << 9 { cs.push(Case::Mixed(m)); }
    for m in 0..16 { cs.push(Case::Roster(m)); }
    for n in 1..=26 { for p in 0..PATTERNS { for r in 0..RELATIONS { cs.push(Case::Numbers(n, p, r)); } } }
    for k in 0..20 { cs.push(Case::Trip(k)); }
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    guard::watchdog();
    everywhere(&|| loop {
        let k = next.fetch_add(1, Ordering::Relaxed);
        if k >= cs.len() || out.lock().unwrap().len() >= 20 { break; }
        let text = match &cs[k] { Case::One(_, _, s) => s.as_bytes(), _ => &[] };
        guard::note("a JavaScript value", text);
        let r = catch_unwind(AssertUnwindSafe(|| run(&ws, &cs[k]))).unwrap_or_else(|e| Err(format!("panics: {}", panic_text(e))));
        if let Err(e) = r { out.lock().unwrap().push((k, e)); }
    });
    let mut r = Report::default();
    for (k, e) in out.into_inner().unwrap() { let mut d = describe(&cs[k]); if d.len() > 500 { d.truncate((0..=500).rev().find(|i| d.is_char_boundary(*i)).unwrap()); } r.violation(format!("{}: {}", d, e)); }
    r.evaluations = CALLS.load(Ordering::Relaxed) as u64; r.distinct = cs.len() as u64; r.transitions = r.evaluations;
    r.note(format!("{} cases, {} calls, {} of them successful", cs.len(), r.evaluations, GOOD.load(Ordering::Relaxed)));
    r.rule = "every assignment of the 9 steps to the JavaScript API or the library, every mix of two worlds' objects, every argument replaced by every entry of its menu (other JSON kinds, every shorter array, longer arrays, flipped bits, elements that are not bytes), seeds and numbers of length 0..139, numbers of every length and of three digit patterns with 14 numbers near each".into();
    for k in &[0, cs.len() / 2, cs.len() - 1] { let mut d = describe(&cs[*k]); d.truncate(200); r.samples.push(d); }
    r.finish(&a[3], "js");
}
