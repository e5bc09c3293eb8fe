//! What a check found, written as JSON for the driver.
use explorer::{Stats, Violation};
use std::fmt::Write;

#[derive(Default)]
pub struct Report {
    pub parts: Vec<String>,
    pub violations: Vec<String>,
    pub samples: Vec<String>,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub validated: u64,
    pub evaluations: u64,
    pub distinct: u64,
    pub traces: String,
    pub rule: String,
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn describe(v: &Violation) -> String {
    format!("scenario={} ell={} dim={} baseline={} tape={:?}: {}", v.scenario, v.ell, v.dim, v.baseline, v.tape, v.msg)
}
impl Report {
    pub fn part(&mut self, name: &str, s: Stats, bounds: &str) {
        self.parts.push(format!("{}: {} executions, {} transitions, {} distinct final states, depth {}, {} choice points cut by the bound, {} executions cut by depth; {}",
            name, s.executions, s.transitions, s.states.len(), s.max_depth, s.truncated, s.too_deep, bounds));
        if s.capped { self.violations.push(format!("{}: exploration stopped early (execution cap or too many violations)", name)); }
        self.executions += s.executions;
        self.transitions += s.transitions;
        self.states += s.states.len() as u64;
        for v in s.violations.iter().take(3) { self.violations.push(describe(v)); }
        for x in s.samples.into_iter().take(1) { self.samples.push(x); }
        for t in s.traces.iter() {
            let _ = writeln!(self.traces, "{}\t{}\t{}", name,
                t.params.iter().map(|p| p.1.to_string()).collect::<Vec<_>>().join(","), t.outcome.join("|"));
        }
    }
    pub fn note(&mut self, s: String) { self.parts.push(s); }
    pub fn violation(&mut self, s: String) { if self.violations.len() < 20 { self.violations.push(s); } }
    pub fn json(&self) -> String {
        let list = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        format!("{{\"executions\":{},\"transitions\":{},\"states\":{},\"validated\":{},\"evaluations\":{},\"distinct\":{},\"parts\":{},\"violations\":{},\"samples\":{},\"findings\":[{}],\"rule\":{}}}\n",
            self.executions, self.transitions, self.states, self.validated, self.evaluations, self.distinct, list(&self.parts), list(&self.violations), list(&self.samples),
            explorer::findings().iter().map(|f| format!("[{},{}]", esc(&f.0), esc(&f.1))).collect::<Vec<_>>().join(","), esc(&self.rule))
    }
    /// Writes DIR/NAME.json (and DIR/traces.txt) and ends the process.
    pub fn finish(self, dir: &str, name: &str) -> ! {
        std::fs::write(format!("{}/{}.json", dir, name), self.json()).unwrap();
        if !self.traces.is_empty() { std::fs::write(format!("{}/traces.txt", dir), &self.traces).unwrap(); }
        std::process::exit(0)
    }
}
