//! Per-run recorder. One simulated thread runs at a time and the harness is not instrumented, so a
//! plain global is enough (and recording never changes the schedule).
use crate::rng::mix;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identity of the violation: what minimisation and known findings go by
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), msg })
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub keys: Vec<u64>,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub log: u64,
    pub trace: Vec<String>,
    pub known: Vec<String>,
    pub tracing: bool,
    /// scheduler statistics of the simulated processes started by this run
    pub proc_stats: Vec<Value>,
    pub proc_events: Option<Value>,
}
static mut CTX: Option<Ctx> = None;
pub fn ctx() -> &'static mut Ctx {
    unsafe { CTX.get_or_insert_with(Default::default) }
}
pub fn reset() {
    unsafe { CTX = Some(Default::default()) }
}
/// One oracle evaluation on one case; `key` identifies the case, `nontrivial` says whether it counts.
pub fn eval(key: u64, nontrivial: bool) {
    let c = ctx();
    c.evals += 1;
    if nontrivial {
        c.keys.push(key);
    }
}
pub fn probe(name: &str) {
    *ctx().probes.entry(name.to_string()).or_insert(0) += 1;
}
pub fn fault(name: &str) {
    *ctx().faults.entry(name.to_string()).or_insert(0) += 1;
}
pub fn log(x: u64) {
    ctx().log = mix(ctx().log, x);
}
pub fn trace<F: FnOnce() -> String>(f: F) {
    let c = ctx();
    if c.tracing || c.trace.len() < 40 {
        let s = f();
        c.trace.push(s);
    }
}
pub fn sample(s: String) {
    let c = ctx();
    if c.samples.len() < 2 {
        c.samples.push(s);
    }
}
impl Ctx {
    pub fn to_json(&self) -> Value {
        json!({"evals": self.evals, "keys": self.keys, "probes": self.probes, "faults": self.faults,
               "samples": self.samples, "log": self.log, "trace": self.trace, "known": self.known})
    }
    pub fn absorb(&mut self, v: &Value) {
        self.evals += v["evals"].as_u64().unwrap_or(0);
        if let Some(a) = v["keys"].as_array() { self.keys.extend(a.iter().filter_map(|x| x.as_u64())); }
        for (f, m) in &mut [("probes", &mut self.probes), ("faults", &mut self.faults)] {
            if let Some(o) = v[*f].as_object() {
                for (k, n) in o { *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); }
            }
        }
        self.log = mix(self.log, v["log"].as_u64().unwrap_or(0));
        if let Some(a) = v["trace"].as_array() { self.trace.extend(a.iter().filter_map(|x| x.as_str().map(|s| s.to_string()))); }
        if let Some(a) = v["known"].as_array() { self.known.extend(a.iter().filter_map(|x| x.as_str().map(|s| s.to_string()))); }
        if let Some(a) = v["samples"].as_array() { for x in a { if self.samples.len() < 2 { self.samples.push(x.as_str().unwrap_or("").to_string()) } } }
    }
}

static mut LAST_PANIC: Option<String> = None;
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = Some(format!("{} at {}", m, loc)) };
    }));
}
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone().unwrap_or_default() }
}
/// Runs code under test; a panic becomes an Err with its message.
pub fn sut<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}
/// Runs code under test that must not panic here.
pub fn must<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, Viol> {
    sut(f).map_err(|m| Viol { class: format!("{}-panicked", what), msg: format!("{} panicked: {}", what, m) })
}
