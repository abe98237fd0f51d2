//! Parent process: forks one child per run, collects results, minimises and reports violations,
//! writes evidence.
use crate::ctx::{self, Viol};
use crate::plan::Plan;
use crate::rng::{hash_str, mix, Rng};
use crate::rt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> Plan,
    pub exec: fn(&Plan) -> ctx::Res,
    /// the scenario starts the simulation itself (several simulated processes)
    pub self_managed: bool,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// operation kinds dropped first when minimising keep their relative order; nothing to configure
    pub required_probes: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub v: Value,
    pub viol: Option<(String, String)>,
}

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            let e = std::io::Error::last_os_error().raw_os_error();
            if e == Some(libc::EINTR) { continue; }
            break;
        }
        b = &b[n as usize..];
    }
}

fn child_main(sc: &Scenario, plan: &Plan, fd: i32, want_events: bool) -> ! {
    std::env::set_var("RAYON_NUM_THREADS", plan.sched.workers.max(1).to_string());
    ctx::reset();
    ctx::ctx().tracing = want_events;
    ctx::quiet_panics();
    if !sc.self_managed {
        rt::start(&plan.sched.cfg(fd), plan.sched.events.as_deref().unwrap_or(&[]));
    }
    let r = catch_unwind(AssertUnwindSafe(|| (sc.exec)(plan)));
    let st = rt::stop();
    let mut stats = stats_json(&st);
    for p in ctx::ctx().proc_stats.drain(..) { stats = add_stats(&stats, &p); }
    let viol = match r {
        Ok(Ok(())) => Value::Null,
        Ok(Err(Viol { class, msg })) => json!([class, msg]),
        Err(_) => json!(["panic", ctx::last_panic()]),
    };
    let mut out = ctx::ctx().to_json();
    out["viol"] = viol;
    out["stats"] = stats;
    if want_events {
        out["events"] = if sc.self_managed { ctx::ctx().proc_events.take().unwrap_or(Value::Null) } else { events_json() };
    }
    let mut s = serde_json::to_vec(&out).unwrap();
    s.push(b'\n');
    write_all(fd, &s);
    unsafe { libc::_exit(0) }
}
fn events_json() -> Value { json!(rt::events().iter().map(|e| json!([e.step, e.ty, e.arg, e.val])).collect::<Vec<_>>()) }
pub fn stats_json(st: &rt::SimStats) -> Value {
    json!({"steps": st.steps, "sim_ns": st.sim_ns, "switches": st.switches, "preempts": st.preempts, "sync_points": st.sync_points,
        "order_hash": st.order_hash, "log_hash": st.log_hash, "threads": st.threads, "max_runnable": st.max_runnable, "timeouts": st.timeouts,
        "f": {"spurious_wakeup": st.spur, "clock_jump": st.clock_jumps, "entropy_eintr": st.rnd_eintr, "entropy_short_read": st.rnd_short,
              "entropy_failure": st.rnd_fail, "entropy_getrandom_missing": st.rnd_fallback, "futex_eintr": st.fut_eintr, "thread_starved": st.starve_windows},
        "rnd_calls": st.rnd_calls})
}

fn add_stats(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut m = serde_json::Map::new();
            for (k, v) in x {
                let w = y.get(k).cloned().unwrap_or(Value::Null);
                let r = if k.ends_with("_hash") { json!(mix(v.as_u64().unwrap_or(0), w.as_u64().unwrap_or(0))) }
                    else if k == "max_runnable" { json!(v.as_u64().unwrap_or(0).max(w.as_u64().unwrap_or(0))) }
                    else { add_stats(v, &w) };
                m.insert(k.clone(), r);
            }
            Value::Object(m)
        }
        _ => json!(a.as_u64().unwrap_or(0) + b.as_u64().unwrap_or(0)),
    }
}

/// Runs each job as a simulated process of its own (own address space, schedule, clock and entropy)
/// and returns what they hand back. For scenarios with `self_managed`.
pub fn procs(jobs: Vec<(rt::Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>)>) -> Result<Vec<Value>, Viol> {
    let mut res = vec![];
    for (i, (sched, job)) in jobs.iter().enumerate() {
        let mut p = [0i32; 2];
        let tracing = ctx::ctx().tracing;
        let pid = unsafe { assert_eq!(libc::pipe(p.as_mut_ptr()), 0); libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe { libc::close(p[0]); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            std::env::set_var("RAYON_NUM_THREADS", sched.workers.max(1).to_string());
            ctx::reset();
            ctx::ctx().tracing = tracing;
            ctx::quiet_panics();
            rt::start(&sched.cfg(p[1]), sched.events.as_deref().unwrap_or(&[]));
            let r = catch_unwind(AssertUnwindSafe(|| job()));
            let st = rt::stop();
            let mut out = ctx::ctx().to_json();
            out["stats"] = stats_json(&st);
            if tracing && sched.record { out["events"] = events_json(); }
            match r {
                Ok(Ok(v)) => out["payload"] = v,
                Ok(Err(Viol { class, msg })) => out["viol"] = json!([class, msg]),
                Err(_) => out["viol"] = json!(["panic", ctx::last_panic()]),
            }
            let mut s = serde_json::to_vec(&out).unwrap();
            s.push(b'\n');
            write_all(p[1], &s);
            unsafe { libc::_exit(0) }
        }
        let mut buf = vec![];
        unsafe {
            libc::close(p[1]);
            let mut b = vec![0u8; 1 << 16];
            loop {
                let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len());
                if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) { continue; }
                if n <= 0 { break; }
                buf.extend_from_slice(&b[..n as usize]);
            }
            libc::close(p[0]);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0); }
        let text = String::from_utf8_lossy(&buf).to_string();
        if let Some(l) = text.lines().find(|l| l.starts_with("FATAL ")) { return ctx::viol(l.split(' ').nth(1).unwrap_or(""), format!("process {}: {}", i, l)); }
        let v: Value = match text.lines().next().and_then(|l| serde_json::from_str(l).ok()) {
            Some(v) => v,
            None => return ctx::viol("crash", format!("process {} ended with wait status {}", i, st)),
        };
        ctx::ctx().absorb(&v);
        ctx::ctx().proc_stats.push(v["stats"].clone());
        if v["events"].is_array() { ctx::ctx().proc_events = Some(v["events"].clone()); }
        if let Some(a) = v["viol"].as_array() { return ctx::viol(a[0].as_str().unwrap_or(""), format!("process {}: {}", i, a[1].as_str().unwrap_or(""))); }
        res.push(v["payload"].clone());
    }
    Ok(res)
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    start: Instant,
    tag: u64,
}
fn spawn(sc: &Scenario, plan: &Plan, tag: u64, want_events: bool) -> Child {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child_main(sc, plan, p[1], want_events);
        }
        libc::close(p[1]);
        Child { pid, fd: p[0], buf: vec![], start: Instant::now(), tag }
    }
}
fn finish(c: Child, timed_out: bool) -> Outcome {
    let mut st = 0;
    unsafe {
        if timed_out { libc::kill(c.pid, libc::SIGKILL); }
        libc::waitpid(c.pid, &mut st, 0);
        libc::close(c.fd);
    }
    let text = String::from_utf8_lossy(&c.buf).to_string();
    if let Some(l) = text.lines().find(|l| l.starts_with("FATAL ")) {
        let kind = l.split(' ').nth(1).unwrap_or("").to_string();
        return Outcome { v: json!({}), viol: Some((kind, l.to_string())) };
    }
    if timed_out {
        return Outcome { v: json!({}), viol: Some(("hang".into(), "no result within the wall-clock limit".into())) };
    }
    match text.lines().next().and_then(|l| serde_json::from_str::<Value>(l).ok()) {
        Some(v) => {
            let viol = v["viol"].as_array().map(|a| (a[0].as_str().unwrap_or("").to_string(), a[1].as_str().unwrap_or("").to_string()));
            Outcome { v, viol }
        }
        None => {
            let m = if libc::WIFSIGNALED(st) { format!("process killed by signal {}", libc::WTERMSIG(st)) } else { format!("process ended with status {}", libc::WEXITSTATUS(st)) };
            Outcome { v: json!({}), viol: Some(("crash".into(), m)) }
        }
    }
}

/// Runs jobs on up to `par` processes; `next` hands out (tag, plan), `done` gets each outcome and says whether to go on.
pub fn pool<N, D>(sc: &Scenario, par: usize, wall_per_run: Duration, want_events: bool, mut next: N, mut done: D)
where N: FnMut() -> Option<(u64, Plan)>, D: FnMut(u64, Outcome) -> bool,
{
    let mut live: Vec<Child> = vec![];
    let mut go = true;
    let mut grace: Option<Instant> = None;
    loop {
        while go && live.len() < par {
            match next() { Some((t, p)) => live.push(spawn(sc, &p, t, want_events)), None => break }
        }
        if live.is_empty() { return; }
        let mut fds: Vec<libc::pollfd> = live.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 500) };
        let mut ended = vec![];
        for (i, f) in fds.iter().enumerate() {
            if f.revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(f.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 { live[i].buf.extend_from_slice(&b[..n as usize]) } else { ended.push((i, false)) }
            } else if live[i].start.elapsed() > wall_per_run { ended.push((i, true)) }
            else if grace.map(|g| g.elapsed() > Duration::from_secs(20)).unwrap_or(false) {
                // a violation has been found already: do not wait for runs that may never end
                unsafe { libc::kill(live[i].pid, libc::SIGKILL); }
                let _ = finish(live.remove(i), true);
                break;
            }
        }
        for (i, to) in ended.into_iter().rev() {
            let c = live.remove(i);
            let tag = c.tag;
            if !done(tag, finish(c, to)) { go = false; grace.get_or_insert_with(Instant::now); }
        }
    }
}
pub fn run_one(sc: &Scenario, plan: &Plan, want_events: bool) -> Outcome { run_within(sc, plan, want_events, 200) }
fn run_within(sc: &Scenario, plan: &Plan, want_events: bool, secs: u64) -> Outcome {
    let mut job = Some(plan.clone());
    let mut out = None;
    pool(sc, 1, Duration::from_secs(secs), want_events, || job.take().map(|p| (0, p)), |_, o| { out = Some(o); true });
    out.unwrap()
}

pub fn ncpu() -> usize {
    let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) };
    (n.max(1) as usize).min(16)
}
pub fn root_dir() -> std::path::PathBuf {
    if let Ok(d) = std::env::var("SIM_ROOT") { return d.into(); }
    std::path::PathBuf::from("/verif")
}

pub struct Known { pub fixed: bool, pub prop: String, pub class: String, pub desc: String }
pub fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root_dir().join("known-findings.txt")) {
        for l in s.lines() {
            let fixed = l.starts_with("fixed:");
            if !(fixed || l.starts_with("finding:")) { continue; }
            let w: Vec<&str> = l.splitn(4, ' ').collect();
            if w.len() < 4 { continue; }
            v.push(Known { fixed, prop: w[1].trim_start_matches("property=").to_string(), class: w[2].to_string(), desc: w[3].to_string() });
        }
    }
    v
}

pub fn plan_for(sc: &Scenario, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, hash_str(sc.id)), idx));
    let mut p = (sc.gen)(&mut r, idx, thorough);
    p.prop = sc.id.to_string();
    p.seed = idx;
    p
}

pub fn check(sc: &Scenario, seed: u64, tier: &str, wall_cap: Duration) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("SIM_RUNS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let target = (((if thorough { sc.thorough_runs } else { sc.quick_runs }) as f64) * scale).ceil().max(1.0) as u64;
    let known = known_findings();
    let mut idx = 0u64;
    let mut agg = Agg::default();
    let mut first_viol: Option<(u64, (String, String))> = None;
    let mut redo: Vec<(u64, u64)> = vec![];
    println!("{}: seed {} tier {} up to {} runs on {} processes", sc.id, seed, tier, target, ncpu());
    let mut skipped = false;
    pool(sc, ncpu(), Duration::from_secs(200), false,
        || {
            if idx >= target { return None; }
            if t0.elapsed() > wall_cap { skipped = true; return None; }
            idx += 1;
            Some((idx - 1, plan_for(sc, seed, idx - 1, thorough)))
        },
        |tag, o| {
            if let Some(v) = &o.viol {
                if first_viol.as_ref().map(|f| tag < f.0).unwrap_or(true) { first_viol = Some((tag, v.clone())); }
                return false;
            }
            if tag % 16 == 0 { redo.push((tag, o.v["stats"]["log_hash"].as_u64().unwrap_or(0) ^ o.v["log"].as_u64().unwrap_or(0))); }
            agg.add(&o.v);
            true
        });
    // the same runs again, in fresh processes: one seed must be one execution
    let mut redo_ok = 0u64;
    let mut mismatches = vec![];
    if first_viol.is_none() {
        redo.sort();
        let lim = if thorough { 200 } else { 10 };
        redo.truncate(lim);
        let m: BTreeMap<u64, u64> = redo.iter().cloned().collect();
        let mut it = redo.clone().into_iter();
        pool(sc, ncpu(), Duration::from_secs(200), false,
            || it.next().map(|(t, _)| (t, plan_for(sc, seed, t, thorough))),
            |tag, o| {
                let h = o.v["stats"]["log_hash"].as_u64().unwrap_or(0) ^ o.v["log"].as_u64().unwrap_or(0);
                if h == m[&tag] { redo_ok += 1 } else { mismatches.push(tag) }
                true
            });
    }
    let wall = t0.elapsed().as_secs_f64();
    for k in &known {
        if k.prop == sc.id && !k.fixed && agg.known.contains(&k.class) {
            println!("KNOWN-FINDING: property={} {} {}", sc.id, k.class, k.desc);
        }
    }
    let unlisted: Vec<String> = agg.known.iter().filter(|c| !known.iter().any(|k| k.prop == sc.id && !k.fixed && &k.class == *c)).cloned().collect();
    if first_viol.is_none() && !unlisted.is_empty() {
        first_viol = agg.known_at.get(&unlisted[0]).map(|&i| (i, (unlisted[0].clone(), "a finding that known-findings.txt does not list".to_string())));
        if first_viol.is_none() { first_viol = Some((0, (unlisted[0].clone(), String::new()))); }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((tag, (class, msg))) = &first_viol {
        nviol = 1;
        code = 1;
        println!("run {} violates {}: [{}] {}", tag, sc.id, class, msg);
        let plan = plan_for(sc, seed, *tag, thorough);
        let path = report(sc, &plan, seed, class, msg);
        println!("VIOLATION property={} replay={}", sc.id, path);
    }
    let missing: Vec<&str> = sc.required_probes.iter().filter(|p| agg.probes.get(**p).cloned().unwrap_or(0) == 0).cloned().collect();
    if code == 0 && !missing.is_empty() { println!("note: probes never reached in this run: {:?}", missing); }
    let ev = agg.evidence(sc, seed, tier, wall, nviol, redo.len() as u64, &mismatches, redo_ok, skipped, &missing);
    let dir = root_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", sc.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} runs, {} evaluations, {} distinct interleavings, {:.1} s, {}", sc.id, agg.runs, agg.evals, agg.orders.len(), wall,
        if code == 0 { "no violation" } else { "VIOLATED" });
    if !mismatches.is_empty() { println!("WARNING: runs {:?} did not repeat exactly", mismatches); }
    code
}

#[derive(Default)]
struct Agg {
    runs: u64, evals: u64, keys: BTreeSet<u64>, orders: BTreeSet<u64>, logs: BTreeSet<u64>,
    steps: u64, max_steps: u64, sim_ns: u64, switches: u64, preempts: u64, syncs: u64, threads: u64, maxrun: u64, timeouts: u64,
    probes: BTreeMap<String, u64>, faults: BTreeMap<String, u64>, samples: Vec<String>,
    known: BTreeSet<String>, known_at: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, v: &Value) {
        self.runs += 1;
        self.evals += v["evals"].as_u64().unwrap_or(0);
        if let Some(a) = v["keys"].as_array() { self.keys.extend(a.iter().filter_map(|x| x.as_u64())); }
        let s = &v["stats"];
        let u = |k: &str| s[k].as_u64().unwrap_or(0);
        self.orders.insert(u("order_hash"));
        self.logs.insert(u("log_hash"));
        self.steps += u("steps"); self.max_steps = self.max_steps.max(u("steps")); self.sim_ns += u("sim_ns"); self.switches += u("switches"); self.preempts += u("preempts");
        self.syncs += u("sync_points"); self.threads += u("threads"); self.maxrun = self.maxrun.max(u("max_runnable")); self.timeouts += u("timeouts");
        if let Some(o) = s["f"].as_object() { for (k, n) in o { *self.faults.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); } }
        for (f, m) in &mut [("probes", &mut self.probes), ("faults", &mut self.faults)] {
            if let Some(o) = v[*f].as_object() { for (k, n) in o { *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); } }
        }
        if let Some(a) = v["samples"].as_array() { for x in a { if self.samples.len() < 6 { self.samples.push(x.as_str().unwrap_or("").to_string()) } } }
        if let Some(a) = v["known"].as_array() { for x in a { self.known.insert(x.as_str().unwrap_or("").to_string()); } }
    }
    fn evidence(&self, sc: &Scenario, seed: u64, tier: &str, wall: f64, nviol: u64, redone: u64, mism: &[u64], redo_ok: u64, skipped: bool, missing: &[&str]) -> Value {
        json!({
            "property": sc.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": (wall * 100.0).round() / 100.0, "violations": nviol,
            "assumptions": sc.assumptions,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.keys.len(), "rule": sc.rule, "samples": self.samples,
                "simulated_runs": self.runs, "runs_per_hour": (self.runs as f64 / wall * 3600.0).round(),
                "seeds_per_hour": (self.runs as f64 / wall * 3600.0).round(),
                "simulated_steps_basic_blocks": self.steps, "most_steps_in_one_run": self.max_steps, "simulated_time_s": self.sim_ns as f64 / 1e9,
                "context_switches": self.switches, "preemptions_inside_code": self.preempts, "synchronisation_points": self.syncs,
                "threads_simulated": self.threads, "max_threads_runnable_at_once": self.maxrun, "timers_fired": self.timeouts,
                "distinct_interleavings": self.orders.len(),
                "distinct_interleavings_measure": "hash of the whole sequence of (thread, synchronisation operation) pairs of a run",
                "distinct_executions": self.logs.len(),
                "faults_injected": self.faults, "probes": self.probes, "probes_at_zero": missing,
                "real_code": sc.real, "stubs": sc.stub,
                "determinism": {"runs_repeated_in_another_process": redone, "identical": redo_ok, "different": mism},
                "stopped_by_wall_cap": skipped,
            }
        })
    }
}

fn class_of(o: &Outcome, known_class: &str) -> Option<(String, String)> {
    if let Some(v) = &o.viol { return Some(v.clone()); }
    if let Some(a) = o.v["known"].as_array() { if a.iter().any(|x| x.as_str() == Some(known_class)) { return Some((known_class.to_string(), String::new())); } }
    None
}

/// Minimises and writes the replay file; returns its path.
fn report(sc: &Scenario, plan: &Plan, seed: u64, class: &str, msg: &str) -> String {
    let t0 = Instant::now();
    let budget = Duration::from_secs(std::env::var("SIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let mut best = plan.clone();
    let mut best_msg = msg.to_string();
    let mut tried = 0u64;
    // a run that hangs is given less time once it is known to
    let secs = if class == "hang" { 60 } else { 200 };
    let mut attempt = |cand: &Plan, best: &mut Plan, best_msg: &mut String| -> bool {
        if t0.elapsed() > budget { return false; }
        tried += 1;
        let o = run_within(sc, cand, false, secs);
        match class_of(&o, class) {
            Some((c, m)) if c == class => { *best = cand.clone(); *best_msg = m; true }
            _ => false,
        }
    };
    // 1. the simplest schedule: no pre-emption, no faults from the environment
    let mut c = best.clone();
    c.sched = rt::Sched { events: Some(vec![]), workers: 1, p_sync: 0, p_spur: 0, p_clock: 0, p_rnd_eintr: 0, p_rnd_short: 0, rnd_mode: 0, policy: 0, ..best.sched.clone() };
    let simple = attempt(&c, &mut best, &mut best_msg);
    if !simple {
        let fields: [fn(&mut rt::Sched); 8] = [|s| s.policy = 0, |s| s.workers = 1, |s| s.workers = 2, |s| s.p_spur = 0, |s| s.p_clock = 0,
            |s| { s.p_rnd_eintr = 0; s.p_rnd_short = 0 }, |s| s.rnd_mode = 0, |s| s.p_sync = 0];
        for f in fields.iter() { let mut c = best.clone(); f(&mut c.sched); attempt(&c, &mut best, &mut best_msg); }
    }
    // 2. fewer and simpler operations
    let mut chunk = (best.steps.len() + 1) / 2;
    while chunk >= 1 && !best.steps.is_empty() {
        let mut i = 0;
        while i < best.steps.len() {
            let mut c = best.clone();
            let e = (i + chunk).min(c.steps.len());
            c.steps.drain(i..e);
            if !attempt(&c, &mut best, &mut best_msg) { i += chunk; }
            if t0.elapsed() > budget { break; }
        }
        if chunk == 1 || t0.elapsed() > budget { break; }
        chunk /= 2;
    }
    for k in best.knobs.clone().keys() {
        if best.knobs[k] != 0 { let mut c = best.clone(); c.knobs.insert(k.clone(), 0); attempt(&c, &mut best, &mut best_msg); }
    }
    for i in 0..best.steps.len() {
        for j in 0..best.steps[i].a.len() {
            if best.steps[i].a[j] != 0 { let mut c = best.clone(); c.steps[i].a[j] = 0; attempt(&c, &mut best, &mut best_msg); }
        }
    }
    // 3. fewer scheduling decisions: make them explicit, then drop as many as possible
    if !simple {
        let o = run_within(sc, &best, true, secs);
        if let Some(a) = o.v["events"].as_array() {
            let evs: Vec<rt::Ev> = a.iter().map(|e| rt::Ev { step: e[0].as_u64().unwrap(), ty: e[1].as_u64().unwrap() as u32, arg: e[2].as_u64().unwrap() as u32, val: e[3].as_u64().unwrap() }).collect();
            let mut c = best.clone();
            c.sched.events = Some(evs);
            if attempt(&c, &mut best, &mut best_msg) {
                let mut chunk = best.sched.events.as_ref().unwrap().len() / 2 + 1;
                loop {
                    let mut i = 0;
                    while i < best.sched.events.as_ref().unwrap().len() && t0.elapsed() < budget {
                        let mut c = best.clone();
                        let v = c.sched.events.as_mut().unwrap();
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                        if !attempt(&c, &mut best, &mut best_msg) { i += chunk; }
                    }
                    if chunk == 1 || t0.elapsed() > budget { break; }
                    chunk /= 2;
                }
            }
        }
    }
    // the replay file must fail the same way in a fresh process
    let o = run_within(sc, &best, true, secs);
    let again = class_of(&o, class).map(|(c, _)| c == class).unwrap_or(false);
    let dir = root_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-run{}.json", sc.id, seed, plan.seed));
    let doc = json!({
        "property": sc.id, "verif_seed": seed, "run": plan.seed, "class": class, "message": best_msg,
        "replayed_identically": again, "minimisation_runs": tried,
        "schedule_decisions": best.sched.events.as_ref().map(|e| e.len()),
        "log_hash": o.v["stats"]["log_hash"], "plan": best.to_json(), "original_plan": plan.to_json(),
        "trace": o.v["trace"],
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
    println!("minimised with {} runs to {} operations{}: {}", tried, best.steps.len(),
        best.sched.events.as_ref().map(|e| format!(" and {} scheduling decisions", e.len())).unwrap_or_default(), best_msg);
    path.to_string_lossy().to_string()
}

pub fn replay(scs: &[Scenario], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let plan = Plan::from_json(&v["plan"]);
    let sc = scs.iter().find(|s| s.id == plan.prop).expect("property");
    let class = v["class"].as_str().unwrap_or("");
    let o = run_one(sc, &plan, true);
    if let Some(a) = o.v["trace"].as_array() { for l in a { println!("  {}", l.as_str().unwrap_or("")) } }
    match class_of(&o, class) {
        Some((c, m)) => {
            println!("[{}] {}", c, m);
            println!("same class: {}, same execution: {}", c == class, o.v["stats"]["log_hash"] == v["log_hash"]);
            println!("VIOLATION property={} replay={}", sc.id, path);
            1
        }
        None => { println!("no violation on replay"); 0 }
    }
}

/// Executes every run three times in separate processes and compares the full execution hashes.
pub fn determinism(sc: &Scenario, seed: u64, runs: u64) -> i32 {
    let mut seen: BTreeMap<u64, BTreeSet<String>> = BTreeMap::new();
    let mut idx = 0;
    pool(sc, ncpu(), Duration::from_secs(200), false,
        || { if idx >= runs * 3 { return None; } idx += 1; let t = (idx - 1) / 3; Some((t, plan_for(sc, seed, t, false))) },
        |tag, o| { seen.entry(tag).or_default().insert(format!("{} {} {} {:?}", o.v["stats"]["log_hash"], o.v["stats"]["order_hash"], o.v["log"], o.viol.map(|v| v.0))); true });
    let bad: Vec<_> = seen.iter().filter(|(_, s)| s.len() != 1).collect();
    let distinct: BTreeSet<_> = seen.values().flatten().collect();
    println!("{}: {} seeds x 3 processes, {} distinct executions, {} seeds not repeatable {:?}", sc.id, seen.len(), distinct.len(), bad.len(), bad.iter().take(5).collect::<Vec<_>>());
    (!bad.is_empty()) as i32
}
