//! Rust side of the simulation runtime (see rt/simrt.c).
use crate::rng::Rng;
use serde_json::{json, Value};

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimCfg {
    pub seed_sched: u64,
    pub seed_fault: u64,
    pub seed_entropy: u64,
    pub q_mean: u64,
    pub step_limit: u64,
    pub ns_per_step: u64,
    pub policy: u32,
    pub p_sync: u32,
    pub p_spur: u32,
    pub p_clock: u32,
    pub p_rnd_eintr: u32,
    pub p_rnd_short: u32,
    pub rnd_mode: u32,
    pub replay: u32,
    pub rnd_fail_at: u64,
    pub rnd_fail_len: u64,
    pub rnd_errno: u32,
    pub fd: i32,
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimStats {
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preempts: u64,
    pub sync_points: u64,
    pub order_hash: u64,
    pub log_hash: u64,
    pub threads: u64,
    pub spur: u64,
    pub clock_jumps: u64,
    pub rnd_calls: u64,
    pub rnd_eintr: u64,
    pub rnd_short: u64,
    pub rnd_fail: u64,
    pub rnd_fallback: u64,
    pub fut_eintr: u64,
    pub starve_windows: u64,
    pub nev: u64,
    pub timeouts: u64,
    pub max_runnable: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Ev {
    pub step: u64,
    pub ty: u32,
    pub arg: u32,
    pub val: u64,
}
extern "C" {
    fn sim_start(cfg: *const SimCfg, rv: *const Ev, n: u64);
    fn sim_stop(out: *mut SimStats);
    fn sim_peek(out: *mut SimStats);
    fn sim_events(n: *mut u64) -> *const Ev;
    fn sim_active() -> i32;
    fn sim_tid() -> u64;
    fn sim_set_rnd_fail(at: u64, len: u64, err: u32);
    fn sim_set_step_limit(rel: u64);
}
pub fn start(cfg: &SimCfg, rv: &[Ev]) {
    unsafe { sim_start(cfg, rv.as_ptr(), rv.len() as u64) }
}
pub fn stop() -> SimStats {
    let mut s = SimStats::default();
    unsafe { sim_stop(&mut s) };
    s
}
pub fn peek() -> SimStats {
    let mut s = SimStats::default();
    unsafe { sim_peek(&mut s) };
    s
}
pub fn events() -> Vec<Ev> {
    unsafe {
        let mut n = 0;
        let p = sim_events(&mut n);
        if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n as usize).to_vec() }
    }
}
pub fn active() -> bool {
    unsafe { sim_active() != 0 }
}
pub fn tid() -> u64 {
    unsafe { sim_tid() }
}
/// The entropy source fails from the `at`-th call from now on (1 = the next), `len` times (0 = for good).
pub fn set_rnd_fail(at: u64, len: u64, err: u32) {
    unsafe { sim_set_rnd_fail(at, len, err) }
}
pub fn set_step_limit(rel: u64) {
    unsafe { sim_set_step_limit(rel) }
}

/// Everything that determines a run's schedule and faults.
#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub seed: u64,
    pub workers: u64,
    pub policy: u32,
    pub q_mean: u64,
    pub p_sync: u32,
    pub p_spur: u32,
    pub p_clock: u32,
    pub p_rnd_eintr: u32,
    pub p_rnd_short: u32,
    pub rnd_mode: u32,
    pub step_limit: u64,
    /// another entropy stream under the same schedule
    pub entropy_salt: u64,
    /// this simulated process's decisions are the ones a minimised replay lists
    pub record: bool,
    /// explicit decision list (minimised replays); None = decide by seed
    pub events: Option<Vec<Ev>>,
}
impl Sched {
    pub fn plain(seed: u64) -> Sched {
        Sched { seed, workers: 1, policy: 0, q_mean: 1 << 22, step_limit: 10_000_000_000, ..Default::default() }
    }
    /// Swarm: every run draws its own mix.
    pub fn swarm(r: &mut Rng) -> Sched {
        let mut s = Sched::plain(r.next());
        s.workers = *r.pick(&[1, 2, 2, 3, 4, 4, 6, 8, 16]);
        s.policy = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]);
        s.q_mean = 1 << r.range(13, 23);
        if s.policy == 3 && s.q_mean < 1 << 16 { s.q_mean <<= 4; }
        s.p_sync = *r.pick(&[0, 20_000, 200_000, 500_000]);
        s.p_spur = *r.pick(&[0, 0, 2_000, 30_000]);
        s.p_clock = *r.pick(&[0, 0, 500, 5_000]);
        s.p_rnd_eintr = *r.pick(&[0, 0, 20_000, 200_000]);
        s.p_rnd_short = *r.pick(&[0, 0, 20_000, 200_000]);
        s.rnd_mode = (r.below(8) == 0) as u32;
        s
    }
    pub fn cfg(&self, fd: i32) -> SimCfg {
        let mut r = Rng::new(self.seed ^ 0x5eed_5eed);
        SimCfg {
            seed_sched: r.next(),
            seed_fault: r.next(),
            seed_entropy: r.next() ^ crate::rng::mix(self.entropy_salt, 0x5a17).wrapping_mul((self.entropy_salt != 0) as u64),
            q_mean: self.q_mean,
            step_limit: self.step_limit,
            ns_per_step: 1,
            policy: self.policy,
            p_sync: self.p_sync,
            p_spur: self.p_spur,
            p_clock: self.p_clock,
            p_rnd_eintr: self.p_rnd_eintr,
            p_rnd_short: self.p_rnd_short,
            rnd_mode: self.rnd_mode,
            replay: self.events.is_some() as u32,
            rnd_fail_at: 0,
            rnd_fail_len: 0,
            rnd_errno: 5,
            fd,
        }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "seed": self.seed, "workers": self.workers, "policy": self.policy, "q_mean": self.q_mean,
            "p_sync": self.p_sync, "p_spur": self.p_spur, "p_clock": self.p_clock,
            "p_rnd_eintr": self.p_rnd_eintr, "p_rnd_short": self.p_rnd_short, "rnd_mode": self.rnd_mode,
            "step_limit": self.step_limit, "entropy_salt": self.entropy_salt,
            "events": self.events.as_ref().map(|v| v.iter().map(|e| json!([e.step, e.ty, e.arg, e.val])).collect::<Vec<_>>()),
        })
    }
    pub fn from_json(v: &Value) -> Sched {
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        Sched {
            seed: u("seed"), workers: u("workers"), policy: u("policy") as u32, q_mean: u("q_mean"),
            p_sync: u("p_sync") as u32, p_spur: u("p_spur") as u32, p_clock: u("p_clock") as u32,
            p_rnd_eintr: u("p_rnd_eintr") as u32, p_rnd_short: u("p_rnd_short") as u32, rnd_mode: u("rnd_mode") as u32,
            step_limit: u("step_limit"), entropy_salt: u("entropy_salt"), record: false,
            events: v["events"].as_array().map(|a| {
                a.iter().map(|e| Ev { step: e[0].as_u64().unwrap(), ty: e[1].as_u64().unwrap() as u32, arg: e[2].as_u64().unwrap() as u32, val: e[3].as_u64().unwrap() }).collect()
            }),
        }
    }
}
