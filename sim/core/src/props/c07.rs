//! C07: keys and proofs on a simulated disk that loses, tears, truncates and corrupts writes.
use super::c01::{prove, verify};
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;
use std::collections::BTreeSet;
use std::io::{Error, ErrorKind, Read, Write};

/// One file: what is on the platter, and what the page cache holds.
#[derive(Clone, Default)]
struct File { durable: Vec<u8>, cache: Vec<u8>, dirty: BTreeSet<usize> }
impl File {
    fn with(b: &[u8]) -> File { File { durable: b.to_vec(), cache: b.to_vec(), dirty: BTreeSet::new() } }
    fn fsync(&mut self) { self.durable = self.cache.clone(); self.dirty.clear(); }
    /// power is lost: each dirty sector reaches the platter or not, possibly torn; the length is old, new or in between
    fn crash(&mut self, sector: usize, r: &mut Rng) -> u64 {
        let p = *r.pick(&[0u64, 20, 50, 80, 100]);
        let mut lost = 0;
        let len = match r.below(4) { 0 => self.durable.len(), 1 => self.cache.len(), 2 => self.durable.len().max(self.cache.len()), _ => { let (a, b) = (self.durable.len().min(self.cache.len()), self.durable.len().max(self.cache.len())); a + r.usize(b - a + 1) } };
        let mut d = self.durable.clone();
        d.resize(len.max(self.cache.len()), if r.chance(1, 2) { 0 } else { 0xff });
        for &s in &self.dirty {
            let (a, b) = (s * sector, ((s + 1) * sector).min(self.cache.len()));
            if a >= b { continue; }
            if r.below(100) < p {
                let e = if r.chance(1, 6) { a + r.usize(b - a + 1) } else { b };
                d[a..e].copy_from_slice(&self.cache[a..e]);
                if e != b { lost += 1 }
            } else { lost += 1 }
        }
        d.truncate(len);
        self.durable = d.clone();
        self.cache = d;
        self.dirty.clear();
        lost
    }
}
/// A file being written or read through a faulty layer.
struct Io<'a> { f: &'a mut File, pos: usize, sector: usize, r: Rng, short: u64, eintr: u64, fail_at: Option<usize>, calls: u64, row: u64, faults: u64 }
impl<'a> Io<'a> {
    fn new(f: &'a mut File, sector: usize, r: &mut Rng, fail_at: Option<usize>) -> Io<'a> {
        Io { f, pos: 0, sector, r: Rng::new(r.next()), short: *r.pick(&[0, 30, 90]), eintr: *r.pick(&[0, 10, 50]), fail_at, calls: 0, row: 0, faults: 0 }
    }
    fn amount(&mut self, want: usize) -> Result<usize, Error> {
        self.calls += 1;
        if self.calls > 5_000_000 { panic!("file used without end") }
        if self.row < 20 && self.r.below(100) < self.eintr { self.row += 1; self.faults += 1; return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR")); }
        self.row = 0;
        let mut n = want;
        if n > 1 && self.r.below(100) < self.short { n = 1 + self.r.usize(n - 1); self.faults += 1; }
        if let Some(at) = self.fail_at {
            if self.pos >= at { return Err(Error::new(ErrorKind::Other, "simulated disk error")); }
            n = n.min(at - self.pos);
        }
        Ok(n)
    }
}
impl<'a> Write for Io<'a> {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        let n = self.amount(b.len())?;
        let e = self.pos + n;
        if self.f.cache.len() < e { self.f.cache.resize(e, 0); }
        self.f.cache[self.pos..e].copy_from_slice(&b[..n]);
        for s in self.pos / self.sector..=(e.max(1) - 1) / self.sector { self.f.dirty.insert(s); }
        self.pos = e;
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}
impl<'a> Read for Io<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, Error> {
        let left = self.f.cache.len() - self.pos;
        let n = self.amount(b.len().min(left))?;
        b[..n].copy_from_slice(&self.f.cache[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// one instance for every kind of reader keeps the harness small
fn read_from<T: serde::de::DeserializeOwned>(r: &mut dyn std::io::Read) -> Result<T, serde_cbor::Error> { serde_cbor::from_reader(r) }
fn load<T: serde::de::DeserializeOwned>(b: &[u8], how: u64) -> Result<Option<T>, ctx::Viol> {
    let b = b.to_vec();
    Ok(must("loading", move || if how % 2 == 0 { serde_cbor::from_slice(&b).ok() } else { read_from(&mut &b[..]).ok() })?)
}
/// what a key means, without its caches
fn core<C: HaloCurve>(k: &VerificationKey<C>) -> String {
    format!("{:?} {:?} {} {} {} {}", k.c_constants.iter().map(|p| (p.zero, if p.zero { None } else { Some((p.x, p.y)) })).collect::<Vec<_>>(), k.c_s_sigmas.iter().map(|p| (p.zero, if p.zero { None } else { Some((p.x, p.y)) })).collect::<Vec<_>>(),
        k.degree, k.num_public_inputs, if k.num_public_inputs == 0 { 0 } else { k.num_gates_without_pis }, k.security_bits)
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "disk".into(), curve: idx % 4, sched: if r.chance(1, 8) { Sched::swarm(r) } else { Sched::plain(r.next()) }, ..Default::default() };
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 1, 1, 2, 3, 8, 9, 10]);
    prog::gen_steps(r, &mut p, n, npis, false, 0);
    p.set("old", *r.pick(&[0, 0, 1, 2]));
    p.set("blind", r.below(2));
    for _ in 0..if thorough { 600 } else { 300 } {
        let (op, w, s) = (*r.pick(&["store", "crash", "crash", "flip", "flip", "flip", "cut", "zero", "splice", "extend", "diskfull"]), r.below(8), r.next());
        p.step(op, &[w, s]);
    }
    p
}
pub fn run<C: HaloCurve + Default + PartialEq + Eq + serde::Serialize, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res
where VerificationKey<C>: serde::de::DeserializeOwned + serde::Serialize + PartialEq, Proof<C>: serde::de::DeserializeOwned + serde::Serialize + PartialEq {
    let b = must("build", || prog::build::<C, I>(&plan.steps))?;
    let mut vk = b.circuit.to_vk();
    let blind = plan.knob("blind") == 1;
    let setup = |m: String| -> Res { ctx::probe("exchange_impossible"); ctx::trace(|| m); Ok(()) };
    let w = match ctx::sut(|| b.circuit.generate_witness(b.partial())) { Ok(w) => w, Err(m) => return setup(m) };
    let mut old: Vec<OldProof<C>> = vec![];
    for _ in 0..plan.knob("old") {
        let p = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
        match verify::<C, I>(&b.pis, &p, &old, &vk, false) { Ok(Some(o)) => old.push(o), Ok(None) => {}, Err(m) => return setup(m) }
    }
    // two exchanges: what was stored before, and what replaces it
    let mut steps2 = plan.steps.clone();
    for s in steps2.iter_mut().filter(|s| s.op == "pi") { s.a = vec![mix(s.arg(0), 7) | 999]; }
    steps2.retain(|s| s.op != "const");
    let b2 = must("build", || prog::build::<C, I>(&steps2))?;
    let w2 = match ctx::sut(|| b2.circuit.generate_witness(b2.partial())) { Ok(w) => w, Err(m) => return setup(m) };
    let vk2 = b2.circuit.to_vk();
    let pa = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
    let pb = match prove::<C, I>(&b.circuit, &w, &[], blind) { Ok(p) => p, Err(m) => return setup(m) };
    if let Err(m) = verify::<C, I>(&b.pis, &pa, &old, &vk, false) { return setup(m); }
    if let Err(m) = verify::<C, I>(&b.pis, &pb, &[], &vk, false) { return setup(m); }
    let _ = w2;
    let full = vk.clone();
    vk.clear_msm_precomputation();
    let medium = vk.clone();
    vk.clear_all();
    let small = vk.clone();
    let (mut small2, mut medium2) = (vk2.clone(), vk2.clone());
    small2.clear_all();
    medium2.clear_msm_precomputation();
    ctx::sample(format!("curve {} {} old {}", plan.curve, prog::describe(&b), old.len()));
    let mut evals = 0u64;
    for st in plan.steps.iter().filter(|s| ["store", "crash", "flip", "cut", "zero", "splice", "extend", "diskfull"].contains(&s.op.as_str())) {
        let mut r = Rng::new(st.arg(1));
        let key = mix(mix(hash_str(&st.op), st.arg(1)), st.arg(0));
        if st.arg(0) < 5 {
            let accepted = |p: &Proof<C>| verify::<C, I>(&b.pis, p, &old, &small, false).is_ok() || verify::<C, I>(&b.pis, p, &[], &small, false).is_ok();
            trial(st.op.as_str(), &mut r, &pa, &pb, |x| format!("{:?}", x), |x, what| {
                if accepted(x) { return viol("different-proof-accepted", format!("{}: what was loaded is neither the old nor the new proof, and the verifier accepts it", what)); }
                ctx::probe("altered_proof_refused");
                Ok(())
            })?;
        } else {
            let (x, y) = match st.arg(0) { 5 => (&medium, &medium2), 6 if r.chance(1, 8) => (&full, &medium2), _ => (&small, &small2) };
            let (cx, cy) = (core(x), core(y));
            trial(st.op.as_str(), &mut r, x, y, |k| format!("{:?} {:?} {:?}", core(k), k.fft_precomputation, k.num_gates_without_pis), |k, what| {
                let ck = core(k);
                let res = verify::<C, I>(&b.pis, &pa, &old, k, false);
                if ck != cx && ck != cy && res.is_ok() { return viol("different-key-accepts", format!("{}: a key that was never stored accepts the proof", what)); }
                if !b.pis.is_empty() {
                    let mut q = b.pis.clone();
                    q[0] = q[0] + C::ScalarField::ONE;
                    if verify::<C, I>(&q, &pa, &old, k, false).is_ok() { return viol("different-key-accepts", format!("{}: a corrupted key accepts other public inputs", what)); }
                }
                ctx::probe("altered_key_tried");
                Ok(())
            })?;
        }
        evals += 1;
        ctx::eval(key, true);
    }
    // a durably stored pair still verifies
    let (pe, ke) = (must("storing", || serde_cbor::to_vec(&pa).unwrap())?, must("storing", || serde_cbor::to_vec(&full).unwrap())?);
    if let (Some(p), Some(k)) = (load::<Proof<C>>(&pe, plan.sched.seed)?, load::<VerificationKey<C>>(&ke, plan.sched.seed / 2)?) {
        if k != full { return viol("load-differs", "the key read back differs".into()); }
        let vg = plan.sched.seed % 4 == 0;
        if let Err(m) = verify::<C, I>(&b.pis, &p, &old, &k, vg) { return viol("stored-pair-refused", m); }
        ctx::probe("stored_pair_verifies");
    } else { return viol("load-failed", "a durably stored key or proof cannot be loaded".into()); }
    // a loaded key proves nothing by itself: an altered statement is still refused, a loaded old accumulator still works
    ctx::log(evals);
    Ok(())
}
/// One life of a file that holds `old` and is being overwritten by `new`.
fn trial<T, S, J>(op: &str, r: &mut Rng, old: &T, new: &T, show: S, judge: J) -> Res
where T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Clone, S: Fn(&T) -> String, J: Fn(&T, &str) -> Res {
    let (eo, en) = (must("storing", || serde_cbor::to_vec(old).unwrap())?, must("storing", || serde_cbor::to_vec(new).unwrap())?);
    let how = r.next();
    let sector = *r.pick(&[16usize, 64, 512, 512, 4096]);
    // the verdict on what a restart finds
    let judge_bytes = |bytes: &[u8], what: &str, must_be: Option<&T>| -> Res {
        let l: Option<T> = load(bytes, how)?;
        match (l, must_be) {
            (None, Some(_)) => viol("load-failed", format!("{}: complete bytes cannot be loaded", what)),
            (Some(x), Some(m)) => if &x == m && show(&x) == show(m) { Ok(()) } else { viol("load-differs", format!("{}: the value read back differs", what)) },
            (None, None) => { ctx::probe("refused_on_load"); Ok(()) }
            (Some(x), None) => {
                if (&x == old && show(&x) == show(old)) || (&x == new && show(&x) == show(new)) { ctx::probe("complete_value_after_fault"); return Ok(()); }
                judge(&x, what)
            }
        }
    };
    match op {
        "store" => {
            let mut f = File::with(&eo);
            f.cache.clear();
            let mut io = Io::new(&mut f, sector, r, None);
            let res = must("storing", || serde_cbor::to_writer(&mut io, new))?;
            let nf = io.faults;
            if let Err(e) = res { return viol("store-failed", format!("storing through short and interrupted writes failed: {}", e)); }
            if nf > 0 { ctx::fault("short_or_interrupted_write") }
            if f.cache != en { return viol("stored-bytes", "short writes changed the stored bytes".into()); }
            f.fsync();
            f.crash(sector, r);
            ctx::fault("crash_after_sync");
            // restart; read through short and interrupted reads
            let mut io = Io::new(&mut f, sector, r, None);
            let l: Result<T, _> = must("loading", || read_from(&mut io))?;
            if io.faults > 0 { ctx::fault("short_or_interrupted_read") }
            match l {
                Ok(x) if &x == new && show(&x) == show(new) => { if must("storing", || serde_cbor::to_vec(&x).unwrap())? != en { return viol("load-differs", "the loaded value is stored as other bytes".into()); } }
                Ok(_) => return viol("load-differs", "a durably stored value reads back differently".into()),
                Err(e) => return viol("load-failed", format!("a durably stored value cannot be loaded: {}", e)),
            }
            judge_bytes(&f.durable, "after sync and crash", Some(new))?;
            ctx::probe("durable_roundtrip");
        }
        "crash" => {
            // overwritten in place (0), or written beside and renamed (1)
            let proto = r.below(2);
            let at = if r.chance(1, 4) { None } else { Some(r.usize(en.len() + 1)) };
            let mut f = File::with(&eo);
            let mut side = File::default();
            if proto == 0 && r.chance(1, 2) { f.cache.clear(); }
            let target = if proto == 0 { &mut f } else { &mut side };
            let mut io = Io::new(target, sector, r, at);
            let res = must("storing", || serde_cbor::to_writer(&mut io, new))?;
            if at.map(|a| a < en.len()).unwrap_or(false) == res.is_ok() { return viol("store-to-broken-disk", format!("disk fails at byte {:?} of {}, storing says ok={}", at, en.len(), res.is_ok())); }
            if res.is_ok() && proto == 0 && f.cache.len() > en.len() { f.cache.truncate(en.len()); }
            let synced = res.is_ok() && r.chance(1, 3);
            if synced { if proto == 0 { f.fsync() } else { side.fsync() } }
            ctx::fault("crash_while_storing");
            let lost = if proto == 0 { f.crash(sector, r) } else { side.crash(sector, r) };
            if lost > 0 { ctx::fault("lost_or_torn_sector") }
            if synced { return judge_bytes(if proto == 0 { &f.durable } else { &side.durable }, "crash after sync", Some(new)); }
            judge_bytes(&f.durable, "in-place file after a crash", if proto == 1 { Some(old) } else { None })?;
            if proto == 1 { judge_bytes(&side.durable, "half-written side file", None)?; }
        }
        "diskfull" => {
            let at = r.usize(en.len());
            let mut f = File::default();
            let mut io = Io::new(&mut f, sector, r, Some(at));
            if must("storing", || serde_cbor::to_writer(&mut io, new))?.is_ok() { return viol("store-to-broken-disk", format!("disk full at byte {} of {} went unnoticed", at, en.len())); }
            ctx::fault("disk_full");
            let mut g = File::with(&en);
            let mut io = Io::new(&mut g, sector, r, Some(at));
            let l: Result<T, _> = must("loading", || read_from(&mut io))?;
            if l.is_ok() { return viol("value-from-broken-disk", format!("read error at byte {} of {} went unnoticed", at, en.len())); }
            ctx::fault("read_error");
        }
        "cut" => {
            let k = match r.below(3) { 0 => r.usize(en.len()), 1 => en.len() - 1 - r.usize(en.len().min(70)), _ => r.usize(en.len().min(70)) };
            ctx::fault("truncated");
            let l: Option<T> = load(&en[..k], how)?;
            if l.is_some() { return viol("truncated-loaded", format!("{} of {} bytes were loaded as a value", k, en.len())); }
            ctx::probe("refused_on_load");
        }
        "extend" => {
            let mut v = en.clone();
            let k = r.range(1, 20);
            for _ in 0..k { v.push(r.next() as u8); }
            ctx::fault("stale_tail");
            judge_bytes(&v, "stale bytes after the value", None)?;
        }
        "flip" => {
            let mut v = en.clone();
            let n = *r.pick(&[1, 1, 1, 1, 2, 3, 8]);
            for _ in 0..n { let i = if r.chance(1, 3) { r.usize(v.len().min(300)) } else { r.usize(v.len()) }; v[i] ^= if r.chance(2, 3) { 1 << r.below(8) } else { r.range(1, 256) as u8 }; }
            ctx::fault("bit_flip");
            judge_bytes(&v, &format!("{} flipped bytes", n), None)?;
        }
        "zero" => {
            let mut v = en.clone();
            let s = r.usize((v.len() + sector - 1) / sector) * sector;
            let e = (s + sector).min(v.len());
            let x = *r.pick(&[0u8, 0, 0xff]);
            for b in &mut v[s..e] { *b = x; }
            ctx::fault("zeroed_sector");
            judge_bytes(&v, "a zeroed sector", None)?;
        }
        _ => {
            // sectors of the old and the new value mixed, or moved
            let mut v = en.clone();
            let ns = (v.len() + sector - 1) / sector;
            for _ in 0..r.range(1, 4) {
                let (i, j) = (r.usize(ns), r.usize(ns));
                let src = if r.chance(1, 2) { &eo } else { &en };
                let (a, b) = (i * sector, j * sector);
                let l = sector.min(v.len() - a).min(src.len().saturating_sub(b));
                v[a..a + l].copy_from_slice(&src[b..b + l]);
            }
            ctx::fault("misplaced_sector");
            judge_bytes(&v, "sectors mixed up", None)?;
        }
    }
    ctx::probe(op);
    Ok(())
}
fn exec(plan: &Plan) -> Res { crate::leaf("C07", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C07", gen, exec, self_managed: false, quick_runs: 60, thorough_runs: 5000,
        rule: "one evaluation = one life of a stored proof or key on the simulated disk (store, fault, restart, load, verify what was loaded); distinct by fault, its place and the stored value",
        real: "Serialize/Deserialize of proofs, keys, points and fields; serde_cbor; verifier",
        stub: "the disk (page cache, sectors, crashes, corruption); scheduler, clock and entropy source",
        assumptions: &["caches inside a verification key may be lost or stale without changing what the key means", "CBOR carries no checksum: corrupted bytes may load as another value, which the verifier must refuse"],
        required_probes: &["durable_roundtrip", "stored_pair_verifies", "refused_on_load", "altered_proof_refused", "altered_key_tried", "crash", "cut", "flip", "zero", "splice", "extend", "diskfull"],
    }
}
