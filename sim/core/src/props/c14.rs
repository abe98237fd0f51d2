//! C14: every operation ends within bounded work, whatever the schedule.
//! The operations run once in a simulated process of their own, one after the other on an idle machine, where
//! each has an absolute bound; then under an adverse schedule with several callers, nested parallelism and
//! faults, where all of them together may take a constant factor more and nothing may wait for ever.
use super::c01::{prove, verify};
use super::c02::{tamper, Msg};
use crate::ctx::{self, sut, viol, Res, Viol};
use crate::driver::{procs, Scenario};
use crate::plan::{Plan, Step};
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{self, Sched};
use plonky::*;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};

const OPS: &[&str] = &["round", "round", "malformed", "malformed", "graph", "graph", "deep", "hash", "perm", "fft", "poly", "msm", "curvehash", "pool", "pool", "join", "shapes", "bytes", "lookup"];

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "bounded".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let callers = *r.pick(&[1, 1, 2, 2, 3, 4, 6]);
    p.set("callers", callers);
    p.set("salt", r.next());
    p.set("first", r.below(2));
    p.set("inside", r.chance(1, 3) as u64);
    let n = callers.max(if thorough { r.range(2, 8) } else { r.range(2, 5) });
    for k in 0..n {
        let op = if k < callers && r.chance(1, 3) { *r.pick(&["pool", "hash", "perm", "join"]) } else { *r.pick(OPS) };
        let f = if r.chance(1, 4) { 1 + r.below(60) } else { 0 };
        p.step(op, &[k % callers, r.next(), r.next(), f]);
    }
    p
}
fn list<F: Field>(r: &mut Rng, n: usize) -> Vec<F> { (0..n).map(|_| F::from_canonical_u64(r.next() >> r.below(60))).collect() }
fn program(r: &mut Rng) -> Vec<Step> {
    let mut p = Plan::default();
    let n = if r.chance(1, 12) { r.range(20, 60) } else { r.range(0, 10) } as usize;
    let npis = *r.pick(&[0usize, 1, 2, 9, 10]);
    let (curve, hash) = (r.chance(1, 4), r.chance(1, 14) as usize);
    prog::gen_steps(r, &mut p, n, npis, curve, hash);
    p.steps
}
/// A caller's own generator: any dependencies, any results, its own wires among them.
struct Node<F: Field> { deps: Vec<Target<F>>, out: Vec<(Target<F>, F)> }
impl<F: Field> WitnessGenerator<F> for Node<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.deps.clone() }
    fn generate(&self, _: &[Vec<F>], _: &PartialWitness<F>) -> PartialWitness<F> {
        let mut r = PartialWitness::new();
        for &(t, v) in &self.out { r.set_target(t, v); }
        r
    }
}
fn honest<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(r: &mut Rng, old: u64) -> Result<(prog::Built<C>, Msg<C>), String> {
    let b = prog::build::<C, I>(&program(r));
    let vk = b.circuit.to_vk();
    let w = b.circuit.generate_witness(b.partial());
    let mut olds = vec![];
    let blind = r.chance(3, 4);
    for _ in 0..old {
        let p = prove::<C, I>(&b.circuit, &w, &olds, blind)?;
        if let Some(o) = verify::<C, I>(&b.pis, &p, &olds, &vk, false)? { olds.push(o) }
    }
    let proof = prove::<C, I>(&b.circuit, &w, &olds, blind)?;
    let pis = b.pis.clone();
    Ok((b, Msg { pis, proof, old: olds, vk }))
}
/// What the work may be measured against: rows of the circuits and elements handed over.
fn size<C: HaloCurve>(b: &prog::Built<C>) -> u64 { b.circuit.degree() as u64 }

/// One operation; returns the size of what it worked on.
fn call<C: HaloCurve + Default + serde::Serialize + serde::de::DeserializeOwned, I: HaloCurve<BaseField = C::ScalarField>>(s: &Step) -> u64 {
    let mut r = Rng::new(mix(s.arg(1), hash_str(&s.op)));
    let r = &mut r;
    match s.op.as_str() {
        "round" => {
            let old = r.below(8) / 6;
            match honest::<C, I>(r, old) {
                Ok((b, m)) => { let vg = r.chance(1, 2); let _ = verify::<C, I>(&m.pis, &m.proof, &m.old, &m.vk, vg); ctx::probe("round_done"); size(&b) * (1 + old) }
                Err(m) => { if m.starts_with("panic") { panic!("{}", m) } 64 }
            }
        }
        "malformed" => {
            let (b, m) = match honest::<C, I>(r, s.arg(2) % 4 / 3) { Ok(x) => x, Err(m) => panic!("{}", m) };
            let (b2, m2) = match honest::<C, I>(r, 0) { Ok(x) => x, Err(m) => panic!("{}", m) };
            for _ in 0..24 {
                let mut q = Msg { pis: m.pis.clone(), proof: m.proof.clone(), old: m.old.clone(), vk: m.vk.clone() };
                let k = r.next();
                if sut(|| tamper(&mut q, &m2.proof, &m2.pis, &m2.vk, k, &mut Rng::new(k))).is_err() { continue }
                let vg = k % 8 == 0;
                let _ = verify::<C, I>(&q.pis, &q.proof, &q.old, &q.vk, vg);
                ctx::fault("malformed_message");
            }
            size(&b) * 6 + size(&b2)
        }
        "shapes" => {
            // messages of a shape no prover makes
            let (b, m) = match honest::<C, I>(r, s.arg(2) % 4 / 3) { Ok(x) => x, Err(m) => panic!("{}", m) };
            let mut elems = 0;
            for _ in 0..10 {
                let mut q = Msg { pis: m.pis.clone(), proof: m.proof.clone(), old: m.old.clone(), vk: m.vk.clone() };
                let n = *r.pick(&[0usize, 1, 2, 31, 64, 65, 1000]);
                let pt = match r.below(3) { 0 => AffinePoint::<C> { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: true }, 1 => C::GENERATOR_AFFINE, _ => AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: false } };
                let z = *r.pick(&[C::ScalarField::ZERO, C::ScalarField::ONE, C::ScalarField::NEG_ONE]);
                for _ in 0..r.range(1, 4) {
                    match r.below(10) {
                        0 => { q.proof.halo_l = vec![pt; n]; q.proof.halo_r = vec![pt; n]; }
                        1 => q.proof.c_wires = vec![pt; n],
                        2 => q.proof.c_plonk_t = vec![pt; n],
                        3 => { q.proof.halo_l = vec![pt; m.proof.halo_l.len()]; q.proof.halo_r = q.proof.halo_l.clone(); q.proof.halo_g = pt; }
                        4 => for o in vec![&mut q.proof.o_local, &mut q.proof.o_right, &mut q.proof.o_below] { o.o_wires = vec![z; n]; o.o_plonk_t = vec![z; n]; },
                        5 => { q.pis = vec![z; n]; q.vk.num_public_inputs = n; }
                        6 => q.old = vec![OldProof { halo_g: pt, halo_us: vec![z; *r.pick(&[0, 1, m.proof.halo_l.len(), n])] }; *r.pick(&[1usize, 2, 20])],
                        7 => { q.proof.schnorr_proof.z1 = z; q.proof.schnorr_proof.z2 = z; q.proof.schnorr_proof.r = pt; }
                        8 => { q.vk.c_constants = vec![pt; n]; q.vk.c_s_sigmas = vec![pt; n]; }
                        _ => q.vk.degree = *r.pick(&[0usize, 1, 3, m.vk.degree - 1, m.vk.degree + 1, 2 * m.vk.degree]),
                    }
                }
                elems += (q.proof.c_wires.len() + q.proof.c_plonk_t.len() + q.proof.halo_l.len() + q.pis.len() + q.old.iter().map(|o| 1 + o.halo_us.len()).sum::<usize>() + q.vk.c_constants.len() + 3 * q.proof.o_local.o_wires.len()) as u64;
                let vg = r.chance(1, 3);
                let _ = verify::<C, I>(&q.pis, &q.proof, &q.old, &q.vk, vg);
                ctx::fault("malformed_shape");
            }
            size(&b) * 8 + elems / 4
        }
        "bytes" => {
            // bytes that went through a bad disk or network
            let (b, m) = match honest::<C, I>(r, 0) { Ok(x) => x, Err(m) => panic!("{}", m) };
            let (e, k) = (serde_cbor::to_vec(&m.proof).unwrap(), serde_cbor::to_vec(&m.vk).unwrap());
            for _ in 0..6 {
                let key = r.chance(1, 2);
                let mut v = if key { k.clone() } else { e.clone() };
                for _ in 0..r.range(1, 6) {
                    let i = if r.chance(1, 2) { r.usize(v.len().min(40)) } else { r.usize(v.len()) };
                    match r.below(4) { 0 => v[i] = r.next() as u8, 1 => v[i] ^= 1 << r.below(8), 2 => v[i] = *r.pick(&[0x1b, 0x3b, 0x5b, 0x5f, 0x7b, 0x9b, 0x9f, 0xbb, 0xbf, 0xff, 0x80, 0xa0]), _ => if r.chance(1, 4) { v.truncate(i + 1) } }
                }
                let vg = r.chance(1, 4);
                if key {
                    // the caches of a damaged key are whatever the bytes say, its numbers too: nothing is run with a key of unbounded size
                    if let Ok(Ok(x)) = sut(|| serde_cbor::from_slice::<VerificationKey<C>>(&v)) { if x.degree == m.vk.degree && x.num_public_inputs < 1000 { let _ = verify::<C, I>(&m.pis, &m.proof, &[], &x, vg); ctx::probe("damaged_key_used"); } }
                } else if let Ok(Ok(x)) = sut(|| serde_cbor::from_slice::<Proof<C>>(&v)) { let _ = verify::<C, I>(&m.pis, &x, &[], &m.vk, vg); ctx::probe("damaged_proof_judged"); }
                ctx::fault("damaged_bytes");
            }
            size(&b) * 4 + (e.len() + k.len()) as u64 / 8
        }
        "graph" => {
            // generators that wait for each other, for themselves, for what never comes, or make nothing
            let mut b = CircuitBuilder::<C>::new(128);
            let n = *r.pick(&[1usize, 3, 8, 20, 60]);
            let mut ts: Vec<Target<C::ScalarField>> = (0..n).map(|_| if r.chance(1, 5) { b.add_public_input() } else { b.add_virtual_target() }).collect();
            let x = b.constant_wire(C::ScalarField::from_canonical_u64(5));
            let y = b.add(x, x);
            ts.push(x);
            ts.push(y);
            let val = |i: usize| if i == n { C::ScalarField::from_canonical_u64(5) } else if i == n + 1 { C::ScalarField::from_canonical_u64(10) } else { C::ScalarField::from_canonical_usize(i * 7 + 1) };
            for i in 0..r.range(1, 2 * n as u64 + 4) as usize {
                let deps = (0..r.below(4)).map(|_| ts[r.usize(ts.len())]).collect();
                let mut o: Vec<usize> = (0..r.below(3)).map(|_| r.usize(ts.len())).collect();
                if r.chance(1, 2) && n > 1 { o.push(i % n) }
                b.add_generator(Node { deps, out: o.into_iter().map(|k| (ts[k], val(k))).collect() });
            }
            let c = b.build();
            let mut w = PartialWitness::new();
            for (i, &t) in ts.iter().enumerate() { if i < n && r.chance(1, 3) { w.set_target(t, val(i)) } }
            let _ = sut(|| c.generate_partial_witness(w));
            ctx::probe("generator_graph_settled");
            c.degree() as u64
        }
        "deep" => {
            // every step needs the one before it
            let mut b = CircuitBuilder::<C>::new(128);
            let n = 1usize << r.range(4, 8);
            let t = b.add_virtual_target();
            let mut x = t;
            for i in 0..n { x = match i % 3 { 0 => b.mul(x, x), 1 => b.add(x, t), _ => { let v = b.add_virtual_target(); b.add_generator(Node { deps: vec![x], out: vec![(v, C::ScalarField::from_canonical_usize(i))] }); v } } }
            let c = b.build();
            let mut w = PartialWitness::new();
            w.set_target(t, C::ScalarField::from_canonical_u64(r.next() >> 8));
            let _ = sut(|| c.generate_witness(w));
            ctx::probe("deep_chain");
            c.degree() as u64
        }
        "hash" => {
            let n = r.usize(9);
            let k = 1 + r.usize(4);
            if s.arg(2) % 2 == 0 { rescue_sponge(list::<C::BaseField>(r, n), k, 128); } else { rescue_sponge(list::<C::ScalarField>(r, n), k, 128); }
            8
        }
        "perm" => {
            let w = *r.pick(&[1usize, 2, 3, 4, 4, 5, 6, 8, 12]);
            if s.arg(2) % 2 == 0 { rescue_permutation(&list::<C::BaseField>(r, w), 128); } else { rescue_permutation(&list::<C::ScalarField>(r, w), 128); }
            16
        }
        "fft" => {
            let n = 1usize << r.range(0, 11);
            let v: Vec<C::ScalarField> = list(r, n);
            let p = fft_precompute::<C::ScalarField>(n);
            let e = fft_with_precomputation_power_of_2(&v, &p);
            ifft_with_precomputation_power_of_2(&e, &p);
            2 + n as u64 / 32
        }
        "poly" => {
            let (n, m) = (1 + r.usize(60), 1 + r.usize(60));
            let (a, b): (Polynomial<C::ScalarField>, Polynomial<C::ScalarField>) = (list(r, n).into(), list(r, m).into());
            let _ = sut(|| a.mul(&b));
            if !b.is_zero() { let _ = sut(|| a.polynomial_division(&b)); let _ = sut(|| a.mul(&b).polynomial_division(&b)); }
            4 + (n + m) as u64 / 8
        }
        "msm" => {
            let n = 1 + r.usize(24);
            let g: Vec<ProjectivePoint<C>> = (0..n).map(|i| C::convert(C::ScalarField::from_canonical_usize(i + 2)) * C::GENERATOR_PROJECTIVE).collect();
            let v: Vec<C::ScalarField> = list(r, n);
            msm_parallel(&v, &g, *r.pick(&[1usize, 2, 4, 8, 11]));
            let p = msm_precompute(&g, 4);
            msm_execute_parallel(&p, &v);
            n as u64 * 4
        }
        "curvehash" => { for i in 0..4 { blake_hash_usize_to_curve::<C>(r.usize(100) + i); } 4 }
        "lookup" => {
            let (n, m) = (1 + r.usize(20), 1 + r.usize(20));
            let t: Vec<C::ScalarField> = (0..n).map(|i| C::ScalarField::from_canonical_usize(i * 3)).collect();
            let f: Vec<C::ScalarField> = (0..m).map(|_| if r.chance(1, 20) { C::ScalarField::ONE } else { t[r.usize(n)] }).collect();
            match sut(|| plookup::plookup::prove::<C>(&f, &t)) { Ok(Ok(p)) => { let _ = sut(|| plookup::verifier::verify(&t, &p)); ctx::probe("lookup_judged") } Ok(Err(_)) => {}, Err(m) => if m.contains("getrandom") { panic!("{}", m) } }
            32
        }
        "pool" => {
            // inside the worker pool, several at once
            let ops = ["hash", "perm", "fft", "perm", "hash", "msm"];
            let k = r.range(2, 9);
            let seed = r.next();
            let steps: Vec<Step> = (0..k).map(|i| Step { op: ops[(mix(seed, i) % 6) as usize].to_string(), a: vec![0, mix(seed, i + 100), mix(seed, i + 200)] }).collect();
            let v: Vec<u64> = steps.par_iter().map(|s| sut(|| call::<C, I>(s)).unwrap_or(8)).collect();
            ctx::probe("nested_parallelism");
            v.iter().sum()
        }
        "join" => {
            let (x, y) = (Step { op: if s.arg(2) % 3 == 0 { "round" } else { "hash" }.into(), a: vec![0, r.next(), r.next()] }, Step { op: if s.arg(2) % 2 == 0 { "perm" } else { "deep" }.into(), a: vec![0, r.next(), r.next()] });
            let (a, b) = rayon::join(|| sut(|| call::<C, I>(&x)), || sut(|| call::<C, I>(&y)));
            a.unwrap_or(64) + b.unwrap_or(64)
        }
        _ => unreachable!(),
    }
}
/// Most basic blocks an operation on something of this size may take.
fn bound(op: &str, size: u64) -> u64 {
    match op {
        "round" | "malformed" | "shapes" | "bytes" | "join" | "lookup" => (1_000_000_000 + size * 6_000_000).min(4_000_000_000),
        _ => 100_000_000 + size * 1_000_000,
    }
}

pub fn process<C: HaloCurve + Default + serde::Serialize + serde::de::DeserializeOwned + 'static, I: HaloCurve<BaseField = C::ScalarField> + 'static>(plan: &Plan, adverse: u64) -> Result<Value, Viol> {
    if adverse == 0 {
        let mut out = vec![];
        for s in &plan.steps {
            let s0 = rt::peek().steps;
            rt::set_step_limit(if bound(&s.op, 0) < 1_000_000_000 { 400_000_000 } else { 4_000_000_000 });
            let n = match sut(|| call::<C, I>(s)) { Ok(n) => n, Err(m) => { ctx::trace(|| format!("{} gives up: {}", s.op, m)); ctx::probe("gave_up_alone"); 64 } };
            let d = rt::peek().steps - s0;
            if std::env::var("C14_CAL").is_ok() { eprintln!("CAL {} size {} steps {} per {}", s.op, n, d, d / n.max(1)); }
            out.push(json!([n, d]));
        }
        return Ok(json!({"ops": out, "total": rt::peek().steps}));
    }
    rt::set_step_limit(adverse);
    let n = plan.knob("callers").max(1);
    let gate = AtomicUsize::new(0);
    let (pp, pg) = (plan as *const Plan as usize, &gate as *const _ as usize);
    let work = move |t: u64| {
        let (plan, gate) = unsafe { (&*(pp as *const Plan), &*(pg as *const AtomicUsize)) };
        gate.fetch_add(1, Ordering::SeqCst);
        if plan.knob("first") > 0 { let mut k = 0; while gate.load(Ordering::SeqCst) < n as usize && k < 10_000 { std::thread::yield_now(); k += 1; } }
        for s in plan.steps.iter().filter(|s| s.arg(0) % n == t) {
            if s.arg(3) > 0 { rt::set_rnd_fail(s.arg(3), s.arg(2) % 4, 5); ctx::fault("entropy_failure_armed"); }
            if sut(|| call::<C, I>(s)).is_err() { ctx::probe("gave_up") }
        }
    };
    if plan.knob("inside") == 1 {
        // the callers are jobs of the pool themselves
        rayon::scope(|s| { for t in 1..n { s.spawn(move |_| work(t)) } work(0); });
    } else {
        let hs: Vec<_> = (1..n).map(|t| std::thread::spawn(move || work(t))).collect();
        work(0);
        for h in hs { if h.join().is_err() { return viol("caller-died", ctx::last_panic()); } }
    }
    rt::set_rnd_fail(0, 0, 0);
    // when faults stop, a lone caller gets through
    let last = Step { op: "round".into(), a: vec![0, mix(plan.knob("salt"), 3), 0] };
    if let Err(m) = sut(|| call::<C, I>(&last)) { return viol("no-progress", format!("after the faults stopped, an operation on its own failed: {}", m)); }
    Ok(json!({"total": rt::peek().steps}))
}
fn exec(plan: &Plan) -> Res {
    let mut with_last = plan.clone();
    with_last.step("round", &[0, mix(plan.knob("salt"), 3), 0, 0]);
    let with_last = &with_last;
    let alone = Sched::plain(plan.sched.seed ^ 77);
    let jobs: Vec<(Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>)> = vec![(alone, Box::new(move || crate::leaf("C14", with_last, 0)))];
    ctx::sample(format!("curve {} {} callers ({}) {} workers: {}", plan.curve, plan.knob("callers"), if plan.knob("inside") == 1 { "in the pool" } else { "threads" }, plan.sched.workers, plan.steps.iter().map(|s| s.op.clone()).collect::<Vec<_>>().join(",")));
    let a = procs(jobs)?;
    for (i, s) in with_last.steps.iter().enumerate() {
        let (n, d) = (a[0]["ops"][i][0].as_u64().unwrap_or(0), a[0]["ops"][i][1].as_u64().unwrap_or(0));
        if d > bound(&s.op, n) { return viol("too-much-work", format!("{} on something of size {} took {} basic blocks", s.op, n, d)); }
        ctx::eval(mix(hash_str(&s.op), mix(plan.curve, n)), true);
    }
    let total = a[0]["total"].as_u64().unwrap_or(0);
    let limit = 1_500_000_000 + total * 6;
    let main = Sched { record: true, ..plan.sched.clone() };
    let jobs: Vec<(Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>)> = vec![(main, Box::new(move || crate::leaf("C14", plan, limit)))];
    let b = procs(jobs)?;
    let used = b[0]["total"].as_u64().unwrap_or(0);
    if std::env::var("C14_CAL").is_ok() { eprintln!("CALR alone {} adverse {} ratio {:.3} policy {} workers {} spur {}", total, used, used as f64 / total.max(1) as f64, plan.sched.policy, plan.sched.workers, plan.sched.p_spur); }
    ctx::log(total);
    ctx::log(used);
    ctx::eval(mix(plan.sched.seed, used), true);
    ctx::probe(if used > total * 3 / 2 { "adverse_took_half_as_much_again" } else { "adverse_took_about_the_same" });
    Ok(())
}

pub fn scenario() -> Scenario {
    Scenario {
        id: "C14", gen, exec, self_managed: true, quick_runs: 120, thorough_runs: 6000,
        rule: "one evaluation = one operation whose work on an idle machine was held against an absolute bound (distinct by operation, curve and size), or one adverse execution of all of them held against a multiple of that work (distinct by schedule)",
        real: "builder, witness generation, prover, verifier, hashing, transforms, multi-scalar multiplication, (de)serialisation, thread pool, locks and lazily initialised caches",
        stub: "scheduler, clock, futex and entropy source (simulated); a caller's own witness generators",
        assumptions: &["work is counted in basic blocks executed by the code under test and its thread pool", "a verification key whose degree is not the circuit's is not run: keys are trusted, and their size bounds the work", "schedules are fair: a thread that can run does so within a bounded number of steps"],
        required_probes: &["round_done", "nested_parallelism", "generator_graph_settled", "damaged_proof_judged"],
    }
}
