//! C08: concurrent callers sharing keys, circuits and caches do not affect each other.
//! The same operations are performed by one simulated process in sequence and by another with several
//! caller threads; every single result must be the same, whatever fails or panics elsewhere.
use super::c01::{prove, verify};
use super::c10::{cells, d, differ, fixed, key_contents};
use crate::ctx::{self, must, sut, viol, Res, Viol};
use crate::driver::{procs, Scenario};
use crate::plan::{Plan, Step};
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{self, Sched};
use plonky::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

const COLD: &[&str] = &["hash", "hash", "perm", "perm", "build", "fft", "gens", "round", "pfft", "pcustom", "rnd", "rnd"];
const WARM: &[&str] = &["hash", "perm", "build", "fft", "msm", "msm", "prove", "prove", "fixed", "verify", "verify", "refuse", "refuse", "witness", "pprove", "pgen", "pcustom", "pfft", "rnd", "commit", "chain"];

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "callers".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let threads = r.range(2, 7);
    p.set("threads", threads);
    // nothing has been used before the callers start, or circuits and keys are shared by all
    let cold = r.chance(2, 5);
    p.set("cold", cold as u64);
    p.set("first", r.below(3));
    p.set("salt", r.next());
    let per = if thorough { r.range(1, 9) } else { r.range(1, 5) };
    for t in 0..threads {
        for k in 0..per {
            let op = if cold && k == 0 && r.chance(2, 3) { *r.pick(&["hash", "perm", "perm", "gens", "rnd"]) } else { *r.pick(if cold { COLD } else { WARM }) };
            p.step(op, &[t, r.next(), r.next(), r.next()]);
        }
    }
    p
}
struct Shared<C: HaloCurve> {
    circuits: Vec<prog::Built<C>>,
    vks: Vec<VerificationKey<C>>,
    witnesses: Vec<Witness<C::ScalarField>>,
    /// rows of a trace that are not random
    plain: Vec<Vec<bool>>,
    proofs: Vec<Proof<C>>,
    olds: Vec<OldProof<C>>,
    fft: FftPrecomputation<C::ScalarField>,
}
/// The small circuits all callers work with.
fn program(plan: &Plan, k: u64) -> Vec<Step> {
    let mut r = Rng::new(mix(plan.knob("salt"), k % 2 + 1));
    let mut p = Plan::default();
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 1, 2, 9]);
    let curve = r.chance(1, 4);
    prog::gen_steps(&mut r, &mut p, n, npis, curve, (k % 2 == 1 && plan.knob("salt") % 5 == 0) as usize);
    p.steps
}
fn share<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Result<Shared<C>, Viol> {
    let mut s = Shared { circuits: vec![], vks: vec![], witnesses: vec![], plain: vec![], proofs: vec![], olds: vec![], fft: fft_precompute(64) };
    for k in 0..2 {
        let b = must("build", || prog::build::<C, I>(&program(plan, k)))?;
        let vk = b.circuit.to_vk();
        let (x, y) = (must("witness", || b.circuit.generate_witness(b.partial()))?.transpose(), must("witness", || b.circuit.generate_witness(b.partial()))?.transpose());
        let n = b.circuit.degree();
        let plain: Vec<bool> = (0..n).map(|i| (0..x.len()).all(|j| x[j][i] == y[j][i])).collect();
        // the trace everybody proves: random rows, which nothing constrains, replaced by small numbers
        let w = Witness::new((0..n).map(|i| (0..x.len()).map(|j| if plain[i] { x[j][i] } else { C::ScalarField::from_canonical_usize(i * 9 + j) }).collect()).collect());
        let p = prove::<C, I>(&b.circuit, &w, &[], true).or_else(|m| viol("prover-failed", m))?;
        match verify::<C, I>(&b.pis, &p, &[], &vk, false) { Ok(Some(o)) => s.olds.push(o), Ok(None) => return viol("old-proof", "missing".into()), Err(m) => return viol("honest-proof-refused", m) }
        s.circuits.push(b); s.vks.push(vk); s.witnesses.push(w); s.plain.push(plain); s.proofs.push(p);
    }
    Ok(s)
}
fn list<F: Field>(r: &mut Rng, n: usize) -> Vec<F> { (0..n).map(|_| F::from_canonical_u64(r.next() >> r.below(60))).collect() }
fn join(v: &[(String, String)]) -> String { v.iter().map(|(a, b)| format!("{}={}", a, b)).collect::<Vec<_>>().join(";") }
fn pt<C: Curve>(p: ProjectivePoint<C>) -> String { d(&p.to_affine()) }
fn hash_op<F: Field>(op: &str, r: &mut Rng) -> String {
    if op == "perm" { let w = *r.pick(&[2usize, 3, 4, 4, 5, 6, 8]); let v: Vec<F> = list(r, w); return cells(&rescue_permutation(&v, 128)); }
    let n = r.usize(9);
    let v: Vec<F> = list(r, n);
    let k = 1 + r.usize(4);
    cells(&rescue_sponge(v, k, 128))
}

/// One call. What it returns must not depend on what other callers do.
fn call<C: HaloCurve + serde::Serialize, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan, s: &Step, sh: Option<&Shared<C>>) -> String {
    let mut r = Rng::new(mix(s.arg(1), hash_str(&s.op)));
    let k = (s.arg(2) % 2) as usize;
    // what the operation needs to exist beforehand
    match s.op.as_str() {
        "hash" | "perm" => return if s.arg(2) % 3 == 0 { hash_op::<C::BaseField>(&s.op, &mut r) } else { hash_op::<C::ScalarField>(&s.op, &mut r) },
        "build" => return join(&key_contents(&prog::build::<C, I>(&program(plan, k as u64)).circuit.to_vk())),
        "fft" => {
            let v: Vec<C::ScalarField> = list(&mut r, 64);
            return match sh { Some(s) => cells(&fft_with_precomputation(&v, &s.fft)), None => cells(&fft(&v)) };
        }
        "gens" => return d(&blake_hash_usize_to_curve::<C>(r.usize(50))),
        "round" => {
            // everything a lone user does, from nothing
            let b = prog::build::<C, I>(&program(plan, k as u64));
            let vk = b.circuit.to_vk();
            let w = b.circuit.generate_witness(b.partial());
            return match prove::<C, I>(&b.circuit, &w, &[], true) {
                Ok(p) => match verify::<C, I>(&b.pis, &p, &[], &vk, r.chance(1, 2)) { Ok(_) => join(&key_contents(&vk)), Err(m) => m },
                Err(m) => if m.starts_with("panic") { panic!("{}", m) } else { m },
            };
        }
        // callers that make a mistake
        "pfft" => { let v: Vec<C::ScalarField> = list(&mut r, 7); let p = fft_precompute::<C::ScalarField>(8); return cells(&fft_with_precomputation_power_of_2(&v, &p)) }
        "pcustom" => {
            // a caller's own generator that panics
            struct Bad<F: Field>(Target<F>);
            impl<F: Field> WitnessGenerator<F> for Bad<F> {
                fn dependencies(&self) -> Vec<Target<F>> { vec![] }
                fn generate(&self, _: &[Vec<F>], _: &PartialWitness<F>) -> PartialWitness<F> { panic!("a caller's generator gives up") }
            }
            let mut b = CircuitBuilder::<C>::new(128);
            let t = b.add_virtual_target();
            b.add_generator(Bad(t));
            let c = b.build();
            c.generate_witness(PartialWitness::new());
            return "no panic".into();
        }
        _ => {}
    }
    let sh = match sh { Some(s) => s, None => return "nothing to work with".into() };
    let b = &sh.circuits[k];
    match s.op.as_str() {
        "msm" => {
            let v: Vec<C::ScalarField> = list(&mut r, b.circuit.degree());
            let p = &b.circuit.pedersen_g_msm_precomputation;
            if s.arg(3) % 2 == 0 { pt(msm_execute(p, &v)) } else { pt(msm_execute_parallel(p, &v)) }
        }
        "commit" => {
            let v: Vec<C::ScalarField> = list(&mut r, b.circuit.degree());
            d(&Polynomial::from(v).commit(&b.circuit.pedersen_g_msm_precomputation, b.circuit.pedersen_h, false).to_affine())
        }
        "prove" => match prove::<C, I>(&b.circuit, &sh.witnesses[k], &[], s.arg(3) % 2 == 0) {
            Ok(p) => match verify::<C, I>(&b.pis, &p, &[], &sh.vks[k], s.arg(3) % 4 > 1) { Ok(_) => "proved and accepted".into(), Err(m) => m },
            Err(m) => if m.starts_with("panic") { panic!("{}", m) } else { m },
        },
        "chain" => match prove::<C, I>(&b.circuit, &sh.witnesses[k], &sh.olds[k..k + 1], true) {
            Ok(p) => match verify::<C, I>(&b.pis, &p, &sh.olds[k..k + 1], &sh.vks[k], s.arg(3) % 2 == 0) { Ok(_) => "proved and accepted".into(), Err(m) => m },
            Err(m) => if m.starts_with("panic") { panic!("{}", m) } else { m },
        },
        "fixed" => match prove::<C, I>(&b.circuit, &sh.witnesses[k], &[], false) { Ok(p) => join(&fixed(&p)), Err(m) => if m.starts_with("panic") { panic!("{}", m) } else { m } },
        "verify" => match verify::<C, I>(&b.pis, &sh.proofs[k], &[], &sh.vks[k], s.arg(3) % 2 == 0) { Ok(_) => "accepted".into(), Err(m) => m },
        "refuse" => {
            // a proof with one number changed, or under the other circuit's key
            let mut p = sh.proofs[k].clone();
            let mut pis = b.pis.clone();
            let key = match r.below(6) {
                0 => &sh.vks[1 - k],
                1 => { p.o_local.o_plonk_z = p.o_local.o_plonk_z + C::ScalarField::ONE; &sh.vks[k] }
                2 => { p.c_wires.swap(0, 1); &sh.vks[k] }
                3 => { p.schnorr_proof.z1 = p.schnorr_proof.z1 + C::ScalarField::ONE; &sh.vks[k] }
                4 => { p.halo_l.pop(); &sh.vks[k] }
                _ => { if pis.is_empty() { pis.push(C::ScalarField::ONE) } else { pis[0] = pis[0] + C::ScalarField::ONE } &sh.vks[k] }
            };
            match verify::<C, I>(&pis, &p, &[], key, true) { Ok(_) => if program(plan, 0) == program(plan, 1) { "refused".into() } else { "a false proof was accepted".into() }, Err(m) => if m.starts_with("panic") { "panicked".into() } else { "refused".into() } }
        }
        "witness" => {
            let w = b.circuit.generate_witness(b.partial()).transpose();
            let rows: Vec<String> = (0..b.circuit.degree()).filter(|&i| sh.plain[k][i]).map(|i| cells(&w.iter().map(|c| c[i]).collect::<Vec<_>>())).collect();
            format!("{:x}", hash_str(&rows.join("\n")))
        }
        "pprove" => {
            // a trace that is too short, too narrow or of the other circuit
            let t = sh.witnesses[k].transpose();
            let n = t[0].len();
            let m = match s.arg(3) % 3 { 0 => n / 2, 1 => n - 1, _ => n };
            let cols = if s.arg(3) % 3 == 2 { 5 } else { t.len() };
            let w = Witness::new((0..m).map(|i| (0..cols).map(|j| t[j][i]).collect()).collect());
            match prove::<C, I>(&b.circuit, &w, &[], true) { Ok(_) => "made".into(), Err(m) => if m.starts_with("panic") { panic!("{}", m) } else { m } }
        }
        "pgen" => { cells(&b.circuit.generate_witness(PartialWitness::new()).transpose()[0][..1]); "ignored".into() }
        _ => "ignored".into(),
    }
}

pub fn process<C: HaloCurve + serde::Serialize + 'static, I: HaloCurve<BaseField = C::ScalarField> + 'static>(plan: &Plan, concurrent: u64) -> Result<Value, Viol> {
    let cold = plan.knob("cold") == 1;
    let shared: Option<Shared<C>> = if cold { None } else { Some(share::<C, I>(plan)?) };
    let n = plan.knob("threads").max(1);
    if concurrent == 0 {
        let mut out = vec![];
        for s in &plan.steps { out.push(json!(sut(|| call::<C, I>(plan, s, shared.as_ref())).unwrap_or_else(|m| { ctx::trace(|| format!("alone: {} panics: {}", s.op, m)); "panicked".into() }))); }
        return Ok(Value::Array(out));
    }
    let results: Mutex<Vec<(usize, String, bool)>> = Mutex::new(vec![]);
    let gate = AtomicUsize::new(0);
    // everything shared outlives the joins below
    let (pp, ps, pr, pg) = (plan as *const Plan as usize, &shared as *const Option<Shared<C>> as usize, &results as *const _ as usize, &gate as *const _ as usize);
    let hs: Vec<_> = (0..n).map(|t| std::thread::spawn(move || {
        let (plan, shared, results, gate) = unsafe { (&*(pp as *const Plan), &*(ps as *const Option<Shared<C>>), &*(pr as *const Mutex<Vec<(usize, String, bool)>>), &*(pg as *const AtomicUsize)) };
        gate.fetch_add(1, Ordering::SeqCst);
        // all start together, or as they come
        if plan.knob("first") > 0 { let mut k = 0; while gate.load(Ordering::SeqCst) < plan.knob("threads") as usize && k < 10_000 { std::thread::yield_now(); k += 1; } }
        for (i, s) in plan.steps.iter().enumerate().filter(|(_, s)| s.arg(0) % n == t) {
            let f0 = rt::peek().rnd_fail;
            if s.op == "rnd" { rt::set_rnd_fail(1 + if s.arg(3) % 2 == 0 { 0 } else { s.arg(1) % 9 }, 1 + s.arg(2) % 2, 5); ctx::fault("entropy_failure_armed"); }
            let res = sut(|| call::<C, I>(plan, s, shared.as_ref())).unwrap_or_else(|_| "panicked".into());
            let failed = rt::peek().rnd_fail > f0;
            results.lock().unwrap_or_else(|e| e.into_inner()).push((i, res, failed));
        }
    })).collect();
    for h in hs { if h.join().is_err() { return viol("caller-died", ctx::last_panic()); } }
    rt::set_rnd_fail(0, 0, 0);
    let mut out = vec![Value::Null; plan.steps.len()];
    for (i, x, failed) in results.into_inner().unwrap_or_else(|e| e.into_inner()) { out[i] = json!([x, failed]); }
    // afterwards everything still works, for a caller on its own
    let mut after = vec![];
    for (i, s) in plan.steps.iter().enumerate() {
        if s.op == "rnd" || s.op == "round" || (s.op == "prove" && i % 3 > 0) { after.push(Value::Null); continue; }
        after.push(json!(sut(|| call::<C, I>(plan, s, shared.as_ref())).unwrap_or_else(|m| { ctx::trace(|| format!("afterwards: {} panics: {}", s.op, m)); "panicked".into() })));
    }
    Ok(json!({"during": out, "after": after}))
}
fn short(s: &str) -> String { if s.len() > 200 { format!("{:016x} ({} characters)", hash_str(s), s.len()) } else { s.to_string() } }
fn exec(plan: &Plan) -> Res {
    let alone = Sched { step_limit: plan.sched.step_limit, ..Sched::plain(plan.sched.seed ^ 77) };
    let main = Sched { record: true, ..plan.sched.clone() };
    let jobs: Vec<(Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>)> = vec![(alone, Box::new(move || crate::leaf("C08", plan, 0))), (main, Box::new(move || crate::leaf("C08", plan, 1)))];
    ctx::sample(format!("curve {} {} callers {}: {}", plan.curve, plan.knob("threads"), if plan.knob("cold") == 1 { "starting from nothing" } else { "sharing circuits" }, plan.steps.iter().map(|s| s.op.clone()).collect::<Vec<_>>().join(",")));
    let v = procs(jobs)?;
    let mut panics = 0;
    for (i, s) in plan.steps.iter().enumerate() {
        let want = v[0][i].as_str().unwrap_or("").to_string();
        let (got, failed) = (v[1]["during"][i][0].as_str().unwrap_or("no result").to_string(), v[1]["during"][i][1] == json!(true));
        ctx::log(hash_str(&got));
        // a call may give up, but only if the entropy source failed while it ran
        let gave_up = got == "panicked" && failed && want != got;
        if gave_up { ctx::probe("call_gave_up_without_entropy"); }
        if got != want && !gave_up { return viol("result-differs", format!("operation {} ({}) by caller {}: {} among other callers, {} alone", i, s.op, s.arg(0) % plan.knob("threads").max(1), short(&got), short(&want))); }
        if let Some(a) = v[1]["after"][i].as_str() { if a != want { return viol("state-damaged", format!("operation {} ({}) afterwards: {}, alone: {}", i, s.op, short(a), short(&want))); } }
        if want == "panicked" { panics += 1; ctx::probe("caller_panicked"); }
        if want.contains("accepted") && want.contains("false") { return viol("false-proof-accepted", s.op.clone()); }
        ctx::probe(&format!("op_{}", s.op));
        ctx::eval(mix(hash_str(&s.op), mix(plan.curve, mix(hash_str(&want), plan.knob("threads")))), true);
    }
    if panics > 0 { ctx::probe("others_unaffected_by_a_panic"); }
    ctx::probe(if plan.knob("cold") == 1 { "first_use_by_several_callers" } else { "shared_circuits" });
    let _ = differ(&[], &[]);
    Ok(())
}

pub fn scenario() -> Scenario {
    Scenario {
        id: "C08", gen, exec, self_managed: true, quick_runs: 130, thorough_runs: 4000,
        rule: "one evaluation = one call among concurrent callers whose result equals that of the same call in a sequential process; distinct by operation, curve, number of callers and result",
        real: "builder, witness generation, prover, verifier, hashing and its process-wide cache, transforms and sums over shared tables, rayon pool shared by all callers, std mutexes and once_cell",
        stub: "OS scheduler, clock, entropy source",
        assumptions: &["sequentially consistent memory: threads are interleaved one at a time", "preemption at basic-block boundaries of plonky, rayon, rayon-core, crossbeam and once_cell"],
        required_probes: &["first_use_by_several_callers", "shared_circuits", "others_unaffected_by_a_panic", "call_gave_up_without_entropy", "op_prove", "op_verify", "op_refuse", "op_build", "op_perm", "op_msm", "op_chain"],
    }
}
