//! C01: an honest prover's proof always verifies.
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{self, Sched};
use plonky::*;

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "prove".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let big = r.chance(1, if thorough { 12 } else { 40 });
    let n = if big { r.range(40, 200) } else { r.range(0, 14) } as usize;
    let npis = *r.pick(&[0usize, 0, 1, 2, 5, 6, 7, 8, 9, 9, 10, 11, 16, 17, 18, 19, 27, 30]);
    let curve = r.chance(1, 3);
    let hash = if r.chance(1, if thorough { 6 } else { 12 }) { 1 + r.usize(2) } else { 0 };
    prog::gen_steps(r, &mut p, n, npis, curve, hash);
    if r.chance(1, 12) { let to = *r.pick(&[4u64, 5, 12, 13, 29, 61, 62]); p.step("fill", &[to]); }
    if thorough && r.chance(1, 150) { let (x, y, z) = (r.next(), r.next(), r.next()); p.step("cmul", &[x, y, z]); }
    p.set("old", *r.pick(&[0, 0, 0, 1, 1, 2, 3]));
    p.set("blind", r.below(2));
    p.set("vg", r.below(2));
    p.set("clearvk", r.below(4));
    p
}
pub fn prove<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, old: &[OldProof<C>], blind: bool) -> Result<Proof<C>, String> {
    // The sponge output, read as an element of the other field, does not fit with probability below 2^-120.
    match ctx::sut(|| c.generate_proof::<I>(w, old, blind)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(m) => Err(format!("panic: {}", m)),
    }
}
pub fn verify<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(pis: &[C::ScalarField], p: &Proof<C>, old: &[OldProof<C>], vk: &VerificationKey<C>, g: bool) -> Result<Option<OldProof<C>>, String> {
    match ctx::sut(|| verify_proof::<C, I>(pis, p, old, vk, g)) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(format!("refused: {}", e)),
        Err(m) => Err(format!("panic: {}", m)),
    }
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let b = must("build", || prog::build::<C, I>(&plan.steps))?;
    let d = b.circuit.degree();
    ctx::sample(format!("curve {} {} blinding {} old {} threads {} policy {}", plan.curve, prog::describe(&b), plan.knob("blind"), plan.knob("old"), plan.sched.workers, plan.sched.policy));
    ctx::trace(|| format!("build: {}", prog::describe(&b)));
    let mut vk = b.circuit.to_vk();
    if plan.knob("clearvk") & 1 == 1 { vk.clear_msm_precomputation() }
    if plan.knob("clearvk") & 2 == 2 { vk.clear_fft_precomputation() }
    let mut old: Vec<OldProof<C>> = vec![];
    let n_old = plan.knob("old") as usize;
    let blind = plan.knob("blind") == 1;
    let w = must("witness", || b.circuit.generate_witness(b.partial()))?;
    let mut key = mix(hash_str(&prog::describe(&b)), plan.curve);
    for round in 0..n_old + 1 {
        let last = round == n_old;
        let proof = match prove::<C, I>(&b.circuit, &w, &old, blind) {
            Ok(p) => p,
            Err(m) => return viol("prover-failed", format!("proof {} of {} failed: {}", round + 1, n_old + 1, m)),
        };
        let pis = b.circuit.get_public_inputs(&w);
        if pis != b.pis { return viol("public-inputs", format!("public inputs read back as {:?}, given {:?}", pis, b.pis)); }
        let vg = last && plan.knob("vg") == 1;
        match verify::<C, I>(&b.pis, &proof, &old, &vk, vg) {
            Ok(o) => {
                if vg != o.is_none() { return viol("old-proof", "deferred check missing or unexpected".into()); }
                ctx::eval(mix(key, (round as u64) << 8 | vg as u64), true);
                ctx::probe(if vg { "verified_final_check_now" } else { "verified_final_check_deferred" });
                ctx::probe(&format!("verified_with_{}_old_proofs", old.len()));
                ctx::probe(&format!("degree_{}", d));
                if let Some(o) = o { old.push(o) }
            }
            Err(m) => return viol("honest-proof-refused", format!("proof {} of {} (degree {}, {} public inputs, {} old): {}", round + 1, n_old + 1, d, b.pis.len(), old.len(), m)),
        }
        key = mix(key, 1);
        if rt::active() { ctx::log(refl(&proof)); }
    }
    if plan.knob("vg") == 1 { ctx::probe("blinding_on_off"); }
    for u in &b.used { ctx::probe(&format!("op_{}", u)); }
    if b.pis.len() % 9 == 0 && !b.pis.is_empty() { ctx::probe("pis_multiple_of_wires"); }
    Ok(())
}
pub fn refl<C: HaloCurve>(p: &Proof<C>) -> u64 { hash_str(&format!("{:?}", p)) }
fn exec(plan: &Plan) -> Res { crate::leaf("C01", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C01", gen, exec, self_managed: false, quick_runs: 220, thorough_runs: 6000,
        rule: "one evaluation = one proof made by the real prover and judged by the real verifier under a simulated schedule; distinct by curve, program shape (operations, degree, public inputs), position in the chain of proofs and mode of the final check",
        real: "builder, witness generation, prover, verifier, rayon pool, std mutexes and condition variables",
        stub: "OS scheduler, clock, entropy source (all simulated); no part of plonky or rayon",
        assumptions: &["sequentially consistent memory: threads are interleaved one at a time", "preemption at basic-block boundaries of plonky, rayon, rayon-core, crossbeam and once_cell"],
        required_probes: &["verified_final_check_now", "verified_final_check_deferred", "verified_with_1_old_proofs", "pis_multiple_of_wires", "op_cadd", "op_hash"],
    }
}
