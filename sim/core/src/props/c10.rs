//! C10: independently built copies of a circuit are interchangeable.
//! Several simulated processes build the same program under their own schedules, worker counts, hash
//! seeds and entropy; keys must agree, proofs cross over, and everything that is not random by design is equal.
use super::c01::{prove, verify};
use crate::ctx::{self, must, viol, Res, Viol};
use crate::driver::{procs, Scenario};
use crate::plan::{Plan, Step};
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;
use serde_json::{json, Value};

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "copies".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let n = r.range(0, if thorough { 40 } else { 20 }) as usize;
    let npis = *r.pick(&[0usize, 0, 1, 3, 9, 10, 19]);
    let curve = r.chance(1, 4);
    let hash = if r.chance(1, 10) { 1 } else { 0 };
    prog::gen_steps(r, &mut p, n, npis, curve, hash);
    // many cells tied to one another
    for _ in 0..r.range(0, 12) { let (x, y) = (r.below(4), r.next()); p.step("copy", &[x, y]); }
    if r.chance(1, 10) { let to = *r.pick(&[5u64, 12, 29, 61]); p.step("fill", &[to]); }
    p.set("makers", r.range(1, 3));
    p.set("takers", r.range(1, 3));
    p.set("blind", r.below(2));
    p.set("chain", r.below(2));
    p.set("salt", r.next());
    p
}
/// What a process may differ in from the next one.
struct Habit { racers: u64, warm: u64, build_last: bool, ship_key: u64 }
fn habit(plan: &Plan, pid: u64) -> Habit {
    let mut r = Rng::new(mix(plan.knob("salt"), pid));
    Habit { racers: *r.pick(&[1u64, 1, 1, 2, 3]), warm: r.below(4), build_last: r.chance(1, 2), ship_key: r.below(3) }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
pub fn cells<F: Field>(v: &[F]) -> String { v.iter().map(|x| format!("{:x?}", x.to_canonical_u64_vec())).collect::<Vec<_>>().join(" ") }
pub fn d<T: std::fmt::Debug>(x: &T) -> String { format!("{:?}", x) }

/// What a verification key says.
pub fn key_contents<C: HaloCurve>(vk: &VerificationKey<C>) -> Vec<(String, String)> {
    vec![("sizes".to_string(), d(&(vk.degree, vk.num_public_inputs, vk.num_gates_without_pis, vk.security_bits))), ("constants".into(), d(&vk.c_constants)), ("permutation".into(), d(&vk.c_s_sigmas))]
}
/// Everything two copies of a circuit must agree on: (name, digest)
fn contents<C: HaloCurve + serde::Serialize>(c: &Circuit<C>) -> Vec<(String, String)> {
    let vk = c.to_vk();
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |n: &str, s: String| v.push((n.to_string(), if s.len() > 60 { format!("{:016x} ({} characters)", hash_str(&s), s.len()) } else { s }));
    add("degree", d(&vk.degree));
    add("number of public inputs", d(&vk.num_public_inputs));
    add("number of gates without public inputs", d(&vk.num_gates_without_pis));
    add("security bits", d(&vk.security_bits));
    add("Pedersen generators", d(&c.pedersen_g));
    add("Pedersen generator h", d(&c.pedersen_h));
    add("Halo generator u", d(&c.u));
    add("gate constants", c.gate_constants.iter().map(|r| cells(r)).collect::<Vec<_>>().join("\n"));
    for (i, p) in c.s_sigma_polynomials.iter().enumerate() { add(&format!("permutation polynomial {}", i), cells(p.coeffs())); }
    for (i, p) in vk.c_constants.iter().enumerate() { add(&format!("commitment to constants {}", i), d(p)); }
    for (i, p) in vk.c_s_sigmas.iter().enumerate() { add(&format!("commitment to permutation {}", i), d(p)); }
    for (i, p) in c.c_constants.iter().chain(&c.c_s_sigmas).enumerate() { add(&format!("commitment randomness {}", i), cells(&[p.randomness])); }
    add("subgroup", cells(&c.subgroup_n));
    add("whole key", hex(&serde_cbor::to_vec(&vk).unwrap_or_default()));
    v
}
pub fn differ(a: &[(String, String)], b: &[(String, String)]) -> Option<String> {
    if a.len() != b.len() { return Some(format!("{} parts against {}", a.len(), b.len())); }
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{}: {} against {}", x.0, x.1, y.1))
}
fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array().map(|a| a.iter().map(|e| (e[0].as_str().unwrap_or("").to_string(), e[1].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
}
/// What a proof without blinding says that is not random.
pub fn fixed<C: HaloCurve>(p: &Proof<C>) -> Vec<(String, String)> {
    vec![("wire commitments".to_string(), d(&p.c_wires)), ("Z commitment".into(), d(&p.c_plonk_z)), ("t commitments".into(), d(&p.c_plonk_t)), ("public-input quotient commitment".into(), d(&p.c_pis_quotient)),
        ("openings".into(), d(&(&p.o_local, &p.o_right, &p.o_below)))]
}

type Made<C> = Vec<(prog::Built<C>, Vec<(String, String)>)>;
/// Builds the program, possibly by several threads at once.
fn copies<C: HaloCurve + serde::Serialize + 'static, I: HaloCurve<BaseField = C::ScalarField> + 'static>(plan: &Plan, h: &Habit) -> Result<Made<C>, Viol> {
    let steps: Vec<Step> = plan.steps.clone();
    if h.racers == 1 {
        let b = must("build", || prog::build::<C, I>(&steps))?;
        let f = contents(&b.circuit);
        return Ok(vec![(b, f)]);
    }
    ctx::probe("copies_built_by_racing_threads");
    let extra: Vec<_> = (1..h.racers).map(|_| {
        let s = steps.clone();
        std::thread::spawn(move || { let b = prog::build::<C, I>(&s); contents(&b.circuit) })
    }).collect();
    let b = must("build", || prog::build::<C, I>(&steps));
    let mut fs = vec![];
    for t in extra { match t.join() { Ok(f) => fs.push(f), Err(_) => return viol("build-panicked", ctx::last_panic()) } }
    let b = b?;
    let f = contents(&b.circuit);
    for g in &fs { if let Some(m) = differ(&f, g) { return viol("copies-differ", format!("two threads of one process: {}", m)); } }
    Ok(vec![(b, f)])
}
fn warm<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(h: &Habit) -> Res {
    if h.warm & 1 == 1 {
        must("build", || { let mut b = CircuitBuilder::<C>::new(128); let x = b.constant_wire_u32(3); let y = b.mul(x, x); b.assert_nonzero(y); b.build() })?;
        ctx::probe("process_built_another_circuit_before");
    }
    if h.warm & 2 == 2 { must("hash", || (rescue_hash_1_to_1(I::BaseField::ONE, 128), rescue_hash_1_to_1(C::BaseField::ONE, 128)))?; }
    Ok(())
}

/// input handed to the next simulated processes
static mut SHIP: Option<Value> = None;

pub fn process<C: HaloCurve + Default + PartialEq + Eq + serde::Serialize + serde::de::DeserializeOwned + 'static, I: HaloCurve<BaseField = C::ScalarField> + 'static>(plan: &Plan, x: u64) -> Result<Value, Viol> {
    let (phase, pid) = (x >> 8, x & 255);
    let h = habit(plan, x);
    warm::<C, I>(&h)?;
    let made = copies::<C, I>(plan, &h)?;
    let (b, f) = &made[0];
    let c = &b.circuit;
    let vk = c.to_vk();
    let enc = |p: &Proof<C>| hex(&serde_cbor::to_vec(p).unwrap());
    let ship = unsafe { SHIP.clone() }.unwrap_or(Value::Null);
    if phase == 1 {
        if pid == 0 { ctx::sample(format!("curve {} {}, {} + {} process(es)", plan.curve, prog::describe(b), plan.knob("makers").max(1), plan.knob("takers").max(1))); }
        let w = must("witness", || c.generate_witness(b.partial()))?;
        let (wt, again) = (w.transpose(), must("witness", || c.generate_witness(b.partial()))?.transpose());
        // rows that change from one trace to the next inside one process are the ones random by design
        let fresh: Vec<bool> = (0..c.degree()).map(|i| (0..wt.len()).any(|j| wt[j][i] != again[j][i])).collect();
        let rows: Vec<String> = (0..c.degree()).map(|i| cells(&wt.iter().map(|col| col[i]).collect::<Vec<_>>())).collect();
        let raw: Vec<Vec<Vec<u64>>> = (0..c.degree()).map(|i| wt.iter().map(|col| col[i].to_canonical_u64_vec()).collect()).collect();
        let p = prove::<C, I>(c, &w, &[], plan.knob("blind") == 1).or_else(|m| viol("prover-failed", m))?;
        let old = verify::<C, I>(&b.pis, &p, &[], &vk, false).or_else(|m| viol("honest-proof-refused", m))?;
        let mut chained = Value::Null;
        if plan.knob("chain") == 1 && old.is_some() {
            let o = vec![old.unwrap()];
            let q = prove::<C, I>(c, &w, &o, plan.knob("blind") == 0).or_else(|m| viol("prover-failed", m))?;
            chained = json!(enc(&q));
        }
        return Ok(json!({"contents": f, "rows": rows, "raw": raw, "proof": enc(&p), "chained": chained, "key": hex(&serde_cbor::to_vec(&vk).unwrap()), "pis": cells(&b.pis), "degree": c.degree(), "fresh": fresh}));
    }
    // a process that receives what the others sent
    let read_key = |s: &str| -> Result<VerificationKey<C>, Viol> { serde_cbor::from_slice(&unhex(s)).or_else(|e| viol("key-unreadable", format!("{}", e))) };
    let read_proof = |s: &str| -> Result<Proof<C>, Viol> { serde_cbor::from_slice(&unhex(s)).or_else(|e| viol("proof-unreadable", format!("{}", e))) };
    let mut made_fixed = vec![];
    for (i, m) in ship.as_array().unwrap().iter().enumerate() {
        let p = read_proof(m["proof"].as_str().unwrap())?;
        let theirs = read_key(m["key"].as_str().unwrap())?;
        for (k, key) in vec![&vk, &theirs].into_iter().enumerate() {
            let whose = if k == 0 { "its own copy's key" } else { "the maker's key" };
            if k == 1 && h.ship_key == 0 { continue; }
            let o = match verify::<C, I>(&b.pis, &p, &[], key, h.ship_key == 2) { Ok(o) => o, Err(e) => return viol("foreign-proof-refused", format!("process {} refuses the proof of process {} under {}: {}", pid, i, whose, e)) };
            ctx::probe("proof_crossed_over");
            ctx::eval(mix(hash_str(&prog::describe(b)), mix(plan.curve, k as u64)), true);
            if let (Some(q), Some(o)) = (m["chained"].as_str(), o) {
                let q = read_proof(q)?;
                if let Err(e) = verify::<C, I>(&b.pis, &q, &[o], key, h.ship_key == 1) { return viol("foreign-proof-refused", format!("process {} refuses the proof process {} made on an old proof, under {}: {}", pid, i, whose, e)); }
                ctx::probe("chained_proof_crossed_over");
            }
        }
        if i == 0 {
            // the maker's trace, proved here without blinding
            let raw = m["raw"].as_array().unwrap();
            let num = |v: &Value| C::ScalarField::from_canonical_u64_vec(v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect());
            let w = Witness::new(raw.iter().map(|r| r.as_array().unwrap().iter().map(num).collect()).collect());
            let q = prove::<C, I>(c, &w, &[], false).or_else(|m| viol("prover-failed", format!("on another process's trace: {}", m)))?;
            if let Err(e) = verify::<C, I>(&b.pis, &q, &[], &theirs, false) { return viol("foreign-proof-refused", format!("on the maker's trace: {}", e)); }
            made_fixed = fixed(&q);
            let q2 = prove::<C, I>(c, &w, &[], false).or_else(|m| viol("prover-failed", m))?;
            if let Some(m) = differ(&made_fixed, &fixed(&q2)) { return viol("unblinded-proofs-differ", format!("two proofs of one process on one trace: {}", m)); }
        }
    }
    Ok(json!({"contents": f, "fixed": made_fixed}))
}
fn exec(plan: &Plan) -> Res {
    let job = |phase: u64, i: u64| -> (Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>) {
        let mut s = if i == 0 && phase == 1 { plan.sched.clone() } else { Sched { step_limit: plan.sched.step_limit, ..Sched::swarm(&mut Rng::new(mix(plan.sched.seed, phase * 256 + i))) } };
        // a minimised replay keeps the first process's schedule explicit and the others simple
        if plan.sched.events.is_some() { s = Sched { events: Some(vec![]), entropy_salt: phase * 256 + i, ..plan.sched.clone() } }
        (s, Box::new(move || crate::leaf("C10", plan, phase << 8 | i)))
    };
    let first = procs((0..plan.knob("makers").max(1)).map(|i| job(1, i)).collect())?;
    let c0 = pairs(&first[0]["contents"]);
    for (i, v) in first.iter().enumerate() {
        if let Some(m) = differ(&c0, &pairs(&v["contents"])) { return viol("copies-differ", format!("process 0 and process {}: {}", i, m)); }
        if i > 0 {
            let (a, b) = (first[0]["rows"].as_array().unwrap(), v["rows"].as_array().unwrap());
            for k in 0..a.len().max(b.len()) {
                let random = first[0]["fresh"][k] == json!(true) && v["fresh"][k] == json!(true);
                if !random && a.get(k) != b.get(k) { return viol("traces-differ", format!("row {} of {} of the two processes' traces", k, a.len())); }
            }
            if v["pis"] != first[0]["pis"] { return viol("traces-differ", "public inputs".into()); }
            ctx::probe("makers_compared");
        }
        ctx::log(hash_str(v["proof"].as_str().unwrap_or("")));
    }
    unsafe { SHIP = Some(Value::Array(first.clone())) }
    let second = procs((0..plan.knob("takers").max(1)).map(|i| job(2, i)).collect())?;
    unsafe { SHIP = None }
    for (i, v) in second.iter().enumerate() {
        if let Some(m) = differ(&c0, &pairs(&v["contents"])) { return viol("copies-differ", format!("process 0 and receiving process {}: {}", i, m)); }
        if i > 0 {
            if let Some(m) = differ(&pairs(&second[0]["fixed"]), &pairs(&v["fixed"])) { return viol("unblinded-proofs-differ", format!("receiving processes 0 and {}: {}", i, m)); }
            ctx::probe("unblinded_proofs_compared");
        }
    }
    ctx::eval(mix(hash_str("contents"), mix(plan.curve, hash_str(&c0.iter().map(|x| x.1.clone()).collect::<String>()))), true);
    Ok(())
}

pub fn scenario() -> Scenario {
    Scenario {
        id: "C10", gen, exec, self_managed: true, quick_runs: 120, thorough_runs: 4000,
        rule: "one evaluation = one proof or key carried from one simulated process to another and judged there, or one comparison of everything that copies of a circuit must agree on; distinct by curve, program and whose key judged it",
        real: "builder, partition, commitments, serialisation, witness generation, prover, verifier, rayon pool, std hash maps with their own seeds",
        stub: "OS scheduler, clock, entropy source; processes are simulated one after the other, each with its own address space, schedule, worker count, hash seeds and entropy, and exchange bytes",
        assumptions: &["all processes run one binary on one machine: differences between compilers, word sizes or byte orders are not explored"],
        required_probes: &["proof_crossed_over", "chained_proof_crossed_over", "makers_compared", "unblinded_proofs_compared", "copies_built_by_racing_threads", "process_built_another_circuit_before"],
    }
}
