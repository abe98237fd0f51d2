//! C09: witness generation finds the one right witness, whatever the order.
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog::{self, Built};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub const WIRES: usize = 9;
pub const ROUTED: usize = 6;
pub const GRID: usize = 65;

/// Every gate constraint of every row; the first that does not hold.
pub fn check_rows<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>) -> Result<(), String> {
    let n = c.degree();
    let row = |i: usize| (0..WIRES).map(|j| w.get_indices(i % n, j)).collect::<Vec<_>>();
    for i in 0..n {
        let t = evaluate_all_constraints::<C, I>(&c.gate_constants[i], &row(i), &row(i + 1), &row(i + GRID));
        if let Some(k) = t.iter().position(|x| x.is_nonzero()) { return Err(format!("row {} of {} breaks constraint {}", i, n, k)); }
    }
    Ok(())
}
/// Copy classes, from the program's own routing partitions.
pub fn check_copies<C: HaloCurve>(c: &Circuit<C>, pw: &PartialWitness<C::ScalarField>) -> Result<(), String> {
    let n = c.degree();
    for g in 0..n {
        for i in 0..WIRES {
            let t = Target::Wire(Wire { gate: g, input: i });
            if !pw.contains_target(t) { continue; }
            let v = pw.get_target(t);
            for &s in c.routing_target_partitions.get_partition(t) {
                if !pw.contains_target(s) { return Err(format!("{:?} is set but {:?}, tied to it, is not", t, s)); }
                if pw.get_target(s) != v { return Err(format!("{:?} and {:?} are tied together and differ", t, s)); }
            }
        }
    }
    Ok(())
}
fn check_expected<C: HaloCurve>(b: &Built<C>, pw: &PartialWitness<C::ScalarField>, plan: &Plan) -> Result<(), String> {
    for (k, &(t, v)) in b.expected.iter().enumerate() {
        if let Target::PublicInput(_) = t { continue; }
        let op = plan.steps.get(b.made_by[k]).map(|s| s.op.clone()).unwrap_or_default();
        if !pw.contains_target(t) { return Err(format!("result of step {} ({}) was never computed", b.made_by[k], op)); }
        let got = pw.get_target(t);
        if got != v { return Err(format!("result of step {} ({}) is {:?}, should be {:?}", b.made_by[k], op, got, v)); }
    }
    Ok(())
}

/// A user-supplied generator: sums its dependencies; counts its runs.
struct Node<F: Field> { deps: Vec<Target<F>>, out: Vec<Target<F>>, k: u64, runs: Arc<AtomicU64> }
impl<F: Field> WitnessGenerator<F> for Node<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.deps.clone() }
    fn generate(&self, _c: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        self.runs.fetch_add(1, SeqCst);
        let mut s = F::from_canonical_u64(self.k);
        for &d in &self.deps { s = s + w.get_target(d); }
        let mut r = PartialWitness::new();
        for (i, &o) in self.out.iter().enumerate() { r.set_target(o, s + F::from_canonical_u64(i as u64)); }
        r
    }
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "witness".into(), curve: idx % 4, sched: Sched::plain(r.next()), ..Default::default() };
    if r.chance(1, 4) { p.sched = Sched::swarm(r); }
    if r.chance(2, 5) {
        p.kind = "dag".into();
        let ins = r.range(1, 6);
        for i in 0..ins { let v = r.next(); p.step(if i % 2 == 0 { "pi" } else { "in" }, &[v]); }
        let n = r.range(1, if thorough { 120 } else { 60 });
        for _ in 0..n {
            let nd = *r.pick(&[0u64, 1, 1, 2, 2, 3, 5]);
            let mut a = vec![r.next(), r.range(1, 4), nd];
            for _ in 0..nd { a.push(if r.chance(1, 3) { r.next() } else { u64::max_value() - r.below(4) }); }
            p.step("gen", &a);
            if r.chance(1, 4) { let x = r.next(); p.step("copy", &[x, x >> 8]); }
            if r.chance(1, 6) { let (x, y, z) = (r.next(), r.next(), r.next()); p.step(*r.pick(&["add", "mul", "madd", "inv", "isz"]), &[x, y, z]); }
        }
    } else {
        let n = if r.chance(1, 6) { r.range(40, 260) } else { r.range(0, 30) } as usize;
        let npis = *r.pick(&[0usize, 0, 1, 2, 5, 6, 7, 8, 9, 9, 10, 11, 16, 17, 18, 19, 27, 30]);
        let curve = r.chance(1, 2);
        let hash = if r.chance(1, 4) { 1 + r.usize(3) } else { 0 };
        prog::gen_steps(r, &mut p, n, npis, curve, hash);
        if r.chance(1, if thorough { 60 } else { 400 }) || idx % 90 == 7 { let (x, y, z) = (r.next(), r.next(), r.next()); p.step("cmul", &[x, y, z]); }
    }
    p.set("rounds", r.range(2, 5));
    p
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let runs: Vec<Arc<AtomicU64>>;
    let mut it = prog::Interp::<C, I>::new();
    let mut counters = vec![];
    for (i, s) in plan.steps.iter().enumerate() {
        if s.op == "gen" {
            it.cur = i;
            let (nout, nd) = (s.arg(1).min(4) as usize, s.arg(2) as usize);
            let mut deps = vec![];
            let mut sum = C::ScalarField::from_canonical_u64(s.arg(0) >> 1);
            for j in 0..nd {
                let a = s.arg(3 + j);
                if it.vals.is_empty() { break; }
                // mostly the newest values, so that long chains form
                let k = if a > u64::max_value() - 8 { it.vals.len() - 1 - ((u64::max_value() - a) as usize).min(it.vals.len() - 1) } else { (a % it.vals.len() as u64) as usize };
                deps.push(it.vals[k].t);
                sum = it.r.add(sum, it.vals[k].v);
            }
            let out: Vec<_> = (0..nout).map(|_| it.bld.add_virtual_target()).collect();
            let c = Arc::new(AtomicU64::new(0));
            counters.push(c.clone());
            it.bld.add_generator(Node { deps, out: out.clone(), k: s.arg(0) >> 1, runs: c });
            for (j, &o) in out.iter().enumerate() {
                let v = it.r.add(sum, C::ScalarField::from_canonical_u64(j as u64));
                it.expected.push((o, v));
                it.made_by.push(i);
                it.vals.push(prog::Val { t: o, v, pi: false });
            }
        } else { it.step(i, s) }
    }
    runs = counters;
    let b = must("build", || it.finish())?;
    ctx::sample(format!("curve {} {} {}", plan.curve, plan.kind, prog::describe(&b)));
    ctx::trace(|| format!("build: {}", prog::describe(&b)));
    let key = mix(hash_str(&prog::describe(&b)), hash_str(&format!("{:?}", plan.steps)) ^ plan.curve);
    let mut first: Option<u64> = None;
    for round in 0..plan.knob("rounds").max(1) {
        // every map of every round draws new hash seeds: another order of everything
        for c in &runs { c.store(0, SeqCst); }
        let pw = must("generate-witness", || b.circuit.generate_partial_witness(b.partial()))?;
        for (k, c) in runs.iter().enumerate() {
            let n = c.load(SeqCst);
            if n != 1 { return viol("generator-runs", format!("round {}: generator {} ran {} times", round, k, n)); }
        }
        if let Err(m) = check_expected(&b, &pw, plan) { return viol("wrong-value", format!("round {}: {}", round, m)); }
        if let Err(m) = check_copies(&b.circuit, &pw) { return viol("copies", format!("round {}: {}", round, m)); }
        let w = Witness::from_partial(&pw, b.circuit.degree());
        if b.circuit.get_public_inputs(&w) != b.pis { return viol("public-inputs", format!("round {}: {:?} instead of {:?}", round, b.circuit.get_public_inputs(&w), b.pis)); }
        if let Err(m) = check_rows::<C, I>(&b.circuit, &w) { return viol("constraint", format!("round {}: {}", round, m)); }
        ctx::eval(mix(key, round), true);
        // apart from the blinding rows, the witness is one and the same in every round
        let n = b.circuit.num_gates_without_pis;
        let mut h = 0;
        for g in (0..b.circuit.degree()).filter(|g| *g + 3 < n || *g >= n) { for j in 0..WIRES { h = mix(h, hash_str(&format!("{:?}", w.get_indices(g, j)))); } }
        match first { None => first = Some(h), Some(f) if f != h => return viol("order-dependent", format!("round {} gives another witness than round 0", round)), _ => ctx::probe("same_witness_under_another_order") }
        ctx::log(h);
    }
    for u in &b.used { ctx::probe(&format!("op_{}", u)); }
    ctx::probe(&plan.kind);
    Ok(())
}
fn exec(plan: &Plan) -> Res { crate::leaf("C09", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C09", gen, exec, self_managed: false, quick_runs: 2200, thorough_runs: 20000,
        rule: "one evaluation = one complete witness generation under fresh hash seeds, checked against the reference interpreter, every gate constraint and every copy class; distinct by program, curve and round",
        real: "builder, generators, copy propagation, hash maps with their entropy-seeded hashers",
        stub: "entropy source and scheduler (simulated)",
        assumptions: &["reference values from big-integer arithmetic; rescue values from the native rescue functions"],
        required_probes: &["dag", "witness", "same_witness_under_another_order", "op_hash", "op_cadd", "op_cdbl"],
    }
}
