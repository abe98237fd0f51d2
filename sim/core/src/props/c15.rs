//! C15: wide-integer, comparison, foreign-field and square-root gadgets compute exact values in every
//! witness-generation order.
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::{Plan, Step};
use crate::prog;
use crate::refm::{self, R};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::*;
use std::cmp::Ordering;

const LIMB: usize = 86;
const MAX_LIMBS: usize = 8;

/// A number for a code; most codes are edges of the limb encoding.
fn wide(code: u64, orders: &[BigUint]) -> BigUint {
    let mut r = Rng::new(code);
    let one = BigUint::one();
    let x = match code % 24 {
        0 => BigUint::zero(),
        1 => one,
        2 => BigUint::from(r.below(16)),
        3 => (BigUint::one() << LIMB) - one,
        4 => BigUint::one() << LIMB,
        5 => (BigUint::one() << LIMB) + one,
        6 => (BigUint::one() << (2 * LIMB)) - one,
        7 => BigUint::one() << (2 * LIMB),
        8 => BigUint::one() << (2 * LIMB - 1),
        9 => (BigUint::one() << (2 * LIMB - 1)) - one,
        10 => (BigUint::one() << (3 * LIMB)) - one,
        11 => BigUint::one() << r.range(0, 400) as usize,
        12 => (BigUint::one() << r.range(1, 400) as usize) - one,
        13 => orders[0].clone(),
        14 => orders[1].clone(),
        15 => &orders[r.usize(2)] - one,
        16 => (BigUint::one() << (LIMB * r.range(1, 4) as usize)) - BigUint::from(r.range(1, 4)),
        17 => BigUint::from(r.range(1, 4)) << (LIMB * r.range(1, 4) as usize),
        _ => {
            let bits = r.range(1, 440) as usize;
            let mut x = BigUint::zero();
            for _ in 0..7 { x = (x << 64usize) + BigUint::from(r.next()); }
            x % (BigUint::one() << bits)
        }
    };
    x
}
fn limbs_of(v: &BigUint, n: usize) -> Vec<BigUint> {
    let m = (BigUint::one() << LIMB) - BigUint::one();
    (0..n).map(|i| (v >> (i * LIMB)) & &m).collect()
}
fn bits(v: &BigUint) -> usize { v.to_str_radix(2).len() * !v.is_zero() as usize }
fn n_limbs(v: &BigUint) -> usize { (bits(v) + LIMB - 1) / LIMB }

#[derive(Clone)]
struct Big<F: Field> { t: BigIntTarget<F>, v: BigUint, by: usize }
struct Late<F: Field> { deps: Vec<Target<F>>, out: BigIntTarget<F>, v: BigUint }
impl<F: Field> WitnessGenerator<F> for Late<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.deps.clone() }
    fn generate(&self, _c: &[Vec<F>], _w: &PartialWitness<F>) -> PartialWitness<F> {
        let mut r = PartialWitness::new();
        r.set_bigint_target(&self.out, &self.v);
        r
    }
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "wide".into(), curve: idx % 4, sched: Sched::plain(r.next()), ..Default::default() };
    if r.chance(1, 4) { p.sched = Sched::swarm(r); }
    let a3 = |r: &mut Rng| { let mut v = vec![r.next(), r.next(), r.next()]; for k in 0..2 { if r.chance(1, 2) { v[k] = u64::max_value() - r.below(3); } } v };
    let n = r.range(1, if thorough { 20 } else { 9 });
    for _ in 0..r.range(0, 3) { let v = r.next(); p.step(*r.pick(&["in", "pi", "const"]), &[v]); }
    for _ in 0..r.range(1, 4) { let a = a3(r); p.step(*r.pick(&["bc", "bi", "bl"]), &a); }
    let m = u64::max_value();
    for _ in 0..n {
        let a = a3(r);
        if r.chance(1, 10) {
            // a sum whose bounds by limb and as a whole differ, used further
            p.step(*r.pick(&["bc", "bi"]), &[24 * r.range(0, 99) + 8, 0, 0]);
            p.step(*r.pick(&["bc", "bi"]), &[24 * r.range(0, 99) + 9, 0, 0]);
            p.step("badd", &[m, m - 1, 0]);
            p.step(*r.pick(&["bmul", "bmul", "bdr", "bcmp", "badd"]), &[m, r.next(), 0]);
            if r.chance(1, 2) { p.step(*r.pick(&["bmul", "bdr", "bcmp"]), &[r.next(), m - 1, 0]); }
            continue;
        }
        match r.below(20) {
            0 => p.step("bc", &[r.next(), 0, 0]),
            1 => p.step("bi", &[r.next(), a[1], a[2]]),
            2 => p.step("bl", &[r.next(), a[1], a[2]]),
            3 | 4 => p.step("badd", &a),
            5 => { let k = r.range(1, 5); let v: Vec<_> = (0..k).map(|_| r.next()).collect(); p.step("baddm", &v) }
            6 | 7 => p.step("bmul", &a),
            8 | 9 => p.step("bdr", &a),
            10 => p.step(*r.pick(&["bdiv", "brem"]), &a),
            11 | 12 => p.step("bcmp", &a),
            13 => p.step("bcopy", &a),
            14 => p.step("fc", &[r.next(), 0, 0]),
            15 => p.step("fadd", &a),
            16 => { let k = r.range(1, 4); let v: Vec<_> = (0..k).map(|_| r.next()).collect(); p.step("faddm", &v) }
            17 => p.step("fmul", &a),
            18 => p.step("sqrt", &a),
            _ => p.step(*r.pick(&["add", "mul", "copy", "isz", "sel", "eq"]), &a),
        };
    }
    p.set("rounds", r.range(2, 4));
    p
}

struct Run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>> {
    it: prog::Interp<C, I>,
    bigs: Vec<Big<C::ScalarField>>,
    ffs: Vec<(ForeignFieldTarget<C::ScalarField, C::BaseField>, BigUint, usize)>,
    big_inputs: Vec<(BigIntTarget<C::ScalarField>, BigUint)>,
    ords: Vec<(OrderingTarget<C::ScalarField>, Ordering, usize)>,
    orders: Vec<BigUint>,
}
impl<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>> Run<C, I> {
    fn big(&mut self, a: u64) -> Big<C::ScalarField> {
        if self.bigs.is_empty() { let v = BigUint::from(a); let t = self.it.bld.constant_bigint(&v); self.put(t, v); }
        let n = self.bigs.len();
        let k = if a > u64::max_value() - 8 { n - 1 - ((u64::max_value() - a) as usize).min(n - 1) } else { (a % n as u64) as usize };
        self.bigs[k].clone()
    }
    fn ff(&mut self, a: u64) -> (ForeignFieldTarget<C::ScalarField, C::BaseField>, BigUint) {
        if self.ffs.is_empty() { self.step(&Step { op: "fc".into(), a: vec![a] }); }
        let x = &self.ffs[(a % self.ffs.len() as u64) as usize];
        (x.0.clone(), x.1.clone())
    }
    fn put(&mut self, t: BigIntTarget<C::ScalarField>, v: BigUint) {
        // limbs are ordinary values for the rest of the program
        let l = limbs_of(&v, t.num_limbs());
        for (i, x) in l.iter().enumerate() { let x = refm::f(x); self.it.record(t.limbs[i], x); }
        let by = self.it.cur;
        self.bigs.push(Big { t, v, by });
    }
    /// a bound for an input, tight or loose
    fn bound(v: &BigUint, code: u64) -> BigUint {
        match code % 4 { 0 => v.clone(), 1 => (BigUint::one() << bits(v)) - BigUint::one(), 2 => (BigUint::one() << (n_limbs(v) * LIMB)) - BigUint::one(), _ => (v << (code / 4 % 100) as usize) + BigUint::from(code % 1000) }
    }
    fn step(&mut self, s: &Step) {
        let a = |i: usize| s.arg(i);
        let mut done = true;
        match s.op.as_str() {
            "bc" => { let v = wide(a(0), &self.orders); let t = self.it.bld.constant_bigint(&v); self.put(t, v); }
            "bi" => {
                let v = wide(a(0), &self.orders);
                let t = self.it.bld.add_virtual_bigint_target(&Self::bound(&v, a(2)), a(1) & 1 == 1);
                self.big_inputs.push((t.clone(), v.clone()));
                self.put(t, v);
            }
            "bl" => {
                let v = wide(a(0), &self.orders);
                let deps: Vec<_> = (0..a(1) % 3).map(|k| self.it.value(a(1) >> (8 * k as u32)).t).collect();
                let t = self.it.bld.add_virtual_bigint_target(&Self::bound(&v, a(2)), a(2) & 8 == 8);
                self.it.bld.add_generator(Late { deps, out: t.clone(), v: v.clone() });
                self.put(t, v);
            }
            "badd" => { let (x, y) = (self.big(a(0)), self.big(a(1))); let t = self.it.bld.bigint_add(&x.t, &y.t); self.put(t, x.v + y.v); }
            "baddm" => {
                let xs: Vec<_> = s.a.iter().map(|&i| self.big(i)).collect();
                if xs.is_empty() { done = false } else {
                    let t = self.it.bld.bigint_add_many(&xs.iter().map(|x| x.t.clone()).collect::<Vec<_>>());
                    self.put(t, xs.iter().fold(BigUint::zero(), |s, x| s + &x.v));
                }
            }
            "bmul" => {
                let (x, y) = (self.big(a(0)), self.big(a(1)));
                if x.t.num_limbs() + y.t.num_limbs() > MAX_LIMBS { done = false } else { let t = self.it.bld.bigint_mul(&x.t, &y.t); self.put(t, x.v * y.v); }
            }
            "bdr" | "bdiv" | "brem" => {
                let (x, y) = (self.big(a(0)), self.big(a(1)));
                if y.v.is_zero() || x.t.num_limbs() + y.t.num_limbs() > MAX_LIMBS { done = false } else {
                    let (d, m) = (&x.v / &y.v, &x.v % &y.v);
                    match s.op.as_str() {
                        "bdiv" => { let t = self.it.bld.bigint_div(&x.t, &y.t); self.put(t, d) }
                        "brem" => { let t = self.it.bld.bigint_rem(&x.t, &y.t); self.put(t, m) }
                        _ => { let t = self.it.bld.bigint_div_rem(&x.t, &y.t); self.put(t.0, d); self.put(t.1, m) }
                    }
                }
            }
            "bcmp" => {
                let (x, y) = (self.big(a(0)), self.big(a(1)));
                let o = self.it.bld.bigint_cmp(&x.t, &y.t);
                let w = x.v.cmp(&y.v);
                for (t, k) in vec![(o.lt, Ordering::Less), (o.eq, Ordering::Equal), (o.gt, Ordering::Greater)] {
                    let b = self.it.record(t, C::ScalarField::from_canonical_bool(w == k));
                    self.it.bits.push(b);
                }
                let by = self.it.cur;
                self.ords.push((o, w, by));
                ctx::probe(&format!("cmp_{:?}", w));
            }
            "bcopy" => {
                // an unset number with perhaps more limbs, tied to a known one
                let x = self.big(a(0));
                let t = self.it.bld.add_virtual_bigint_target(&Self::bound(&x.v, a(2)), false);
                if a(1) & 1 == 0 { self.it.bld.copy_bigint(&x.t, &t) } else { self.it.bld.copy_bigint(&t, &x.t) }
                self.put(t, x.v);
            }
            "fc" => {
                let v = wide(a(0), &self.orders) % refm::modulus::<C::BaseField>();
                let t = self.it.bld.constant_foreign_field::<C::BaseField>(refm::f(&v));
                let by = self.it.cur;
                self.put(t.value.clone(), v.clone());
                self.ffs.push((t, v, by));
            }
            "fadd" | "fmul" | "faddm" => {
                let n = if s.op == "faddm" { s.a.len() } else { 2 };
                if n == 0 { return }
                let xs: Vec<_> = (0..n).map(|i| self.ff(a(i))).collect();
                let q = refm::modulus::<C::BaseField>();
                let (t, v) = match s.op.as_str() {
                    "fadd" => (self.it.bld.foreign_field_add::<C::BaseField>(&xs[0].0, &xs[1].0), (&xs[0].1 + &xs[1].1) % q),
                    "fmul" => (self.it.bld.foreign_field_mul::<C::BaseField>(&xs[0].0, &xs[1].0), (&xs[0].1 * &xs[1].1) % q),
                    _ => (self.it.bld.foreign_field_add_many::<C::BaseField>(&xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), xs.iter().fold(BigUint::zero(), |s, x| s + &x.1) % q),
                };
                let by = self.it.cur;
                self.put(t.value.clone(), v.clone());
                self.ffs.push((t, v, by));
            }
            "sqrt" => {
                // the root with an even canonical value
                let x = self.it.value(a(0));
                let r = R::of::<C::ScalarField>();
                let y = r.mul(x.v, x.v);
                let sq = self.it.bld.square(x.t);
                self.it.record(sq, y);
                let t = self.it.bld.deterministic_square_root(sq);
                let b = refm::b(x.v);
                self.it.record(t, if (&b % 2u32).is_zero() { x.v } else { r.neg(x.v) });
            }
            _ => { let c = self.it.cur; self.it.step(c, s); return }
        }
        if done { self.it.used.push(s.op.clone()); }
    }
}

pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let mut x = Run::<C, I> { it: prog::Interp::new(), bigs: vec![], ffs: vec![], big_inputs: vec![], ords: vec![], orders: vec![refm::modulus::<C::ScalarField>(), refm::modulus::<C::BaseField>()] };
    for (i, s) in plan.steps.iter().enumerate() {
        x.it.cur = i;
        must(&format!("build-{}", s.op), || { x.step(s); })?;
    }
    let Run { it, bigs, ffs, big_inputs, ords, .. } = x;
    let b = must("build", || it.finish())?;
    ctx::sample(format!("curve {} {}", plan.curve, prog::describe(&b)));
    ctx::trace(|| format!("build: {}", prog::describe(&b)));
    let op = |k: usize| plan.steps.get(k).map(|s| s.op.clone()).unwrap_or_default();
    for g in &bigs {
        if g.v > g.t.max { return viol("bound", format!("step {} ({}): value {} exceeds the bound {} its target claims", g.by, op(g.by), g.v, g.t.max)); }
        if n_limbs(&g.v) > g.t.num_limbs() { return viol("limbs", format!("step {} ({}): {} limbs cannot hold {}", g.by, op(g.by), g.t.num_limbs(), g.v)); }
    }
    let key = mix(hash_str(&prog::describe(&b)), hash_str(&format!("{:?}", plan.steps)) ^ plan.curve);
    for round in 0..plan.knob("rounds").max(1) {
        let mut inputs = b.partial();
        for (t, v) in &big_inputs { inputs.set_bigint_target(t, v); }
        let pw = must("generate-witness", || b.circuit.generate_partial_witness(inputs))?;
        let mut h = 0;
        for (k, &(t, v)) in b.expected.iter().enumerate() {
            if let Target::PublicInput(_) = t { continue; }
            let by = b.made_by[k];
            if !pw.contains_target(t) { return viol("missing", format!("round {}: a result of step {} ({}) was never computed", round, by, op(by))); }
            let got = pw.get_target(t);
            if got != v { return viol("wrong-value", format!("round {}: a result of step {} ({}) is {:?}, should be {:?}", round, by, op(by), got, v)); }
            h = mix(h, hash_str(&format!("{:?}", got)));
        }
        for g in &bigs {
            let got = must("read", || pw.get_bigint_target(&g.t))?;
            if got != g.v { return viol("wrong-number", format!("round {}: step {} ({}) gives {}, should be {}", round, g.by, op(g.by), got, g.v)); }
        }
        for (t, v, by) in &ffs {
            let got: C::BaseField = must("read", || pw.get_foreign_field_target(t))?;
            if refm::b(got) != *v { return viol("wrong-element", format!("round {}: step {} ({}) gives {:?}, should be {}", round, by, op(*by), got, v)); }
        }
        for (t, w, by) in &ords {
            let got = must("read", || pw.get_ordering_target(*t))?;
            if got != *w { return viol("wrong-order", format!("round {}: step {} ({}) says {:?}, should be {:?}", round, by, op(*by), got, w)); }
        }
        ctx::eval(mix(key, round), true);
        ctx::log(h);
    }
    for u in &b.used { ctx::probe(&format!("op_{}", u)); }
    Ok(())
}
fn exec(plan: &Plan) -> Res { crate::leaf("C15", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C15", gen, exec, self_managed: false, quick_runs: 600, thorough_runs: 12000,
        rule: "one evaluation = one complete witness generation under fresh hash seeds, every number, field element, ordering and limb compared with big-integer arithmetic; distinct by program, curve and round",
        real: "builder, wide-integer, comparison, foreign-field and square-root gadgets, generators, copy propagation, hash maps with their entropy-seeded hashers",
        stub: "entropy source and scheduler (simulated)",
        assumptions: &["values only: whether a dishonest prover could claim other values is not decided here (C26)"],
        required_probes: &["op_badd", "op_bmul", "op_bdr", "op_bcmp", "op_fadd", "op_fmul", "op_sqrt", "op_bcopy", "cmp_Equal"],
    }
}
