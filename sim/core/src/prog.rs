//! Random circuit programs: builds a circuit through the public builder while interpreting the same
//! operations with reference arithmetic.
use crate::plan::{Plan, Step};
use crate::refm::{self, R};
use crate::rng::Rng;
use num::bigint::BigUint;
use plonky::*;

#[derive(Clone, Copy)]
pub struct Val<F: Field> { pub t: Target<F>, pub v: F, pub pi: bool }
#[derive(Clone, Copy)]
pub struct Pt<F: Field> { pub x: Val<F>, pub y: Val<F> }

pub struct Built<C: HaloCurve> {
    pub circuit: Circuit<C>,
    pub inputs: Vec<(Target<C::ScalarField>, C::ScalarField)>,
    /// every target the program knows, with the value it must have
    pub expected: Vec<(Target<C::ScalarField>, C::ScalarField)>,
    /// index of the step that made expected[i]
    pub made_by: Vec<usize>,
    pub pis: Vec<C::ScalarField>,
    pub used: Vec<String>,
    pub gates: usize,
    /// pairs of targets tied together by the program itself
    pub copies: Vec<(Target<C::ScalarField>, Target<C::ScalarField>)>,
}

impl<C: HaloCurve> Built<C> {
    pub fn partial(&self) -> PartialWitness<C::ScalarField> {
        let mut w = PartialWitness::new();
        for &(t, v) in &self.inputs { w.set_target(t, v); }
        w
    }
}

/// Which operations a generator may use.
pub const ARITH: &[&str] = &["pi", "in", "const", "bit", "add", "sub", "mul", "madd", "msub", "neg", "dbl", "sq", "sel", "not", "isz", "isnz", "eq", "neq",
    "inv", "div", "expc", "expf", "addm", "mulm", "copy", "ccopy", "azero", "aone", "abin", "anz", "base4", "raw", "buf"];

pub fn gen_steps(r: &mut Rng, plan: &mut Plan, n: usize, npis: usize, curve_ops: bool, hash_ops: usize) {
    let mut steps: Vec<Step> = vec![];
    let mut push = |op: &str, a: Vec<u64>| steps.push(Step { op: op.to_string(), a });
    let val = |r: &mut Rng| -> u64 { if r.chance(1, 2) { r.below(121) } else { r.next() | 999 } };
    // some of the public inputs may be results, the first one never
    let outs = if npis > 1 && r.chance(1, 3) { r.range(1, npis as u64) as usize } else { 0 };
    for _ in 0..npis - outs { let v = val(r); push("pi", vec![v]); }
    for _ in 0..r.range(0, 4) { let v = val(r); push("in", vec![v]); }
    if r.chance(1, 2) { let v = r.below(2); push("bit", vec![v]); }
    for _ in 0..n {
        let op = *r.pick(&ARITH[1..]);
        let a = match op {
            "in" | "const" => vec![val(r)],
            "bit" => vec![r.below(2)],
            "expc" => vec![r.next(), if r.chance(1, 5) { r.next() >> r.range(0, 64) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 16, 31]) }],
            "expf" => { let sh = match r.below(8) { 0 => r.range(60, 70), 1 => r.range(124, 132), 2 => r.range(180, 200), _ => 0 }; vec![r.next(), r.next() >> r.range(20, 64), sh] }
            "base4" => { let k = r.range(1, 9); let mut v = vec![k]; for _ in 0..k { v.push(r.below(4)); } v }
            "addm" | "mulm" => { let k = r.range(0, 4); (0..k).map(|_| r.next()).collect() }
            "raw" => vec![r.next(), r.next(), r.next(), val(r), val(r)],
            "buf" => vec![r.range(1, 3)],
            _ => vec![r.next(), r.next(), r.next()],
        };
        push(op, a);
    }
    for _ in 0..outs { let a = vec![r.next(), r.next()]; push("pio", a); }
    if curve_ops {
        for _ in 0..r.range(1, 3) { let k = r.next(); push("pt", vec![k]); }
        for _ in 0..r.range(1, 6) {
            let op = *r.pick(&["pt", "ptc", "cadd", "cadd", "cdbl", "cdbl", "cneg", "csub", "cvalid", "cuse"]);
            let a = vec![r.next(), r.next()];
            push(op, a);
        }
    }
    for _ in 0..hash_ops {
        let k = r.range(0, 8);
        let mut a = vec![r.range(1, 4), k];
        for _ in 0..k { a.push(r.next()); }
        if r.chance(1, 4) { push("perm", (0..4).map(|_| r.next()).collect()) } else { push("hash", a) }
    }
    plan.steps.extend(steps);
    let _ = plan;
}

pub struct Interp<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>> {
    pub bld: CircuitBuilder<C>,
    pub vals: Vec<Val<C::ScalarField>>,
    pub bits: Vec<Val<C::ScalarField>>,
    pub pts: Vec<Pt<C::ScalarField>>,
    pub inputs: Vec<(Target<C::ScalarField>, C::ScalarField)>,
    pub expected: Vec<(Target<C::ScalarField>, C::ScalarField)>,
    pub made_by: Vec<usize>,
    pub pis: Vec<C::ScalarField>,
    pub used: Vec<String>,
    pub copies: Vec<(Target<C::ScalarField>, Target<C::ScalarField>)>,
    pub r: R,
    pub cur: usize,
    _i: std::marker::PhantomData<I>,
}

impl<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>> Interp<C, I> {
    pub fn new() -> Self {
        Interp { bld: CircuitBuilder::new(128), vals: vec![], bits: vec![], pts: vec![], inputs: vec![], expected: vec![], made_by: vec![],
            pis: vec![], used: vec![], copies: vec![], r: R::of::<C::ScalarField>(), cur: 0, _i: std::marker::PhantomData }
    }
    fn rec(&mut self, t: Target<C::ScalarField>, v: C::ScalarField) -> Val<C::ScalarField> {
        self.expected.push((t, v));
        self.made_by.push(self.cur);
        let x = Val { t, v, pi: false };
        self.vals.push(x);
        x
    }
    fn get(&mut self, i: u64) -> Val<C::ScalarField> {
        if self.vals.is_empty() {
            let t = self.bld.add_virtual_target();
            let v = self.r.val(i | 999);
            self.inputs.push((t, v));
            self.rec(t, v);
        }
        self.vals[(i % self.vals.len() as u64) as usize]
    }
    pub fn record(&mut self, t: Target<C::ScalarField>, v: C::ScalarField) -> Val<C::ScalarField> { self.rec(t, v) }
    pub fn value(&mut self, i: u64) -> Val<C::ScalarField> { self.get(i) }
    fn bit(&mut self, i: u64) -> Val<C::ScalarField> {
        if self.bits.is_empty() {
            let t = self.bld.add_virtual_target();
            let v = C::ScalarField::from_canonical_bool(i & 1 == 1);
            self.inputs.push((t, v));
            let x = self.rec(t, v);
            self.bits.push(x);
        }
        self.bits[(i % self.bits.len() as u64) as usize]
    }
    fn pt(&mut self, i: u64) -> Pt<C::ScalarField> {
        if self.pts.is_empty() { self.new_point(i); }
        self.pts[(i % self.pts.len() as u64) as usize]
    }
    fn point_value(&self, k: u64) -> (C::ScalarField, C::ScalarField) {
        let g = (I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y);
        let k = if k % 4 == 0 { k % 9 + 1 } else { (k >> 40) + 1 };
        self.r.ec_mul(g, &BigUint::from(k)).unwrap()
    }
    fn new_point(&mut self, k: u64) {
        let (x, y) = self.point_value(k);
        let p = self.bld.add_virtual_point_target::<I>();
        self.inputs.push((p.x, x));
        self.inputs.push((p.y, y));
        let (x, y) = (self.rec(p.x, x), self.rec(p.y, y));
        self.pts.push(Pt { x, y });
    }
    pub fn step(&mut self, idx: usize, s: &Step) {
        self.cur = idx;
        let r = self.r.clone();
        let a = |i: usize| s.arg(i);
        let zero = C::ScalarField::ZERO;
        let one = C::ScalarField::ONE;
        let bool_f = |b: bool| C::ScalarField::from_canonical_bool(b);
        let mut done = true;
        match s.op.as_str() {
            "pi" => {
                let mut v: C::ScalarField = r.val(a(0));
                if refm::b(v) >= refm::modulus::<C::BaseField>() { v = one; }
                let t = self.bld.add_public_input();
                self.inputs.push((t, v));
                self.pis.push(v);
                self.vals.push(Val { t, v, pi: true });
                self.expected.push((t, v));
                self.made_by.push(idx);
            }
            "pio" => {
                let x = self.get(a(0));
                if refm::b(x.v) >= refm::modulus::<C::BaseField>() { done = false } else {
                    let t = self.bld.add_public_input();
                    if a(1) & 1 == 0 { self.bld.copy(x.t, t) } else { self.bld.copy(t, x.t) }
                    self.pis.push(x.v);
                    self.vals.push(Val { t, v: x.v, pi: true });
                    self.expected.push((t, x.v));
                    self.made_by.push(idx);
                }
            }
            "in" => { let t = self.bld.add_virtual_target(); let v = r.val(a(0)); self.inputs.push((t, v)); self.rec(t, v); }
            "const" => { let v = r.val(a(0)); let t = self.bld.constant_wire(v); self.rec(t, v); }
            "bit" => { let t = self.bld.add_virtual_target(); let v = bool_f(a(0) & 1 == 1); self.inputs.push((t, v)); let x = self.rec(t, v); self.bits.push(x); }
            "add" => { let (x, y) = (self.get(a(0)), self.get(a(1))); let t = self.bld.add(x.t, y.t); self.rec(t, r.add(x.v, y.v)); }
            "sub" => { let (x, y) = (self.get(a(0)), self.get(a(1))); let t = self.bld.sub(x.t, y.t); self.rec(t, r.sub(x.v, y.v)); }
            "mul" => { let (x, y) = (self.get(a(0)), self.get(a(1))); let t = self.bld.mul(x.t, y.t); self.rec(t, r.mul(x.v, y.v)); }
            "madd" => { let (x, y, z) = (self.get(a(0)), self.get(a(1)), self.get(a(2))); let t = self.bld.mul_add(x.t, y.t, z.t); self.rec(t, r.add(r.mul(x.v, y.v), z.v)); }
            "msub" => { let (x, y, z) = (self.get(a(0)), self.get(a(1)), self.get(a(2))); let t = self.bld.mul_sub(x.t, y.t, z.t); self.rec(t, r.sub(r.mul(x.v, y.v), z.v)); }
            "neg" => { let x = self.get(a(0)); let t = self.bld.neg(x.t); self.rec(t, r.neg(x.v)); }
            "dbl" => { let x = self.get(a(0)); let t = self.bld.double(x.t); self.rec(t, r.add(x.v, x.v)); }
            "sq" => { let x = self.get(a(0)); let t = self.bld.square(x.t); self.rec(t, r.mul(x.v, x.v)); }
            "sel" => { let (c, x, y) = (self.bit(a(0)), self.get(a(1)), self.get(a(2))); let t = self.bld.select(c.t, x.t, y.t); self.rec(t, if c.v == one { x.v } else { y.v }); }
            "not" => { let c = self.bit(a(0)); let t = self.bld.not(c.t); let x = self.rec(t, if c.v == one { zero } else { one }); self.bits.push(x); }
            "isz" => { let x = self.get(a(0)); let t = self.bld.is_zero(x.t); let y = self.rec(t, bool_f(x.v == zero)); self.bits.push(y); }
            "isnz" => { let x = self.get(a(0)); let t = self.bld.is_nonzero(x.t); let y = self.rec(t, bool_f(x.v != zero)); self.bits.push(y); }
            "eq" => { let (x, y) = (self.get(a(0)), self.get(a(1))); let t = self.bld.is_equal(x.t, y.t); let z = self.rec(t, bool_f(x.v == y.v)); self.bits.push(z); }
            "neq" => { let (x, y) = (self.get(a(0)), self.get(a(1))); let t = self.bld.is_not_equal(x.t, y.t); let z = self.rec(t, bool_f(x.v != y.v)); self.bits.push(z); }
            "inv" => { let x = self.get(a(0)); if x.v == zero { done = false } else { let t = self.bld.inv(x.t); self.rec(t, r.inv(x.v)); } }
            "div" => { let (x, y) = (self.get(a(0)), self.get(a(1))); if y.v == zero { done = false } else { let t = self.bld.div(x.t, y.t); self.rec(t, r.mul(x.v, r.inv(y.v))); } }
            "expc" => {
                let x = self.get(a(0));
                let t = self.bld.exp_constant_usize(x.t, a(1) as usize);
                self.rec(t, r.pow(x.v, &BigUint::from(a(1))));
            }
            "expf" => {
                let x = self.get(a(0));
                let e = BigUint::from(a(1)) << (a(2) % 200) as usize;
                let t = self.bld.exp_constant(x.t, refm::f(&e));
                self.rec(t, r.pow(x.v, &e));
            }
            "addm" => { let xs: Vec<_> = s.a.iter().map(|&i| self.get(i)).collect(); let t = self.bld.add_many(&xs.iter().map(|x| x.t).collect::<Vec<_>>()); let v = xs.iter().fold(zero, |p, x| r.add(p, x.v)); self.rec(t, v); }
            "mulm" => { let xs: Vec<_> = s.a.iter().map(|&i| self.get(i)).collect(); let t = self.bld.mul_many(&xs.iter().map(|x| x.t).collect::<Vec<_>>()); let v = xs.iter().fold(one, |p, x| r.mul(p, x.v)); self.rec(t, v); }
            "copy" => { let x = self.get(a(0)); let t = self.bld.add_virtual_target(); if a(1) & 1 == 0 { self.bld.copy(x.t, t) } else { self.bld.copy(t, x.t) } self.copies.push((x.t, t)); self.rec(t, x.v); }
            "ccopy" => {
                let (c, x, y) = (self.bit(a(0)), self.get(a(1)), self.get(a(2)));
                if c.v == zero || x.v == y.v { self.bld.conditional_copy(c.t, x.t, y.t) } else { done = false }
            }
            "azero" => { let (x, y) = (self.get(a(0)), self.get(a(0))); let d = self.bld.sub(x.t, y.t); self.rec(d, zero); self.bld.assert_zero(d); }
            "aone" => { let x = self.get(a(0)); if x.v == one { self.bld.assert_one(x.t) } else if x.v != zero { let t = self.bld.div(x.t, x.t); self.rec(t, one); self.bld.assert_one(t) } else { done = false } }
            "abin" => { let c = self.bit(a(0)); self.bld.assert_binary(c.t) }
            "anz" => { let x = self.get(a(0)); if x.v == zero { done = false } else { self.bld.assert_nonzero(x.t) } }
            "base4" => {
                let k = a(0) as usize;
                let mut ts = vec![];
                for i in 0..k {
                    let t = self.bld.add_virtual_target();
                    let v = C::ScalarField::from_canonical_u64(a(1 + i) % 4);
                    self.inputs.push((t, v));
                    self.rec(t, v);
                    ts.push(t);
                }
                self.bld.assert_all_base_4(&ts);
            }
            "raw" => {
                let (x, y, z) = (self.get(a(0)), self.get(a(1)), self.get(a(2)));
                let (c0, c1): (C::ScalarField, C::ScalarField) = (r.val(a(3)), r.val(a(4)));
                let g = self.bld.num_gates();
                self.bld.add_gate(ArithmeticGate::<C>::new(g), vec![c0, c1]);
                let w = |i| Target::Wire(Wire { gate: g, input: i });
                self.bld.copy(x.t, w(ArithmeticGate::<C>::WIRE_MULTIPLICAND_0));
                self.bld.copy(y.t, w(ArithmeticGate::<C>::WIRE_MULTIPLICAND_1));
                self.bld.copy(z.t, w(ArithmeticGate::<C>::WIRE_ADDEND));
                let v = r.add(r.mul(c0, r.mul(x.v, y.v)), r.mul(c1, z.v));
                self.rec(w(ArithmeticGate::<C>::WIRE_OUTPUT), v);
            }
            "buf" => { for _ in 0..a(0).min(4096) { let g = self.bld.num_gates(); self.bld.add_gate_no_constants(BufferGate::new(g)); } }
            "fill" => { while self.bld.num_gates() < a(0).min(4096) as usize { let g = self.bld.num_gates(); self.bld.add_gate_no_constants(BufferGate::new(g)); } }
            "hash" => {
                let n = (a(1) as usize).min(16);
                let xs: Vec<_> = (0..n).map(|i| self.get(a(2 + i))).collect();
                let ts: Vec<_> = xs.iter().map(|x| x.t).collect();
                let vs: Vec<_> = xs.iter().map(|x| x.v).collect();
                match a(0) {
                    1 => { let t = self.bld.rescue_hash_n_to_1(&ts); self.rec(t, rescue_hash_n_to_1(vs, 128)); }
                    2 => { let t = self.bld.rescue_hash_n_to_2(&ts); let v = rescue_hash_n_to_2(vs, 128); self.rec(t.0, v.0); self.rec(t.1, v.1); }
                    3 => { let t = self.bld.rescue_hash_n_to_3(&ts); let v = rescue_hash_n_to_3(vs, 128); self.rec(t.0, v.0); self.rec(t.1, v.1); self.rec(t.2, v.2); }
                    k => { let k = (k % 8 + 1) as usize; let t = self.bld.rescue_sponge(&ts, k); let v = rescue_sponge(vs, k, 128); for i in 0..k { self.rec(t[i], v[i]); } }
                }
            }
            "perm" => {
                let xs: Vec<_> = (0..4).map(|i| self.get(a(i))).collect();
                let t = self.bld.rescue_permutation(&xs.iter().map(|x| x.t).collect::<Vec<_>>());
                let v = rescue_permutation(&xs.iter().map(|x| x.v).collect::<Vec<_>>(), 128);
                for i in 0..4 { self.rec(t[i], v[i]); }
            }
            "pt" => self.new_point(a(0)),
            "ptc" => {
                let (x, y) = self.point_value(a(0));
                let p = self.bld.constant_affine_point::<I>(AffinePoint::nonzero(x, y));
                let (x, y) = (self.rec(p.x, x), self.rec(p.y, y));
                self.pts.push(Pt { x, y });
            }
            "cadd" | "csub" => {
                let (p, q) = (self.pt(a(0)), self.pt(a(1)));
                let qv = (q.x.v, if s.op == "csub" { r.neg(q.y.v) } else { q.y.v });
                if p.x.v == q.x.v { done = false } else {
                    let (pt, qt) = (AffinePointTarget::<I> { x: p.x.t, y: p.y.t }, AffinePointTarget::<I> { x: q.x.t, y: q.y.t });
                    let t = if s.op == "csub" { self.bld.curve_sub::<I>(pt, qt) } else { self.bld.curve_add::<I>(pt, qt) };
                    let v = r.ec_add((p.x.v, p.y.v), qv).unwrap();
                    let (x, y) = (self.rec(t.x, v.0), self.rec(t.y, v.1));
                    self.pts.push(Pt { x, y });
                }
            }
            "cdbl" => {
                let p = self.pt(a(0));
                let t = self.bld.curve_double::<I>(AffinePointTarget { x: p.x.t, y: p.y.t });
                let v = r.ec_add((p.x.v, p.y.v), (p.x.v, p.y.v)).unwrap();
                let (x, y) = (self.rec(t.x, v.0), self.rec(t.y, v.1));
                self.pts.push(Pt { x, y });
            }
            "cneg" => {
                let p = self.pt(a(0));
                let t = self.bld.curve_neg::<I>(AffinePointTarget { x: p.x.t, y: p.y.t });
                let y = self.rec(t.y, r.neg(p.y.v));
                self.pts.push(Pt { x: Val { t: t.x, ..p.x }, y });
            }
            "cvalid" => { let p = self.pt(a(0)); self.bld.curve_assert_valid::<I>(AffinePointTarget { x: p.x.t, y: p.y.t }); }
            "cuse" => { let (p, x) = (self.pt(a(0)), self.get(a(1))); let t = self.bld.add(p.x.t, x.t); self.rec(t, r.add(p.x.v, x.v)); }
            "cmul" => {
                let p = self.pt(a(0));
                let k = BigUint::from(a(1) | 1) << (a(2) % 190) as u32;
                let kv: C::ScalarField = refm::f(&k);
                let t = self.bld.add_virtual_target();
                self.inputs.push((t, kv));
                self.rec(t, kv);
                let res = self.bld.curve_mul::<I>(CurveMulOp { scalar: t, point: AffinePointTarget { x: p.x.t, y: p.y.t } });
                let v = r.ec_mul((p.x.v, p.y.v), &k).unwrap();
                let (x, y) = (self.rec(res.x, v.0), self.rec(res.y, v.1));
                self.pts.push(Pt { x, y });
            }
            _ => done = false,
        }
        if done { self.used.push(s.op.clone()); }
    }
    pub fn finish(self) -> Built<C> {
        let gates = self.bld.num_gates();
        Built { circuit: self.bld.build(), inputs: self.inputs, expected: self.expected, made_by: self.made_by, pis: self.pis, used: self.used, gates, copies: self.copies }
    }
}

pub fn build<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(steps: &[Step]) -> Built<C> {
    let mut it = Interp::<C, I>::new();
    for (i, s) in steps.iter().enumerate() { it.step(i, s); }
    it.finish()
}
pub fn describe<C: HaloCurve>(b: &Built<C>) -> String {
    let mut m = std::collections::BTreeMap::new();
    for u in &b.used { *m.entry(u.clone()).or_insert(0) += 1; }
    format!("degree {} public inputs {} ops {}", b.circuit.degree(), b.pis.len(), m.iter().map(|(k, n)| if *n == 1 { k.clone() } else { format!("{}x{}", k, n) }).collect::<Vec<_>>().join(","))
}

