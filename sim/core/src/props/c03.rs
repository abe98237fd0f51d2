//! C03: a prover that deviates from the protocol gets no false statement accepted.
use super::c01::{prove, verify};
use super::c09::{check_rows, WIRES};
use crate::byz::{self, rf, Attack, Z};
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog::{self, Built};
use crate::refm::R;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;
use std::collections::BTreeMap;

type Rows<F> = Vec<Vec<F>>;
const KINDS: [&str; 9] = ["Arithmetic", "Constant", "Base4Sum", "CurveAdd", "CurveDbl", "CurveEndo", "PublicInput", "RescueA", "RescueB"];
/// number of ways in which each kind's row can be made false
const DEVS: [u64; 9] = [2, 1, 9, 9, 5, 8, 3, 8, 4];

fn pt<F: Field>(r: &R, g: (F, F), code: u64) -> (F, F) { r.ec_mul(g, &num::bigint::BigUint::from(code % 100_000 + 1)).unwrap() }
fn delta<F: Field>(q: &mut Rng) -> F { match q.below(5) { 0 => F::ONE, 1 => -F::ONE, 2 => F::from_canonical_u64(4), _ => rf(q) } }

/// Fills row `g` (and what it determines of the rows it reads) with values that obey the gate, but for deviation `dev`.
/// Written from the gates' definitions in reference arithmetic.
fn fill<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(kind: usize, g: usize, rows: &mut Rows<C::ScalarField>, consts: &[C::ScalarField], code: u64, dev: Option<u64>, dcode: u64) {
    let m = R::of::<C::ScalarField>();
    let n = rows.len();
    let (zero, one) = (C::ScalarField::ZERO, C::ScalarField::ONE);
    let mut r = Rng::new(code);
    let mut q = Rng::new(dcode);
    let d = |k: u64, q: &mut Rng| -> C::ScalarField { if dev == Some(k) { delta(q) } else { zero } };
    let v = |r: &mut Rng| -> C::ScalarField { let c = if r.chance(1, 2) { r.below(121) } else { r.next() | 999 }; m.val(c) };
    match kind {
        0 => {
            let c = &consts[ArithmeticGate::<C>::PREFIX.len()..];
            let (x, y, z) = (v(&mut r), v(&mut r), v(&mut r));
            let o = m.add(m.mul(c[0], m.mul(x, y)), m.mul(c[1], z));
            rows[g][ArithmeticGate::<C>::WIRE_MULTIPLICAND_0] = x;
            rows[g][ArithmeticGate::<C>::WIRE_MULTIPLICAND_1] = y;
            rows[g][ArithmeticGate::<C>::WIRE_ADDEND] = z;
            // dev 1: the value of a neighbouring formula
            let alt = if dev == Some(1) { let a = m.add(m.mul(x, y), z); if a != o { a } else { m.add(o, one) } } else { o };
            rows[g][ArithmeticGate::<C>::WIRE_OUTPUT] = m.add(alt, d(0, &mut q));
        }
        1 => rows[g][ConstantGate::<C>::WIRE_OUTPUT] = m.add(consts[ConstantGate::<C>::PREFIX.len()], d(0, &mut q)),
        2 => {
            let old = v(&mut r);
            let mut acc = old;
            for i in 0..7 {
                let mut l = C::ScalarField::from_canonical_u64(r.below(4));
                if dev == Some(1 + i) { l = match q.below(4) { 0 | 1 => C::ScalarField::from_canonical_u64(4), 2 => -one, _ => rf(&mut q) } }
                rows[g][2 + i as usize] = l;
                acc = m.add(m.mul(C::ScalarField::from_canonical_u64(4), acc), l);
            }
            if dev == Some(8) { let i = q.usize(7); let x = rows[g][2 + i]; rows[g][2 + i] = if x == zero { one } else { zero } }
            rows[g][0] = old;
            rows[g][1] = m.add(acc, d(0, &mut q));
        }
        3 => {
            type G<C, I> = CurveAddGate<C, I>;
            let gen = (I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y);
            let (k1, k2) = (r.next() % 100_000, r.next() % 100_000);
            let p1 = pt(&m, gen, k1);
            let equal = dev == Some(6) || dev == Some(7);
            let mut p2 = if equal { p1 } else { pt(&m, gen, if k1 == k2 { k2 + 1 } else { k2 }) };
            if dev == Some(7) { p2.1 = m.neg(p2.1) }
            let mut bit = if r.chance(1, 2) || equal || dev == Some(0) || dev == Some(5) { one } else { zero };
            if dev == Some(4) { bit = match q.below(3) { 0 => one + one, 1 => -one, _ => rf(&mut q) } }
            let (dx, dy) = (m.sub(p1.0, p2.0), m.sub(p1.1, p2.1));
            let mut inv = if equal { if q.chance(1, 2) { zero } else { rf(&mut q) } } else { m.inv(dx) };
            if dev == Some(5) { inv = match q.below(3) { 0 => zero, 1 => m.neg(inv), _ => m.add(inv, delta(&mut q)) } }
            let lam = m.add(m.mul(dy, inv), d(0, &mut q));
            let x3 = m.sub(m.sub(m.mul(lam, lam), p1.0), p2.0);
            let nb = m.sub(one, bit);
            let mut x4 = m.add(m.mul(bit, x3), m.mul(nb, p1.0));
            // a skipped addition passed off as made, or the reverse
            if dev == Some(8) { x4 = m.add(m.mul(nb, x3), m.mul(bit, p1.0)) }
            x4 = m.add(x4, d(1, &mut q));
            let y3 = m.sub(m.mul(lam, m.sub(p1.0, x4)), p1.1);
            let y4 = if dev == Some(8) { m.add(m.mul(nb, y3), m.mul(bit, p1.1)) } else { m.add(m.mul(bit, y3), m.mul(nb, p1.1)) };
            let old = v(&mut r);
            rows[g][G::<C, I>::WIRE_GROUP_ACC_X] = p1.0;
            rows[g][G::<C, I>::WIRE_GROUP_ACC_Y] = p1.1;
            rows[g][G::<C, I>::WIRE_ADDEND_X] = p2.0;
            rows[g][G::<C, I>::WIRE_ADDEND_Y] = p2.1;
            rows[g][G::<C, I>::WIRE_SCALAR_ACC_OLD] = old;
            rows[g][G::<C, I>::WIRE_SCALAR_ACC_NEW] = m.add(m.add(m.add(old, old), bit), d(3, &mut q));
            rows[g][G::<C, I>::WIRE_SCALAR_BIT] = bit;
            rows[g][G::<C, I>::WIRE_INVERSE] = inv;
            rows[g][G::<C, I>::WIRE_LAMBDA] = lam;
            rows[(g + 1) % n][G::<C, I>::WIRE_GROUP_ACC_X] = x4;
            rows[(g + 1) % n][G::<C, I>::WIRE_GROUP_ACC_Y] = m.add(y4, d(2, &mut q));
        }
        4 => {
            type G<C, I> = CurveDblGate<C, I>;
            let gen = (I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y);
            let mut p = pt(&m, gen, r.next());
            if dev == Some(4) { p.1 = zero }
            let mut inv = if p.1 == zero { rf(&mut q) } else { m.inv(m.add(p.1, p.1)) };
            if dev == Some(3) { inv = match q.below(3) { 0 => zero, 1 => m.add(inv, inv), _ => m.add(inv, delta(&mut q)) } }
            let x2 = m.mul(p.0, p.0);
            let lam = m.add(m.mul(m.add(m.add(x2, x2), x2), inv), d(0, &mut q));
            let xn = m.add(m.sub(m.sub(m.mul(lam, lam), p.0), p.0), d(1, &mut q));
            let yn = m.add(m.sub(m.mul(lam, m.sub(p.0, xn)), p.1), d(2, &mut q));
            rows[g][G::<C, I>::WIRE_X_OLD] = p.0;
            rows[g][G::<C, I>::WIRE_Y_OLD] = p.1;
            rows[g][G::<C, I>::WIRE_X_NEW] = xn;
            rows[g][G::<C, I>::WIRE_Y_NEW] = yn;
            rows[g][G::<C, I>::WIRE_INVERSE] = inv;
            rows[g][G::<C, I>::WIRE_LAMBDA] = lam;
        }
        5 => {
            type G<C, I> = CurveEndoGate<C, I>;
            let gen = (I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y);
            let k = r.next() % 100_000;
            let (p1, p) = (pt(&m, gen, 2 * k), pt(&m, gen, 2 * k + 1 + r.below(900)));
            let (mut b0, mut b1) = (C::ScalarField::from_canonical_u64(r.below(2)), C::ScalarField::from_canonical_u64(r.below(2)));
            if dev == Some(4) { b0 = if q.chance(1, 2) { one + one } else { rf(&mut q) } }
            if dev == Some(5) { b1 = if q.chance(1, 2) { one + one } else { rf(&mut q) } }
            let mult = m.add(m.mul(m.sub(I::ZETA, one), b1), one);
            let sign = m.sub(m.add(b0, b0), one);
            let p2 = (m.mul(mult, p.0), m.mul(sign, p.1));
            let dx = m.sub(p1.0, p2.0);
            let mut inv = m.inv(dx);
            if dev == Some(6) { inv = match q.below(3) { 0 => zero, 1 => m.neg(inv), _ => m.add(inv, delta(&mut q)) } }
            let lam = m.mul(m.sub(p1.1, p2.1), inv);
            let mut x3 = m.add(m.sub(m.sub(m.mul(lam, lam), p1.0), p2.0), d(0, &mut q));
            let mut y3 = m.add(m.sub(m.mul(lam, m.sub(p1.0, x3)), p1.1), d(1, &mut q));
            if dev == Some(7) { x3 = p1.0; y3 = p1.1 }
            let (u, s) = (v(&mut r), v(&mut r));
            rows[g][G::<C, I>::WIRE_GROUP_ACC_X] = p1.0;
            rows[g][G::<C, I>::WIRE_GROUP_ACC_Y] = p1.1;
            rows[g][G::<C, I>::WIRE_ADDEND_X] = p.0;
            rows[g][G::<C, I>::WIRE_ADDEND_Y] = p.1;
            rows[g][G::<C, I>::WIRE_SCALAR_ACC_UNSIGNED] = u;
            rows[g][G::<C, I>::WIRE_SCALAR_ACC_SIGNED] = s;
            rows[g][G::<C, I>::WIRE_SCALAR_BIT_0] = b0;
            rows[g][G::<C, I>::WIRE_SCALAR_BIT_1] = b1;
            rows[g][G::<C, I>::WIRE_INVERSE] = inv;
            rows[(g + 1) % n][0] = x3;
            rows[(g + 1) % n][1] = y3;
            let four = C::ScalarField::from_canonical_u64(4);
            let below = (g + byz::GRID) % n;
            rows[below][G::<C, I>::WIRE_SCALAR_ACC_UNSIGNED] = m.add(m.add(m.add(m.mul(four, u), m.add(b1, b1)), b0), d(2, &mut q));
            rows[below][G::<C, I>::WIRE_SCALAR_ACC_SIGNED] = m.add(m.add(m.add(s, s), m.mul(sign, mult)), d(3, &mut q));
        }
        6 => for i in 0..3 { rows[(g + 1) % n][i] = m.add(rows[g][6 + i], d(i as u64, &mut q)) },
        7 | _ => {
            let inv = |a: u64| m.inv(C::ScalarField::from_canonical_u64(a));
            let mds = |i: usize, j: usize| inv((4 + i - j) as u64);
            let pre = if kind == 7 { RescueStepAGate::<C>::PREFIX.len() } else { RescueStepBGate::<C>::PREFIX.len() };
            let five = num::bigint::BigUint::from(5u32);
            let mut xs: Vec<C::ScalarField> = (0..4).map(|_| v(&mut r)).collect();
            for i in 0..4 {
                if kind == 7 {
                    rows[g][i] = m.pow(xs[i], &five);
                    xs[i] = m.add(xs[i], d(2 * i as u64, &mut q));
                    rows[g][4 + i] = xs[i];
                } else {
                    rows[g][i] = xs[i];
                    xs[i] = m.pow(xs[i], &five);
                }
            }
            for i in 0..4 {
                let mut o = consts[pre + i];
                for j in 0..4 { o = m.add(o, m.mul(mds(i, j), xs[j])); }
                let k = if kind == 7 { 2 * i as u64 + 1 } else { i as u64 };
                rows[(g + 1) % n][i] = m.add(o, d(k, &mut q));
            }
        }
    }
}
/// position in the combined constraint of each deviation (what a prover that leaves a term out would leave out)
fn violated<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, rows: &Rows<C::ScalarField>) -> Option<usize> {
    let n = rows.len();
    for i in 0..n {
        let t = evaluate_all_constraints::<C, I>(&c.gate_constants[i], &rows[i], &rows[(i + 1) % n], &rows[(i + byz::GRID) % n]);
        if let Some(k) = t.iter().position(|x| x.is_nonzero()) { return Some(k); }
    }
    None
}

/// Runs the deviating prover against the real verifier. Ok(true): accepted with every check done.
struct Arena<'a, C: HaloCurve> { c: &'a Circuit<C>, vk: VerificationKey<C>, seed: u64, n: u64, shape: (usize, usize), lib: bool }
impl<'a, C: HaloCurve> Arena<'a, C> {
    fn new(c: &'a Circuit<C>, seed: u64) -> Self { Arena { c, vk: c.to_vk(), seed, n: 0, shape: byz::PI_SHAPES[0], lib: false } }
    fn attack<I: HaloCurve<BaseField = C::ScalarField>>(&mut self, w: &Witness<C::ScalarField>, pis: &[C::ScalarField], a: &Attack<C::ScalarField>) -> Result<bool, String> {
        self.n += 1;
        let mut r = Rng::new(mix(self.seed, self.n));
        let mut a = a.clone();
        a.pi_shape = self.shape;
        let a = &a;
        // a verifier that speaks another protocol than the one we know is attacked with its own prover
        let plain = a.z == Z::Honest && a.drop.is_none() && !a.t_fix && !a.pi_fix && a.lies.is_empty() && a.claim.is_none() && a.adapt.is_none() && !a.forge_g && a.old_polys.is_empty();
        let mut own = || if self.lib && plain { ctx::probe("false_trace_given_to_the_library_prover"); prove::<C, I>(self.c, w, &[], a.blind).map(|p| (p, pis.to_vec())) } else { byz::prove_and_claim::<C, I>(self.c, w, &[], a, &mut r) };
        let (p, said) = match own() { Ok(p) => p, Err(m) => { ctx::probe("deviating_prover_could_not_finish"); return Err(m) } };
        let pis = if a.adapt.is_some() { &said[..] } else { pis };
        match verify::<C, I>(pis, &p, &[], &self.vk, false) {
            Err(m) => { ctx::log(hash_str(&m)); Err(m) }
            Ok(_) => match verify::<C, I>(pis, &p, &[], &self.vk, true) { Ok(_) => Ok(true), Err(m) => { ctx::probe("caught_by_final_check_only"); Err(m) } },
        }
    }
}
fn control<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(ar: &mut Arena<C>, w: &Witness<C::ScalarField>, pis: &[C::ScalarField]) -> bool {
    let mut ok = false;
    for &s in byz::PI_SHAPES.iter() {
        ar.shape = s;
        ok = matches!(ar.attack::<I>(w, pis, &Attack::default()), Ok(true));
        if ok { break; }
    }
    if !ok {
        ar.lib = true;
        ok = matches!(ar.attack::<I>(w, pis, &Attack::default()), Ok(true));
    }
    ctx::probe(if ok { "control_accepted" } else { "control_refused" });
    ok
}

// ---- gates
fn gates<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let mut r = Rng::new(plan.knob("layout"));
    let m = R::of::<C::ScalarField>();
    let mut order: Vec<usize> = (0..9).filter(|k| *k != 6).collect();
    r.shuffle(&mut order);
    let npis = 9usize;
    let built = must("build", || {
        let mut b = CircuitBuilder::<C>::new(128);
        let mut at = BTreeMap::new();
        for _ in 0..npis { b.add_public_input(); }
        for &k in &order {
            let g = b.num_gates();
            at.insert(k, g);
            let mut cs = |n: usize| -> Vec<C::ScalarField> { (0..n).map(|_| { let c = if r.chance(1, 2) { r.below(121) } else { r.next() | 999 }; m.val(c) }).collect() };
            match k {
                0 => b.add_gate(ArithmeticGate::<C>::new(g), cs(2)),
                1 => b.add_gate(ConstantGate::<C>::new(g), cs(1)),
                2 => b.add_gate_no_constants(Base4SumGate::<C>::new(g)),
                3 => b.add_gate_no_constants(CurveAddGate::<C, I>::new(g)),
                4 => b.add_gate_no_constants(CurveDblGate::<C, I>::new(g)),
                5 => b.add_gate_no_constants(CurveEndoGate::<C, I>::new(g)),
                7 => b.add_gate(RescueStepAGate::<C>::new(g), cs(4)),
                _ => b.add_gate(RescueStepBGate::<C>::new(g), cs(4)),
            }
            let g = b.num_gates();
            b.add_gate_no_constants(BufferGate::new(g));
        }
        if plan.knob("wide") == 1 { while b.num_gates() < 100 { let g = b.num_gates(); b.add_gate_no_constants(BufferGate::new(g)); } }
        (b.build(), at)
    })?;
    let (c, mut at) = built;
    at.insert(6, c.num_gates_without_pis);
    let n = c.degree();
    let zero = C::ScalarField::ZERO;
    let make = |devs: &[(usize, u64, u64)], code: u64| -> (Rows<C::ScalarField>, Vec<C::ScalarField>) {
        let mut q = Rng::new(code);
        let mut rows = vec![vec![zero; WIRES]; n];
        let pis: Vec<C::ScalarField> = (0..npis).map(|_| C::ScalarField::from_canonical_u64(q.next())).collect();
        rows[at[&6]] = pis.clone();
        for (&k, &g) in &at {
            let code = q.next();
            let dv = devs.iter().find(|d| d.0 == k);
            fill::<C, I>(k, g, &mut rows, &c.gate_constants[g], code, dv.map(|d| d.1), dv.map(|d| d.2).unwrap_or(0));
        }
        (rows, pis)
    };
    let mut ar = Arena::new(&c, plan.knob("layout"));
    ctx::sample(format!("curve {} all gate kinds in order {:?}, degree {}", plan.curve, order, n));
    let (honest, pis) = make(&[], plan.knob("operands"));
    if violated::<C, I>(&c, &honest).is_some() { ctx::probe("reference_trace_refused_by_evaluator") }
    let ctl = control::<C, I>(&mut ar, &Witness::new(honest.clone()), &pis);
    for s in plan.steps.iter().filter(|s| s.op == "dev") {
        let (kind, dv, code, full) = ((s.arg(0) % 9) as usize, s.arg(1), s.arg(2), s.arg(3) == 1);
        let mut devs = vec![(kind, dv % DEVS[kind], code)];
        if s.arg(4) > 0 { let k2 = (s.arg(4) % 9) as usize; if k2 != kind { devs.push((k2, s.arg(5) % DEVS[k2], mix(code, 3))) } }
        let (rows, pis) = make(&devs, s.arg(6));
        if rows == make(&[], s.arg(6)).0 { ctx::probe("deviation_without_effect"); continue; }
        let seen = violated::<C, I>(&c, &rows);
        let name = format!("{} deviation {}", KINDS[kind], devs[0].1);
        ctx::eval(mix(hash_str(&name), plan.curve), ctl);
        ctx::fault(&format!("false_{}_row", KINDS[kind]));
        if seen.is_some() && !full { continue; }
        // the constraint evaluator is blind to this row, or it was picked: ask the real verifier
        for leave_out in &[false, true] {
            let a = Attack { drop: if *leave_out { seen.map(|k| k + 2) } else { None }, ..Default::default() };
            if *leave_out && seen.is_none() { continue; }
            ctx::probe(if *leave_out { "judged_end_to_end_term_left_out" } else { "judged_end_to_end" });
            match ar.attack::<I>(&Witness::new(rows.clone()), &pis, &a) {
                Ok(_) => return viol(&format!("false-{}-accepted", KINDS[kind]), format!("a trace with a false {} row (deviation {}, others {:?}) was proved and accepted with all checks", KINDS[kind], devs[0].1, &devs[1..])),
                Err(e) => ctx::trace(|| format!("{}: {}", name, e)),
            }
        }
    }
    Ok(())
}

// ---- copies
fn copies<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let rows_n = plan.knob("rows").max(4) as usize;
    let npis = plan.knob("npis") as usize;
    let mut r = Rng::new(plan.knob("layout"));
    let one = C::ScalarField::ONE;
    // classes of routed wires, tied by a random tree, partly through virtual targets
    let mut all: Vec<(usize, usize)> = (0..rows_n).flat_map(|g| (0..6).map(move |i| (g, i))).collect();
    r.shuffle(&mut all);
    let mut classes: Vec<Vec<(usize, usize)>> = vec![];
    while all.len() > 6 && classes.len() < plan.knob("classes").max(1) as usize {
        let k = (*r.pick(&[2usize, 2, 3, 3, 4, 5, 9])).min(all.len());
        classes.push(all.drain(..k).collect());
    }
    let mut pi_class: Vec<(usize, usize)> = vec![];
    let c = must("build", || {
        let mut b = CircuitBuilder::<C>::new(128);
        let pis = b.add_public_inputs(npis);
        for _ in 0..rows_n { let g = b.num_gates(); b.add_gate_no_constants(BufferGate::new(g)); }
        for cl in &classes {
            let mut t: Vec<Target<C::ScalarField>> = cl.iter().map(|&(gate, input)| Target::Wire(Wire { gate, input })).collect();
            if r.chance(1, 3) { t.push(b.add_virtual_target()); }
            if r.chance(1, 6) { t.push(b.add_virtual_target()); }
            r.shuffle(&mut t);
            for i in 1..t.len() {
                let j = match r.below(3) { 0 => 0, 1 => i - 1, _ => r.usize(i) };
                if r.chance(1, 2) { b.copy(t[i], t[j]) } else { b.copy(t[j], t[i]) }
                if r.chance(1, 8) { b.copy(t[j], t[i]) }
            }
            if i64::from(r.chance(1, 8)) == 1 { let k = r.usize(t.len()); b.copy(t[k], t[k]); }
        }
        if npis > 0 {
            // some public inputs tied to a wire each
            for i in 0..npis { if r.chance(1, 2) { if let Some(w) = all.pop() { b.copy(pis[i], Target::Wire(Wire { gate: w.0, input: w.1 })); pi_class.push(w); let _ = i; pi_class.push((i, usize::max_value())) } } }
        }
        b.build()
    })?;
    let n = c.degree();
    // every routed wire tied to a public input is tied to that input's wire in its gate
    for k in (0..pi_class.len()).step_by(2) {
        let (w, i) = (pi_class[k], pi_class[k + 1].0);
        let row = c.num_gates_without_pis + 2 * (i / WIRES);
        let other = if i % WIRES < 6 { (row, i % WIRES) } else { (row + 1, i % WIRES - 6) };
        classes.push(vec![w, other]);
    }
    // reference: union-find of the ties as written above is `classes`; sigma must cycle through each of them
    let ks: Vec<C::ScalarField> = { let row = c.num_gates_without_pis - 1; (0..6).map(|j| c.s_sigma_values_8n[j][8 * row] / c.subgroup_n[row]).collect() };
    let mut id = BTreeMap::new();
    for g in 0..n { for i in 0..6 { id.insert(format!("{:?}", ks[i] * c.subgroup_n[g]), (g, i)); } }
    let sigma = |w: (usize, usize)| -> Option<(usize, usize)> { id.get(&format!("{:?}", c.s_sigma_values_8n[w.1][8 * w.0])).cloned() };
    let mut rows: Rows<C::ScalarField> = (0..n).map(|_| (0..WIRES).map(|_| rf(&mut r)).collect()).collect();
    let pis: Vec<C::ScalarField> = (0..npis).map(|_| C::ScalarField::from_canonical_u64(r.next())).collect();
    for (i, x) in pis.iter().enumerate() {
        let row = c.num_gates_without_pis + 2 * (i / WIRES);
        if i % WIRES == 0 { rows[row] = vec![C::ScalarField::ZERO; WIRES]; }
        rows[row][i % WIRES] = *x;
    }
    for k in 0..(npis + WIRES - 1) / WIRES { let row = c.num_gates_without_pis + 2 * k; for i in 0..3 { rows[row + 1][i] = rows[row][6 + i]; } }
    for cl in &classes { let v = rows[cl[cl.len() - 1].0][cl[cl.len() - 1].1]; for &(g, i) in cl { rows[g][i] = v; } }
    ctx::sample(format!("curve {} {} copy classes over {} rows, {} public inputs", plan.curve, classes.len(), n, npis));
    let mut ar = Arena::new(&c, plan.knob("layout"));
    let ctl = control::<C, I>(&mut ar, &Witness::new(rows.clone()), &pis);
    let mut try_it = |rows: &Rows<C::ScalarField>, a: Attack<C::ScalarField>, what: String| -> Res {
        ctx::eval(mix(hash_str(&what), plan.curve), ctl);
        ctx::fault("false_copy");
        match ar.attack::<I>(&Witness::new(rows.clone()), &pis, &a) {
            Ok(_) => viol("false-copy-accepted", format!("two wires tied together differ, and the proof was accepted: {}", what)),
            Err(e) => { ctx::trace(|| format!("{}: {}", what, e)); Ok(()) }
        }
    };
    // screening: a class that sigma does not cycle through as a whole is attacked at the gap
    for cl in &classes {
        let mut seen = vec![cl[0]];
        loop { match sigma(*seen.last().unwrap()) { Some(w) if w != seen[0] && seen.len() <= cl.len() => seen.push(w), _ => break } }
        if cl.iter().all(|w| seen.contains(w)) { ctx::probe("class_screened"); continue; }
        ctx::probe("class_not_tied");
        let mut x = rows.clone();
        for &(g, i) in cl.iter().filter(|w| !seen.contains(w)) { x[g][i] = x[g][i] + one; }
        try_it(&x, Attack::default(), format!("class {:?} is not tied as a whole", cl))?;
    }
    let free: Vec<Vec<(usize, usize)>> = classes.iter().filter(|c| c.iter().all(|w| w.0 < rows_n)).cloned().collect();
    for s in plan.steps.iter().filter(|s| s.op == "split") {
        let mut q = Rng::new(s.arg(1));
        let mut x = rows.clone();
        let pool = if free.is_empty() { break } else { &free };
        let cl = &pool[(s.arg(2) % pool.len() as u64) as usize];
        let mut a = Attack::default();
        let what = match s.arg(0) % 9 {
            0 => { let w = cl[q.usize(cl.len())]; x[w.0][w.1] = x[w.0][w.1] + delta(&mut q); "one member changed" }
            1 => {
                // values of two classes exchanged in one place: the same multiset of values
                let d = &pool[q.usize(pool.len())];
                let (u, w) = (cl[q.usize(cl.len())], d[q.usize(d.len())]);
                if d == cl { continue; }
                let t = x[u.0][u.1]; x[u.0][u.1] = x[w.0][w.1]; x[w.0][w.1] = t;
                "values of two classes exchanged"
            }
            2 => { let k = 1 + q.usize(cl.len() - 1); let d = delta::<C::ScalarField>(&mut q); x[cl[0].0][cl[0].1] = x[cl[0].0][cl[0].1] + d; x[cl[k].0][cl[k].1] = x[cl[k].0][cl[k].1] - d; "two members changed, sum kept" }
            3 | 4 => {
                // keeps the accumulator's product if one of the two blinding challenges is missing or repeated
                let shift = if s.arg(0) % 9 == 3 { one } else { C::ScalarField::ZERO };
                let c3 = match pool.iter().find(|c| c.len() == 3) { Some(c) => c, None => continue };
                let (w1, w2, w3) = { let a = c3[0]; let b = match sigma(a) { Some(b) => b, None => continue }; match sigma(b) { Some(d) => (a, b, d), None => continue } };
                let t = |w: (usize, usize)| ks[w.1] * c.subgroup_n[w.0] + shift;
                let v = rf::<C::ScalarField>(&mut q);
                x[w1.0][w1.1] = v;
                x[w2.0][w2.1] = v * t(w3) / t(w1);
                x[w3.0][w3.1] = v * t(w3) / t(w2);
                "values in the ratio of the positions"
            }
            k => {
                let w = cl[q.usize(cl.len())];
                x[w.0][w.1] = x[w.0][w.1] + delta(&mut q);
                a.z = *q.pick(&[Z::Honest, Z::Zero, Z::Ones, Z::Scaled, Z::Random]);
                a.drop = match k { 5 => None, 6 => Some(0), 7 => Some(1), _ => None };
                a.t_fix = k == 8;
                "one member changed, bad accumulator"
            }
        };
        let what = format!("{} (class of {}, columns {:?}; accumulator {:?}, term left out {:?}, t {})", what, cl.len(), cl.iter().map(|w| w.1).collect::<Vec<_>>(), a.z, a.drop, a.t_fix);
        try_it(&x, a, what)?;
    }
    Ok(())
}

// ---- protocol-level deviations
fn protocol<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let b = must("build", || prog::build::<C, I>(&plan.steps))?;
    let w = match ctx::sut(|| b.circuit.generate_witness(b.partial())) { Ok(w) => w, Err(_) => { ctx::probe("no_witness"); return Ok(()) } };
    let n = b.circuit.degree();
    let mut ar = Arena::new(&b.circuit, plan.knob("layout"));
    ctx::sample(format!("curve {} {}", plan.curve, prog::describe(&b)));
    let ctl = control::<C, I>(&mut ar, &w, &b.pis);
    let np = b.pis.len();
    for s in plan.steps.iter().filter(|s| s.op == "bad") {
        let mut q = Rng::new(s.arg(1));
        let mut a = Attack::default();
        let mut w = Witness::new((0..n).map(|i| (0..WIRES).map(|j| w.get_indices(i, j)).collect()).collect());
        let mut pis = b.pis.clone();
        let what: String = match s.arg(0) % 10 {
            2 if np >= 2 && q.chance(3, 4) => {
                // a claim fitted to the challenge that combines the public inputs of a gate
                let i = q.usize(np);
                let lo = i / WIRES * WIRES;
                let hi = (lo + WIRES).min(np);
                if hi - lo < 2 { continue; }
                let mut j = lo + q.usize(hi - lo);
                if j == i { j = if i + 1 < hi { i + 1 } else { lo } }
                a.adapt = Some((i, j, delta(&mut q)));
                format!("public inputs {} and {} of {} claimed once the challenge that combines them is known", i, j, np)
            }
            0 | 1 | 2 => {
                if np == 0 { continue; }
                let i = if q.chance(1, 3) { np - 1 } else { q.usize(np) };
                let d = delta::<C::ScalarField>(&mut q);
                pis[i] = pis[i] + d;
                let j = q.usize(np);
                if s.arg(0) % 10 == 1 && j != i { pis[j] = pis[j] - d; }
                if pis.iter().any(|x| <C::ScalarField as Field>::try_convert::<C::BaseField>(x).is_err()) { continue; }
                a.claim = Some(pis.clone());
                a.pi_fix = q.chance(1, 2);
                a.t_fix = q.chance(1, 4);
                format!("claimed public input {} of {} is not the trace's, quotient fixed {}", i, np, a.pi_fix)
            }
            3 => {
                for _ in 0..1 + q.below(3) { a.lies.push((q.usize(3), q.usize(6 + 6 + 9 + 1 + 7 + 1), delta(&mut q))); }
                a.t_fix = q.chance(2, 3);
                a.pi_fix = q.chance(2, 3);
                format!("lies about openings {:?}, t fixed {}, public-input quotient fixed {}", a.lies.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>(), a.t_fix, a.pi_fix)
            }
            4 => {
                // opposite lies, one batching step apart
                let (st, i) = (q.usize(3), q.usize(29));
                let d = delta::<C::ScalarField>(&mut q);
                if q.chance(1, 2) { a.lies = vec![(st, i, d), (st, i + 1, -d)] } else { a.lies = vec![(st, i, d), ((st + 1) % 3, i, -d)] }
                a.t_fix = q.chance(1, 2);
                a.pi_fix = q.chance(1, 2);
                format!("two opposite lies about openings {:?}", a.lies.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>())
            }
            5 => {
                a.z = *q.pick(&[Z::Zero, Z::Scaled, Z::Random]);
                a.drop = *q.pick(&[None, Some(0), Some(1)]);
                a.t_fix = q.chance(1, 3);
                format!("accumulator {:?}, term left out {:?}, t fixed {}", a.z, a.drop, a.t_fix)
            }
            6 => { a.forge_g = true; a.t_fix = true; a.pi_fix = q.chance(1, 2); if q.chance(1, 2) { a.lies.push((0, q.usize(29), delta(&mut q))) } "made-up opening argument".into() }
            7 | 8 => {
                // any wire of the trace changed
                let (g, i) = (q.usize(n), q.usize(WIRES));
                let mut rows: Rows<C::ScalarField> = (0..n).map(|i| (0..WIRES).map(|j| w.get_indices(i, j)).collect()).collect();
                rows[g][i] = rows[g][i] + delta(&mut q);
                if q.chance(1, 3) { let (g, i) = (q.usize(n), q.usize(WIRES)); rows[g][i] = rf(&mut q); }
                let bad = violated::<C, I>(&b.circuit, &rows);
                let w2 = Witness::new(rows);
                if bad.is_none() && agree(&b.circuit, &w2) && b.circuit.get_public_inputs(&w2) == b.pis { ctx::probe("change_kept_the_trace_true"); continue; }
                if s.arg(0) % 10 == 8 { a.drop = bad.map(|k| k + 2) }
                a.t_fix = bad.is_some() && q.chance(1, 4);
                w = w2;
                format!("wire {} of row {} changed (breaks {:?}), term left out {:?}", i, g, bad, a.drop)
            }
            _ => {
                // another circuit of the same shape: some constant differs
                let mut steps = plan.steps.clone();
                let cs: Vec<usize> = (0..steps.len()).filter(|&i| steps[i].op == "const" || steps[i].op == "raw").collect();
                if cs.is_empty() { continue; }
                let k = cs[q.usize(cs.len())];
                let at = if steps[k].op == "const" { 0 } else { 3 };
                steps[k].a[at] = q.next() | 999;
                let b2 = match ctx::sut(|| prog::build::<C, I>(&steps)) { Ok(b) => b, Err(_) => continue };
                if b2.circuit.degree() != n || b2.circuit.gate_constants == b.circuit.gate_constants { continue; }
                let w2 = match ctx::sut(|| b2.circuit.generate_witness(b2.partial())) { Ok(w) => w, Err(_) => continue };
                let mut r2 = Rng::new(q.next());
                let p = match byz::prove::<C, I>(&b2.circuit, &w2, &[], &Attack::default(), &mut r2) { Ok(p) => p, Err(_) => continue };
                ctx::eval(mix(hash_str("constants"), plan.curve), ctl);
                ctx::fault("other_constants");
                if verify::<C, I>(&b.pis, &p, &[], &ar.vk, true).is_ok() { return viol("other-circuit-accepted", format!("a proof for a circuit with another constant in step {} was accepted", k)); }
                continue;
            }
        };
        ctx::eval(mix(hash_str(&what), plan.curve), ctl);
        ctx::fault(["false_claim", "false_claim", "false_claim", "lie", "two_lies", "bad_accumulator", "made_up_opening_argument", "false_trace", "false_trace_term_left_out", ""][(s.arg(0) % 10) as usize]);
        match ar.attack::<I>(&w, &pis, &a) {
            // the honest statement, proved in an odd way, is no false statement
            Ok(_) if a.forge_g || s.arg(0) % 10 < 5 || s.arg(0) % 10 > 6 => return viol(&format!("deviation-{}-accepted", s.arg(0) % 10), format!("accepted with all checks: {}", what)),
            Ok(_) => ctx::probe("odd_proof_of_a_true_statement_accepted"),
            Err(e) => ctx::trace(|| format!("{}: {}", what, e)),
        }
    }
    Ok(())
}
/// do all wires tied together agree
fn agree<C: HaloCurve>(c: &Circuit<C>, w: &Witness<C::ScalarField>) -> bool {
    for g in 0..c.degree() {
        for i in 0..6 {
            let t = Target::Wire(Wire { gate: g, input: i });
            for &s in c.routing_target_partitions.get_partition(t) {
                if let Target::Wire(x) = s { if w.get(x) != w.get_indices(g, i) { return false; } }
            }
        }
    }
    true
}

// ---- gadgets
/// A generator of the deviating prover: changes one or two of the values the honest one computes.
struct Evil<F: Field> { inner: Box<dyn WitnessGenerator<F>>, at: Vec<(u64, F)> }
impl<F: Field> WitnessGenerator<F> for Evil<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.inner.dependencies() }
    fn generate(&self, c: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        let p = self.inner.generate(c, w);
        let mut ts = p.all_populated_targets();
        ts.sort_by_key(|t| format!("{:?}", t));
        let mut out = PartialWitness::new();
        let k = ts.len() as u64;
        for (i, &t) in ts.iter().enumerate() {
            let mut v = p.get_target(t);
            for &(j, d) in &self.at { if j % k.max(1) == i as u64 { v = if d == F::ZERO { F::ZERO } else if d == F::ONE && v.is_one() { F::ZERO } else { v + d } } }
            out.set_target(t, v);
        }
        out
    }
}
fn gadgets<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let mut b = must("build", || prog::build::<C, I>(&plan.steps))?;
    ctx::sample(format!("curve {} gadgets {}", plan.curve, prog::describe(&b)));
    let ngen = b.circuit.generators.len() as u64;
    for s in plan.steps.iter().filter(|s| s.op == "evil") {
        let mut q = Rng::new(s.arg(1));
        let gi = (s.arg(0) % ngen.max(1)) as usize;
        // put the deviating generator in place of the honest one
        let inner = std::mem::replace(&mut b.circuit.generators[gi], Box::new(Nothing));
        let d: C::ScalarField = match q.below(5) { 0 => C::ScalarField::ZERO, 1 | 2 => C::ScalarField::ONE, 3 => -C::ScalarField::ONE, _ => rf(&mut q) };
        let mut at = vec![(q.next(), d)];
        if q.chance(1, 3) { at.push((q.next(), if q.chance(1, 2) { -d } else { rf(&mut q) })) }
        b.circuit.generators[gi] = Box::new(Evil { inner, at });
        let res = ctx::sut(|| b.circuit.generate_partial_witness(b.partial()));
        let verdict = judge::<C, I>(&b, plan, res, s.arg(1), &format!("generator {} deviates", gi));
        // restore
        let e = std::mem::replace(&mut b.circuit.generators[gi], Box::new(Nothing));
        b.circuit.generators[gi] = unsafe { let p = Box::into_raw(e) as *mut Evil<C::ScalarField>; Box::from_raw(p) }.inner;
        verdict?;
    }
    Ok(())
}
struct Nothing;
impl<F: Field> WitnessGenerator<F> for Nothing {
    fn dependencies(&self) -> Vec<Target<F>> { vec![] }
    fn generate(&self, _: &[Vec<F>], _: &PartialWitness<F>) -> PartialWitness<F> { PartialWitness::new() }
}
/// A complete witness with every constraint and tie intact in which the program has a wrong result is a false statement.
fn judge<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(b: &Built<C>, plan: &Plan, pw: Result<PartialWitness<C::ScalarField>, String>, seed: u64, what: &str) -> Res {
    let pw = match pw { Ok(p) => p, Err(_) => { ctx::probe("deviating_generation_stopped"); return Ok(()) } };
    let w = Witness::from_partial(&pw, b.circuit.degree());
    ctx::fault("deviating_generator");
    ctx::eval(mix(hash_str(&prog::describe(b)), mix(seed, plan.curve)), true);
    if check_rows::<C, I>(&b.circuit, &w).is_err() { ctx::probe("deviation_breaks_a_constraint"); return Ok(()); }
    if !agree(&b.circuit, &w) { ctx::probe("deviation_breaks_a_copy"); return Ok(()); }
    // what do the wires say each result is?
    for (k, &(t, v)) in b.expected.iter().enumerate() {
        let wires: Vec<Wire> = match t {
            Target::Wire(x) if x.input >= 6 => vec![x],
            Target::PublicInput(_) => continue,
            _ => b.circuit.routing_target_partitions.get_partition(t).iter().filter_map(|s| if let Target::Wire(x) = s { Some(*x) } else { None }).collect(),
        };
        if wires.is_empty() { continue; }
        if w.get(wires[0]) == v { continue; }
        let op = plan.steps.get(b.made_by[k]).map(|s| s.op.clone()).unwrap_or_default();
        if plan.steps.get(b.made_by[k]).map(|s| ["in", "bit", "base4", "pt", "pi"].contains(&s.op.as_str())).unwrap_or(false) { continue; }
        let mut ar = Arena::new(&b.circuit, seed);
        let pis = b.circuit.get_public_inputs(&w);
        ctx::probe("wrong_result_in_a_true_trace");
        if let Ok(true) = ar.attack::<I>(&w, &pis, &Attack::default()) {
            return viol(&format!("unsound-{}", op), format!("{}: a proof in which the result of step {} ({}) is {:?} instead of {:?} was accepted with all checks", what, b.made_by[k], op, w.get(wires[0]), v));
        }
    }
    ctx::probe("deviation_changed_nothing_that_counts");
    Ok(())
}

// ---- false assertions
fn asserts<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let m = R::of::<C::ScalarField>();
    for s in plan.steps.iter().filter(|s| s.op == "assert") {
        let mut q = Rng::new(s.arg(1));
        let (zero, one) = (C::ScalarField::ZERO, C::ScalarField::ONE);
        let bad = delta::<C::ScalarField>(&mut q);
        let mut b = CircuitBuilder::<C>::new(128);
        let mut ins: Vec<(Target<C::ScalarField>, C::ScalarField)> = vec![];
        // an input with a wire of its own, so that its value is part of the trace
        let input = |b: &mut CircuitBuilder<C>, ins: &mut Vec<(Target<C::ScalarField>, C::ScalarField)>, v: C::ScalarField| { let t = b.add_virtual_target(); ins.push((t, v)); b.mul(t, t); t };
        let nonbin = |q: &mut Rng| -> C::ScalarField { match q.below(4) { 0 => one + one, 1 => -one, 2 => C::ScalarField::from_canonical_u64(3), _ => rf(q) } };
        let what = match s.arg(0) % 12 {
            0 => { let t = input(&mut b, &mut ins, nonbin(&mut q)); b.assert_binary(t); "assert_binary" }
            1 => { let t = input(&mut b, &mut ins, bad); b.assert_zero(t); "assert_zero" }
            2 => { let t = input(&mut b, &mut ins, one + bad); b.assert_one(t); "assert_one" }
            3 => { let t = input(&mut b, &mut ins, zero); b.assert_nonzero(t); "assert_nonzero" }
            4 => { let x = rf(&mut q); let (t, u) = (input(&mut b, &mut ins, x), input(&mut b, &mut ins, x + bad)); let (t, u) = (b.add(t, t), b.add(u, u)); b.copy(t, u); "copy" }
            5 => { let x = rf(&mut q); let (c, t, u) = (input(&mut b, &mut ins, one), input(&mut b, &mut ins, x), input(&mut b, &mut ins, x + bad)); b.conditional_copy(c, t, u); "conditional_copy" }
            6 | 7 => {
                let g = (I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y);
                let mut p = pt(&m, g, q.next());
                match q.below(5) { 0 => p.0 = p.0 + bad, 1 => p.1 = p.1 + bad, 2 => { let t = p.0; p.0 = p.1; p.1 = t } 3 => p = (zero, zero), _ => p = (rf(&mut q), rf(&mut q)) }
                if q.chance(1, 4) { p = (I::ZETA + one, p.1) }
                let on = m.mul(p.1, p.1) == m.add(m.mul(p.0, m.mul(p.0, p.0)), m.sub(m.mul(g.1, g.1), m.mul(g.0, m.mul(g.0, g.0))));
                if on { continue; }
                let t = b.add_virtual_point_target::<I>();
                ins.push((t.x, p.0)); ins.push((t.y, p.1));
                b.mul(t.x, t.y);
                b.curve_assert_valid::<I>(t);
                "curve_assert_valid"
            }
            8 => {
                let k = 1 + q.usize(9);
                let at = q.usize(k);
                let ts: Vec<_> = (0..k).map(|i| { let v = if i == at { match q.below(3) { 0 => C::ScalarField::from_canonical_u64(4), 1 => -one, _ => rf(&mut q) } } else { C::ScalarField::from_canonical_u64(q.below(4)) }; input(&mut b, &mut ins, v) }).collect();
                b.assert_all_base_4(&ts);
                "assert_all_base_4"
            }
            9 => { let t = input(&mut b, &mut ins, zero); let u = b.inv(t); let _ = u; "inv of zero" }
            10 => { let x = rf(&mut q); let t = input(&mut b, &mut ins, x); let c = b.constant_wire(x + bad); b.copy(t, c); "copy of a constant" }
            _ => { let x = rf(&mut q); let (t, u) = (input(&mut b, &mut ins, x), input(&mut b, &mut ins, x + bad)); let e = b.is_equal(t, u); b.assert_one(e); "is_equal asserted" }
        };
        let c = must("build", || b.build())?;
        let mut pw = PartialWitness::new();
        for &(t, v) in &ins { pw.set_target(t, v); }
        ctx::fault("false_assertion");
        ctx::eval(mix(hash_str(what), mix(plan.curve, s.arg(1) % 64)), true);
        let pw = match ctx::sut(|| c.generate_partial_witness(pw)) { Ok(p) => p, Err(_) => { ctx::probe("false_assertion_stops_generation"); continue } };
        let w = Witness::from_partial(&pw, c.degree());
        let sees = |t: Target<C::ScalarField>, v: C::ScalarField| c.routing_target_partitions.get_partition(t).iter().any(|s| matches!(s, Target::Wire(x) if w.get(*x) == v));
        let broken = check_rows::<C, I>(&c, &w).err().or_else(|| if agree(&c, &w) { None } else { Some("two wires tied together differ".to_string()) });
        match broken {
            Some(e) => {
                ctx::trace(|| format!("{}: {}", what, e));
                ctx::probe("false_assertion_breaks_the_trace");
                if s.arg(2) != 1 { continue; }
            }
            // conflicting values were settled in favour of the assertion: a true trace of other inputs
            None => if !ins.iter().all(|&(t, v)| sees(t, v)) { ctx::probe("false_assertion_changed_the_input"); continue },
        }
        let mut ar = Arena::new(&c, s.arg(1));
        ctx::probe("judged_end_to_end");
        if let Ok(true) = ar.attack::<I>(&w, &[], &Attack::default()) { return viol(&format!("false-{}", what), format!("{} holds of inputs it does not hold of: {:?}; accepted with all checks", what, ins.iter().map(|x| x.1).collect::<Vec<_>>())); }
    }
    Ok(())
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { curve: idx / 5 % 4, sched: Sched::plain(r.next()), ..Default::default() };
    p.set("layout", r.next());
    let many = if thorough { 3 } else { 1 };
    match idx % 5 {
        0 => {
            p.kind = "gates".into();
            p.set("operands", r.next());
            p.set("wide", r.chance(1, 4) as u64);
            for k in 0..9u64 {
                for d in 0..DEVS[k as usize] {
                    for _ in 0..2 * many { let (a, b) = (r.next(), r.next()); p.step("dev", &[k, d, a, 0, 0, 0, b]); }
                }
            }
            // a rotating share judged end to end
            for _ in 0..5 * many { let k = r.below(9); let (d, a, b) = (r.below(DEVS[k as usize]), r.next(), r.next()); let k2 = if r.chance(1, 3) { 1 + r.below(8) } else { 0 }; p.step("dev", &[k, d, a, 1, k2, r.next(), b]); }
        }
        1 => {
            p.kind = "copies".into();
            p.set("rows", r.range(4, 40));
            p.set("npis", *r.pick(&[0, 1, 6, 7, 9, 10, 14]));
            p.set("classes", r.range(1, 30));
            for i in 0..12 * many { let (a, b) = (r.next(), r.next()); p.step("split", &[if i < 9 { i } else { r.below(9) }, a, b]); }
        }
        2 => {
            p.kind = "protocol".into();
            let n = r.range(1, 7) as usize;
            let npis = *r.pick(&[0usize, 1, 2, 5, 6, 7, 9, 10, 18, 19]);
            let curve = r.chance(1, 5);
            prog::gen_steps(r, &mut p, n, npis, curve, 0);
            let c = r.next() | 999;
            p.step("const", &[c]);
            for i in 0..14 * many { let a = r.next(); p.step("bad", &[if i < 10 { i } else { r.below(10) }, a]); }
        }
        3 => {
            p.kind = "gadgets".into();
            let n = r.range(3, 24) as usize;
            let curve = r.chance(1, 2);
            let hash = if r.chance(1, 3) { 1 } else { 0 };
            let npis = r.below(3) as usize;
            prog::gen_steps(r, &mut p, n, npis, curve, hash);
            // the operands of random inputs are nonzero and distinct mostly; is_zero of zero and of one are wanted too
            p.step("const", &[0]);
            p.step("isz", &[u64::max_value() - 3]);
            for _ in 0..150 * many { let (a, b) = (r.next(), r.next()); p.step("evil", &[a, b]); }
        }
        _ => {
            p.kind = "asserts".into();
            for i in 0..36 * many { let a = r.next(); p.step("assert", &[i, a, (i % 12 == r.below(12)) as u64]); }
        }
    }
    p
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    ctx::probe(&plan.kind);
    match plan.kind.as_str() {
        "gates" => gates::<C, I>(plan),
        "copies" => copies::<C, I>(plan),
        "protocol" => protocol::<C, I>(plan),
        "gadgets" => gadgets::<C, I>(plan),
        _ => asserts::<C, I>(plan),
    }
}
fn exec(plan: &Plan) -> Res { crate::leaf("C03", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C03", gen, exec, self_managed: false, quick_runs: 110, thorough_runs: 4000,
        rule: "one evaluation = one false trace, claim, opening or accumulator of a deviating prover; false rows the constraint evaluator flags are counted, the others and a rotating share of the flagged ones are proved by the deviating prover and judged by the real verifier; distinct by kind of deviation, place and curve; non-trivial only when the same prover without the deviation is accepted",
        real: "builder, gates' constraint evaluation, commitments, inner-product argument, transcript, verifier",
        stub: "the prover (the adversary's own, built on the real commitments, transcript and opening argument); scheduler, clock and entropy source",
        assumptions: &["the adversary computes commitments and the transcript as the protocol does: it does not break the hash or discrete logarithms", "scalar multiplication by a variable scalar is excluded: its digits are not range-checked upstream (C26)"],
        required_probes: &["gates", "copies", "protocol", "gadgets", "asserts", "control_accepted", "judged_end_to_end_term_left_out", "class_screened", "deviation_breaks_a_constraint"],
    }
}
