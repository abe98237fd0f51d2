//! C02: the network between prover and verifier alters messages; an altered message is never accepted.
use super::c01::{prove, verify};
use crate::byz::{rf, rpoint};
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;

pub fn points_mut<C: HaloCurve>(p: &mut Proof<C>) -> Vec<(String, &mut AffinePoint<C>)> {
    let mut v = vec![];
    for (i, x) in p.c_wires.iter_mut().enumerate() { v.push((format!("c_wires[{}]", i), x)); }
    v.push(("c_plonk_z".into(), &mut p.c_plonk_z));
    for (i, x) in p.c_plonk_t.iter_mut().enumerate() { v.push((format!("c_plonk_t[{}]", i), x)); }
    v.push(("c_pis_quotient".into(), &mut p.c_pis_quotient));
    for (i, x) in p.halo_l.iter_mut().enumerate() { v.push((format!("halo_l[{}]", i), x)); }
    for (i, x) in p.halo_r.iter_mut().enumerate() { v.push((format!("halo_r[{}]", i), x)); }
    v.push(("halo_g".into(), &mut p.halo_g));
    v.push(("schnorr.r".into(), &mut p.schnorr_proof.r));
    v
}
fn set_scalars<F: Field>(n: &str, o: &mut OpeningSet<F>) -> Vec<(String, *mut F)> {
    let mut v: Vec<(String, *mut F)> = vec![];
    macro_rules! all { ($f:ident) => { for (i, x) in o.$f.iter_mut().enumerate() { v.push((format!("{}.{}[{}]", n, stringify!($f), i), x)); } } }
    all!(o_constants); all!(o_plonk_sigmas); all!(o_wires);
    v.push((format!("{}.o_plonk_z", n), &mut o.o_plonk_z));
    all!(o_plonk_t); all!(o_old_proofs);
    v.push((format!("{}.o_pi_quotient", n), &mut o.o_pi_quotient));
    v
}
/// every scalar of a proof (raw pointers so that two can be changed at once)
pub fn scalars<C: HaloCurve>(p: &mut Proof<C>) -> Vec<(String, *mut C::ScalarField)> {
    let mut v = set_scalars("local", &mut p.o_local);
    v.extend(set_scalars("right", &mut p.o_right));
    v.extend(set_scalars("below", &mut p.o_below));
    v.push(("schnorr.z1".into(), &mut p.schnorr_proof.z1));
    v.push(("schnorr.z2".into(), &mut p.schnorr_proof.z2));
    v
}
pub fn mutate_point<C: HaloCurve>(p: AffinePoint<C>, other: AffinePoint<C>, r: &mut Rng) -> (String, AffinePoint<C>) {
    let k = r.below(12);
    let one = C::BaseField::ONE;
    let add = |a: AffinePoint<C>, b: AffinePoint<C>| (a.to_projective() + b.to_projective()).to_affine();
    let q = match k {
        0 => AffinePoint { y: -p.y, ..p },
        1 => add(p, p),
        2 => add(p, C::GENERATOR_AFFINE),
        3 => other,
        4 => rpoint::<C>(r),
        5 => AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: true },
        6 => AffinePoint { x: p.x + one, ..p },
        7 => AffinePoint { y: p.y + one, ..p },
        8 => AffinePoint { zero: !p.zero, ..p },
        9 => AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: false },
        10 => AffinePoint { x: p.y, y: p.x, ..p },
        _ => add(p, AffinePoint { y: -other.y, ..other }),
    };
    (["negated", "doubled", "plus generator", "other point", "random", "infinity", "x+1", "y+1", "flag flipped", "(0,0)", "x,y swapped", "minus other"][k as usize].into(), q)
}
pub fn mutate_scalar<F: Field>(x: F, other: F, r: &mut Rng) -> F {
    match r.below(8) { 0 => x + F::ONE, 1 => -x, 2 => F::ZERO, 3 => rf(r), 4 => x + x, 5 => other, 6 => x - F::ONE, _ => x + other }
}
/// points are compared the way the protocol sees them
fn same_pt<C: HaloCurve>(a: &AffinePoint<C>, b: &AffinePoint<C>) -> bool { a.x == b.x && a.y == b.y && a.zero == b.zero }
fn enc<C: HaloCurve>(p: &Proof<C>) -> String { format!("{:?}", p) }

macro_rules! vec_op {
    ($v:expr, $r:expr, $other:expr) => {{
        let v = $v; let r = &mut *$r; let n = v.len();
        match r.below(6) {
            0 => { if n > 0 { let i = r.usize(n); v.remove(i); } "one dropped" }
            1 => { if n > 0 { let i = r.usize(n); let x = v[i].clone(); v.insert(i, x); } "one duplicated" }
            2 => { if n > 1 { let (i, j) = (r.usize(n), r.usize(n)); v.swap(i, j); } "two swapped" }
            3 => { v.push($other); "one appended" }
            4 => { let k = r.usize(n + 1); v.truncate(k); "truncated" }
            _ => { v.reverse(); "reversed" }
        }
    }};
}

pub struct Msg<C: HaloCurve> { pub pis: Vec<C::ScalarField>, pub proof: Proof<C>, pub old: Vec<OldProof<C>>, pub vk: VerificationKey<C> }

pub fn tamper<C: HaloCurve>(m: &mut Msg<C>, p2: &Proof<C>, pis2: &[C::ScalarField], vk2: &VerificationKey<C>, kind: u64, r: &mut Rng) -> (bool, String) {
    let two = C::ScalarField::ONE + C::ScalarField::ONE;
    match kind % 16 {
        0 | 1 | 2 => {
            let mut pts = points_mut(&mut m.proof);
            let n = pts.len();
            let (i, j) = (r.usize(n), r.usize(n));
            let other = *pts[j].1;
            let (h, q) = mutate_point(*pts[i].1, other, r);
            *pts[i].1 = q;
            (false, format!("{} {}", pts[i].0, h))
        }
        3 | 4 | 5 => {
            let mut s = scalars(&mut m.proof);
            let (i, j) = (r.usize(s.len()), r.usize(s.len()));
            unsafe { let o = *s[j].1; *s[i].1 = mutate_scalar(*s[i].1, o, r); }
            (false, s[i].0.clone())
        }
        6 => {
            // two scalars changed against each other
            let mut s = scalars(&mut m.proof);
            // the two scalars of the last message are a pair more often than not
            let i = if r.chance(1, 4) { s.len() - 2 } else { r.usize(s.len()) };
            let j = if r.chance(1, 2) || i == s.len() - 2 { (i + 1) % s.len() } else { r.usize(s.len()) };
            let k = r.below(5);
            unsafe {
                let (a, b) = (*s[i].1, *s[j].1);
                let d = if r.chance(1, 2) { C::ScalarField::ONE } else { rf(r) };
                match k { 0 => { *s[i].1 = b; *s[j].1 = a } 1 => { *s[i].1 = a + d; if i != j { *s[j].1 = b - d } } 2 => { *s[i].1 = a + d; if i != j { *s[j].1 = b + d } } 3 => { *s[i].1 = -a; if i != j { *s[j].1 = -b } } _ => { *s[i].1 = a * two; if i != j { *s[j].1 = b * two } } }
            }
            (false, format!("{} and {} changed together ({})", s[i].0, s[j].0, k))
        }
        7 => {
            let mut pts = points_mut(&mut m.proof);
            let n = pts.len();
            let i = r.usize(n);
            let j = if r.chance(1, 2) { (i + 1) % n } else { r.usize(n) };
            let (a, b) = (*pts[i].1, *pts[j].1);
            let k = r.below(3);
            let g = C::GENERATOR_PROJECTIVE;
            match k {
                0 => { *pts[i].1 = b; *pts[j].1 = a }
                1 => { *pts[i].1 = (a.to_projective() + g).to_affine(); if i != j { *pts[j].1 = (b.to_projective() + (-C::GENERATOR_AFFINE).to_projective()).to_affine() } }
                _ => { *pts[i].1 = AffinePoint { y: -a.y, ..a }; if i != j { *pts[j].1 = AffinePoint { y: -b.y, ..b } } }
            }
            (false, format!("{} and {} changed together ({})", pts[i].0, pts[j].0, k))
        }
        8 => {
            let other = rpoint::<C>(r);
            let p = &mut m.proof;
            let k = r.below(5);
            let h = match k { 0 => vec_op!(&mut p.c_wires, r, other), 1 => vec_op!(&mut p.c_plonk_t, r, other), 2 => vec_op!(&mut p.halo_l, r, other), 3 => vec_op!(&mut p.halo_r, r, other),
                _ => { if r.chance(1, 2) { p.halo_l.pop(); p.halo_r.pop(); "last round dropped" } else { p.halo_l.push(other); p.halo_r.push(other); "round appended" } } };
            (false, format!("point vector {}: {}", k, h))
        }
        9 => {
            let x = rf::<C::ScalarField>(r);
            let s = r.usize(3);
            let k = r.below(5);
            let e = if r.chance(1, 2) { C::ScalarField::ZERO } else { x };
            let o = match s { 0 => &mut m.proof.o_local, 1 => &mut m.proof.o_right, _ => &mut m.proof.o_below };
            let h = match k { 0 => vec_op!(&mut o.o_constants, r, e), 1 => vec_op!(&mut o.o_plonk_sigmas, r, e), 2 => vec_op!(&mut o.o_wires, r, e), 3 => vec_op!(&mut o.o_plonk_t, r, e), _ => vec_op!(&mut o.o_old_proofs, r, e) };
            (false, format!("openings {} vector {}: {}", s, k, h))
        }
        10 | 11 => {
            // public inputs
            let n = m.pis.len();
            match r.below(7) {
                0 if n > 0 => { let i = r.usize(n); let o = m.pis[r.usize(n)]; m.pis[i] = mutate_scalar(m.pis[i], o, r); (false, format!("public input {} of {}", i, n)) }
                1 if n > 0 => { let i = n - 1; m.pis[i] = m.pis[i] + C::ScalarField::ONE; (false, "last public input".into()) }
                2 => { m.pis = pis2.to_vec(); (false, "public inputs of another proof".into()) }
                3 => { m.pis.push(C::ScalarField::ZERO); (false, "zero appended to the public inputs".into()) }
                4 if n > 0 => { m.pis.pop(); (false, "last public input dropped".into()) }
                5 if n > 1 => { let i = r.usize(n - 1); let d = rf::<C::ScalarField>(r); m.pis[i] = m.pis[i] + d; m.pis[i + 1] = m.pis[i + 1] - d; (false, format!("public inputs {} and {}, sum kept", i, i + 1)) }
                _ => { let e = rf(r); let h = vec_op!(&mut m.pis, r, e); (false, format!("public inputs: {}", h)) }
            }
        }
        12 => {
            // recombination with another valid proof of the same circuit
            let mut q = p2.clone();
            let p = &mut m.proof;
            let mask = r.next() % 255 + 1;
            let h = format!("parts {:08b} taken from another proof", mask);
            if mask & 1 > 0 { std::mem::swap(&mut p.c_wires, &mut q.c_wires) }
            if mask & 2 > 0 { std::mem::swap(&mut p.c_plonk_z, &mut q.c_plonk_z) }
            if mask & 4 > 0 { std::mem::swap(&mut p.c_plonk_t, &mut q.c_plonk_t) }
            if mask & 8 > 0 { std::mem::swap(&mut p.o_local, &mut q.o_local) }
            if mask & 16 > 0 { std::mem::swap(&mut p.o_right, &mut q.o_right); std::mem::swap(&mut p.o_below, &mut q.o_below) }
            if mask & 32 > 0 { std::mem::swap(&mut p.halo_l, &mut q.halo_l); std::mem::swap(&mut p.halo_r, &mut q.halo_r) }
            if mask & 64 > 0 { std::mem::swap(&mut p.halo_g, &mut q.halo_g); std::mem::swap(&mut p.c_pis_quotient, &mut q.c_pis_quotient) }
            if mask & 128 > 0 { std::mem::swap(&mut p.schnorr_proof, &mut q.schnorr_proof) }
            (false, h)
        }
        13 => {
            let n = m.old.len();
            if n == 0 {
                let us = (0..m.proof.halo_l.len()).map(|_| rf(r)).collect();
                m.old.push(OldProof { halo_g: rpoint::<C>(r), halo_us: us });
                return (false, "previous proof added".into());
            }
            let i = r.usize(n);
            match r.below(6) {
                0 => { let (h, q) = mutate_point(m.old[i].halo_g, m.proof.halo_g, r); m.old[i].halo_g = q; (false, format!("previous G {} {}", i, h)) }
                1 => { let k = r.usize(m.old[i].halo_us.len()); let o = rf(r); let x = m.old[i].halo_us[k]; m.old[i].halo_us[k] = mutate_scalar(x, o, r); (false, format!("previous challenges {} [{}]", i, k)) }
                2 => { m.old.remove(i); (false, format!("previous proof {} dropped", i)) }
                3 => { let o = m.old[i].clone(); m.old.insert(i, o); (false, format!("previous proof {} duplicated", i)) }
                4 => { m.old.reverse(); (false, "previous proofs reversed".into()) }
                _ => { let o = rf(r); let h = vec_op!(&mut m.old[i].halo_us, r, o); (false, format!("previous challenges {}: {}", i, h)) }
            }
        }
        14 => {
            let (i, k) = (r.usize(6), r.below(2));
            let v = if k == 0 { &mut m.vk.c_constants } else { &mut m.vk.c_s_sigmas };
            let n = v.len();
            match r.below(4) {
                0 => { let (a, b) = (i % n, (i + 1 + r.usize(n - 1)) % n); v.swap(a, b); (true, format!("key commitments {}: {} and {} swapped", k, a, b)) }
                1 => { let x = if k == 0 { vk2.c_constants[i % n] } else { vk2.c_s_sigmas[i % n] }; v[i % n] = x; (true, format!("key commitments {}: {} of another key", k, i)) }
                _ => { let o = v[(i + 1) % n]; let (h, q) = mutate_point(v[i % n], o, r); v[i % n] = q; (true, format!("key commitments {}: {} {}", k, i, h)) }
            }
        }
        _ => {
            match r.below(6) {
                0 => { m.vk.degree *= 2; (true, "key degree doubled".into()) }
                1 => { if m.vk.degree > 1 { m.vk.degree /= 2 } (true, "key degree halved".into()) }
                2 => { m.vk.num_public_inputs += 1; (true, "key says one more public input".into()) }
                3 => { m.vk.num_public_inputs = m.vk.num_public_inputs.saturating_sub(1); (true, "key says one public input less".into()) }
                4 => { m.vk.security_bits -= 1; (true, "key security".into()) }
                _ => { if m.vk.num_public_inputs > 0 && m.vk.num_gates_without_pis > 0 { if r.chance(1, 2) { m.vk.num_gates_without_pis -= 1 } else { m.vk.num_gates_without_pis += 1 } } (true, "key position of public inputs".into()) }
            }
        }
    }
}
fn same<C: HaloCurve>(a: &Msg<C>, b: &Msg<C>) -> bool {
    a.pis == b.pis && enc(&a.proof) == enc(&b.proof) && a.old.len() == b.old.len()
        && a.old.iter().zip(&b.old).all(|(x, y)| same_pt(&x.halo_g, &y.halo_g) && x.halo_us == y.halo_us)
        && a.vk.c_constants.iter().zip(&b.vk.c_constants).all(|(x, y)| (x.zero && y.zero) || same_pt(x, y)) && a.vk.c_s_sigmas.iter().zip(&b.vk.c_s_sigmas).all(|(x, y)| (x.zero && y.zero) || same_pt(x, y))
        && a.vk.degree == b.vk.degree && a.vk.num_public_inputs == b.vk.num_public_inputs && a.vk.num_gates_without_pis == b.vk.num_gates_without_pis && a.vk.security_bits == b.vk.security_bits
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "tamper".into(), curve: idx % 4, sched: if r.chance(1, 6) { Sched::swarm(r) } else { Sched::plain(r.next()) }, ..Default::default() };
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 1, 1, 2, 3, 6, 8, 9, 10, 18]);
    let curve = r.chance(1, 6);
    prog::gen_steps(r, &mut p, n, npis, curve, 0);
    p.set("old", *r.pick(&[0, 0, 1, 1, 2]));
    p.set("blind", r.below(2));
    for _ in 0..if thorough { 120 } else { 60 } { let (k, s) = (r.next(), r.next()); p.step("tamper", &[k % 16, s]); }
    p
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let b = must("build", || prog::build::<C, I>(&plan.steps))?;
    let vk = b.circuit.to_vk();
    let blind = plan.knob("blind") == 1;
    let setup = |m: String| -> Res { ctx::probe("exchange_impossible"); ctx::trace(|| m); Ok(()) };
    let w = match ctx::sut(|| b.circuit.generate_witness(b.partial())) { Ok(w) => w, Err(m) => return setup(m) };
    let mut old: Vec<OldProof<C>> = vec![];
    for _ in 0..plan.knob("old") {
        let p = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
        match verify::<C, I>(&b.pis, &p, &old, &vk, false) { Ok(Some(o)) => old.push(o), Ok(None) => {}, Err(m) => return setup(m) }
    }
    let p1 = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
    // another exchange: the same program on other public inputs, no previous proofs
    let mut steps2 = plan.steps.clone();
    for s in steps2.iter_mut().filter(|s| s.op == "pi") { s.a = vec![mix(s.arg(0), 7) | 999]; }
    let b2 = must("build", || prog::build::<C, I>(&steps2))?;
    let w2 = match ctx::sut(|| b2.circuit.generate_witness(b2.partial())) { Ok(w) => w, Err(m) => return setup(m) };
    let p2 = match prove::<C, I>(&b2.circuit, &w2, &[], blind) { Ok(p) => p, Err(m) => return setup(m) };
    let vk2 = b2.circuit.to_vk();
    // control: unaltered, it is accepted
    if let Err(m) = verify::<C, I>(&b.pis, &p1, &old, &vk, false) { return setup(m); }
    ctx::probe("unaltered_accepted");
    ctx::sample(format!("curve {} {} old {} blinding {} tampers {}", plan.curve, prog::describe(&b), old.len(), blind, plan.steps.iter().filter(|s| s.op == "tamper").count()));
    let orig = Msg { pis: b.pis.clone(), proof: p1.clone(), old: old.clone(), vk: vk.clone() };
    let mut nv = 0;
    for s in plan.steps.iter().filter(|s| s.op == "tamper") {
        let mut r = Rng::new(s.arg(1));
        let mut m = Msg { pis: b.pis.clone(), proof: p1.clone(), old: old.clone(), vk: vk.clone() };
        let (key_changed, what) = match ctx::sut(|| tamper(&mut m, &p2, &b2.pis, &vk2, s.arg(0), &mut r)) { Ok(x) => x, Err(e) => { ctx::trace(|| format!("tamper {} not possible: {}", s.arg(0), e)); continue } };
        if same(&m, &orig) { ctx::probe("tamper_without_effect"); continue; }
        let vg = s.arg(1) % 16 == 0;
        let res = verify::<C, I>(&m.pis, &m.proof, &m.old, &m.vk, vg);
        ctx::eval(mix(mix(hash_str(&what), plan.curve), mix(old.len() as u64, b.pis.len() as u64)), true);
        ctx::fault(&format!("altered_{}", ["proof_point", "proof_point", "proof_point", "proof_scalar", "proof_scalar", "proof_scalar", "two_scalars", "two_points", "point_vector", "opening_vector", "public_inputs", "public_inputs", "recombined", "previous_proofs", "key_commitment", "key_number"][(s.arg(0) % 16) as usize]));
        nv += 1;
        match res {
            Ok(_) => return viol(&format!("accepted-{}", s.arg(0) % 16), format!("accepted with {} (full check {})", what, vg)),
            Err(e) if e.starts_with("panic") && !key_changed => return viol("verifier-panicked", format!("verifier panicked instead of refusing: {} ({})", what, e)),
            Err(e) => { ctx::log(hash_str(&e)); ctx::trace(|| format!("{}: {}", what, e)); ctx::probe(if e.starts_with("panic") { "key_alteration_panicked" } else { "refused" }) }
        }
    }
    ctx::log(nv);
    Ok(())
}
fn exec(plan: &Plan) -> Res { crate::leaf("C02", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C02", gen, exec, self_managed: false, quick_runs: 120, thorough_runs: 6000,
        rule: "one evaluation = one altered message judged by the real verifier, after the unaltered one was accepted; distinct by alteration (element and kind of change), curve, number of previous proofs and of public inputs",
        real: "builder, prover, verifier",
        stub: "the network (simulated: it alters messages); scheduler, clock and entropy source",
        assumptions: &["the stored precomputations in a verification key are caches and are not altered here (C07 alters them on disk)", "an even number of sign flips of a previous proof's challenges leaves the statement unchanged and is not generated"],
        required_probes: &["unaltered_accepted", "refused"],
    }
}
