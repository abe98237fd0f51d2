//! C12: secrets are hidden with fresh randomness, or no proof is produced.
//! Several simulated processes prove statements while the entropy source misbehaves; every blinding
//! point is recovered by recomputing the commitment without blinding.
use super::c01::{prove, verify};
use crate::byz::{columns, scalars_of};
use crate::ctx::{self, must, viol, Res, Viol};
use crate::driver::{procs, Scenario};
use crate::plan::Plan;
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::{self, Sched};
use plonky::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const OPS: &[&str] = &["prove", "pair", "witness", "lookup", "draw"];
fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "fresh".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 0, 1, 3, 9, 10]);
    prog::gen_steps(r, &mut p, n, npis, false, 0);
    p.set("procs", *r.pick(&[1u64, 1, 2, 2, 3]));
    p.set("same_schedule", r.below(2));
    p.set("warm", r.below(2));
    // entropy never available in any process
    p.set("dead", r.chance(1, 10) as u64);
    let k = r.range(1, if thorough { 5 } else { 3 });
    for _ in 0..k {
        let op = *r.pick(&["prove", "prove", "prove", "pair", "lookup", "draw"]);
        if r.chance(1, 3) { let x = r.below(2); p.step("witness", &[x]); }
        let fail = r.chance(1, 3);
        let at = if fail { *r.pick(&[1u64, 1, 2, 3, 5, 8, 9, 10, 11, 17, 18, 19, 20, 21, 22, 30, 34, 38, 50]) + r.below(3) } else { 0 };
        let a = vec![at, *r.pick(&[0u64, 1, 1, 2, 5, 40]), *r.pick(&[5u64, 5, 14, 22, 11]), r.below(4), r.next()];
        p.step(op, &a);
    }
    p
}

/// sum of k_i P_i with shared doublings
fn msm<C: Curve>(v: &[(C::ScalarField, ProjectivePoint<C>)]) -> ProjectivePoint<C> {
    let bits: Vec<Vec<bool>> = v.iter().map(|(k, _)| k.to_canonical_bool_vec()).collect();
    let n = bits.iter().map(|b| b.len()).max().unwrap_or(0);
    let mut acc = ProjectivePoint::<C>::ZERO;
    for i in (0..n).rev() {
        acc = acc.double();
        for (b, (_, p)) in bits.iter().zip(v) { if b.get(i) == Some(&true) { acc = acc + *p; } }
    }
    acc
}
fn show<C: Curve>(p: ProjectivePoint<C>) -> String {
    let a = p.to_affine();
    if a.zero { "0".into() } else { format!("{:?}", (a.x.to_canonical_u64_vec(), a.y.to_canonical_u64_vec())) }
}
/// Every blinding point of a proof made by the real prover: (name, point).
fn secrets<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, p: &Proof<C>, tiny: &BTreeMap<String, i64>) -> Result<Vec<(String, String)>, Viol> {
    let n = c.degree();
    let pis = c.get_public_inputs(w);
    let ch = match ctx::sut(|| p.get_challenges(&pis, &[])) { Ok(Ok(c)) => c, _ => return viol("no-challenges", "of an honest proof".into()) };
    let cols = columns::<C, I>(c, w, ch.beta, ch.gamma, ch.alpha);
    let g: Vec<ProjectivePoint<C>> = c.pedersen_g.iter().map(|p| p.to_projective()).collect();
    let com = |v: &[C::ScalarField]| msm(&v.iter().cloned().zip(g.iter().cloned()).collect::<Vec<_>>());
    let sent: Vec<AffinePoint<C>> = p.c_wires.iter().cloned().chain(vec![p.c_plonk_z]).chain(p.c_plonk_t.clone()).chain(vec![p.c_pis_quotient]).collect();
    let names = |i: usize| if i < 9 { format!("wire commitment {}", i) } else if i == 9 { "Z commitment".into() } else if i < 17 { format!("t commitment {}", i - 10) } else { "public-input quotient commitment".to_string() };
    let mut out = vec![];
    for (i, (a, v)) in sent.iter().zip(&cols).enumerate() { out.push((names(i), show(a.to_projective() + -com(v)))); }
    // the inner-product argument, folded along
    let all: Vec<Vec<C::ScalarField>> = c.constant_polynomials.iter().chain(&c.s_sigma_polynomials).map(|p| p.coeffs().to_vec()).chain(cols).collect();
    let sc = scalars_of::<C>(ch.u, all.len());
    let mut a = vec![C::ScalarField::ZERO; n];
    for (v, s) in all.iter().zip(&sc) { for (i, x) in v.iter().enumerate() { a[i] = a[i] + *s * *x; } }
    let gen = c.subgroup_generator_n;
    let pts = [ch.zeta, ch.zeta * gen, ch.zeta * gen.exp_usize(65)];
    let mut b: Vec<C::ScalarField> = vec![C::ScalarField::ZERO; n];
    let mut vp = C::ScalarField::ONE;
    for x in pts.iter() { let mut xp = vp; for i in 0..n { b[i] = b[i] + xp; xp = xp * *x; } vp = vp * ch.v; }
    let up = plonk_util::halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..128], c.u).to_projective();
    let mut gv = g;
    let dot = |x: &[C::ScalarField], y: &[C::ScalarField]| x.iter().zip(y).fold(C::ScalarField::ZERO, |s, (p, q)| s + *p * *q);
    for (j, &u) in ch.halo_us.iter().enumerate() {
        let h = a.len() / 2;
        let ui = u.multiplicative_inverse_assuming_nonzero();
        let (l, r) = (&p.halo_l[j], &p.halo_r[j]);
        let side = |x: &[C::ScalarField], gs: &[ProjectivePoint<C>], y: &[C::ScalarField]| {
            let mut v: Vec<_> = x.iter().cloned().zip(gs.iter().cloned()).collect();
            v.push((dot(x, y), up));
            msm(&v)
        };
        out.push((format!("L {}", j), show(l.to_projective() + -side(&a[..h], &gv[h..], &b[h..]))));
        out.push((format!("R {}", j), show(r.to_projective() + -side(&a[h..], &gv[..h], &b[..h]))));
        a = (0..h).map(|i| ui * a[h + i] + u * a[i]).collect();
        b = (0..h).map(|i| ui * b[i] + u * b[h + i]).collect();
        gv = (0..h).map(|i| msm(&[(ui, gv[i]), (u, gv[h + i])])).collect();
    }
    let d = p.schnorr_proof.z1 - a[0] * ch.schnorr_challenge;
    let base = p.halo_g.to_projective() + msm(&[(b[0], up)]);
    out.push(("Schnorr mask s".into(), show(p.schnorr_proof.r.to_projective() + -msm(&[(d, base)]))));
    out.push(("Schnorr mask d".into(), show(msm(&[(d, c.pedersen_h.to_projective())]))));
    for (name, x) in &out {
        if x == "0" { return viol("no-blinding", format!("{} carries no blinding", name)); }
        if let Some(k) = tiny.get(x) { return viol("guessable-blinding", format!("{} is blinded by {}", name, k)); }
    }
    Ok(out)
}
/// the first multiples of H, which no random blinding factor hits
fn tiny<C: HaloCurve>(c: &Circuit<C>) -> BTreeMap<String, i64> {
    let h = c.pedersen_h.to_projective();
    let mut m = BTreeMap::new();
    let mut p = h;
    let mut v = vec![];
    for _ in 1..600 { v.push(p); v.push(-p); p = p + h; }
    // powers of two as well
    p = h;
    for _ in 0..254 { v.push(p); v.push(-p); p = p.double(); }
    for (i, a) in ProjectivePoint::batch_to_affine(&v).into_iter().enumerate() { m.insert(show(a.to_projective()), i as i64); }
    m
}

pub fn process<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan, pid: u64) -> Result<Value, Viol> {
    let steps: Vec<_> = plan.steps.iter().filter(|s| !OPS.contains(&s.op.as_str())).cloned().collect();
    let dead = plan.knob("dead") == 1;
    let b = must("build", || prog::build::<C, I>(&steps))?;
    let vk = b.circuit.to_vk();
    if pid == 0 { ctx::sample(format!("curve {} {}, {} process(es)", plan.curve, prog::describe(&b), plan.knob("procs").max(1))); }
    let mut w = None;
    let small = tiny(&b.circuit);
    // (what, blinding point) of everything this process has hidden
    let mut got: Vec<(String, String)> = vec![];
    let mut n_proof = 0;
    // the standard library itself needs entropy once, for its hash maps; from here on there is none
    if dead { rt::set_rnd_fail(1, 0, 5); ctx::fault("entropy_dead_from_the_start"); }
    if !dead { must("rand", || C::ScalarField::rand())?; }
    let rows_of = |w: &Witness<C::ScalarField>| -> Vec<Vec<C::ScalarField>> { let t = w.transpose(); (0..b.circuit.degree()).map(|i| t.iter().map(|c| c[i]).collect()).collect() };
    let fresh_witness = |got: &mut Vec<(String, String)>, old: &Option<Witness<C::ScalarField>>| -> Result<Option<Witness<C::ScalarField>>, Viol> {
        let f0 = rt::peek().rnd_fail;
        match ctx::sut(|| b.circuit.generate_witness(b.partial())) {
            Ok(w) => {
                if rt::peek().rnd_fail > f0 { return viol("witness-without-entropy", "the entropy source failed, yet random rows were produced".into()); }
                if let Some(o) = old {
                    let (x, y) = (rows_of(&w), rows_of(o));
                    let new: Vec<usize> = (0..x.len()).filter(|&i| x[i].iter().zip(&y[i]).all(|(p, q)| p != q)).collect();
                    if new.len() < 3 { return viol("blinding-rows-repeat", format!("only {} rows are fresh in a second witness", new.len())); }
                    for i in &new { for (j, v) in x[*i].iter().enumerate() { got.push((format!("process {} random row wire {} {}", pid, i, j), format!("{:?}", v.to_canonical_u64_vec()))); } }
                }
                Ok(Some(w))
            }
            Err(m) => {
                if rt::peek().rnd_fail == f0 { return viol("witness-failed", m); }
                ctx::probe("witness_refused_without_entropy");
                Ok(None)
            }
        }
    };
    for (si, s) in plan.steps.iter().enumerate().filter(|(_, s)| OPS.contains(&s.op.as_str())) {
        if s.op == "witness" { w = None; continue; }
        let (at, len, err) = (s.arg(0), s.arg(1), s.arg(2) as u32);
        let persistent = at > 0 && len == 0;
        let arm = |on: bool| if on && at > 0 && !dead { rt::set_rnd_fail(at, len, err); ctx::fault("entropy_failure_armed"); } else if !dead { rt::set_rnd_fail(0, 0, 0) };
        if s.op == "draw" {
            arm(true);
            let f0 = rt::peek().rnd_fail;
            for k in 0..s.arg(3) + 1 {
                match ctx::sut(|| C::ScalarField::rand()) {
                    Ok(x) => got.push((format!("process {} step {} draw {}", pid, si, k), format!("{:?}", x.to_canonical_u64_vec()))),
                    Err(m) => { if rt::peek().rnd_fail == f0 { return viol("rand-failed", m); } ctx::probe("draw_refused_without_entropy"); break }
                }
                if rt::peek().rnd_fail > f0 { return viol("randomness-without-entropy", format!("the entropy source failed ({}), yet a random element was produced", if dead || persistent { "for good" } else { "for a while" })); }
            }
            arm(false);
            continue;
        }
        if s.op == "lookup" {
            let mut g = Rng::new(s.arg(4));
            let t: Vec<C::ScalarField> = (0..g.range(1, 9)).map(|_| C::ScalarField::from_canonical_u64(g.next() >> 40)).collect();
            let f: Vec<C::ScalarField> = (0..g.range(1, 9)).map(|_| t[g.usize(t.len())]).collect();
            let mut prev: Vec<Vec<AffinePoint<C>>> = vec![];
            for k in 0..3 {
                if k == 2 { arm(true); }
                let f0 = rt::peek().rnd_fail;
                let r = ctx::sut(|| plookup::plookup::prove::<C>(&f, &t));
                let failed = rt::peek().rnd_fail > f0;
                match r {
                    Ok(Ok(p)) => {
                        if failed { return viol("proof-without-entropy", "the entropy source failed, yet a lookup proof was produced".into()); }
                        let v = vec![p.c_f, p.c_h1, p.c_h2];
                        let mut diffs = vec![];
                        for o in &prev { for (i, (x, y)) in v.iter().zip(o).enumerate() { diffs.push((i, show(x.to_projective() + -y.to_projective()))); } }
                        for (i, x) in &diffs { if x == "0" { return viol("blinding-repeats", format!("commitment {} of two lookup proofs of one statement is the same", i)); } }
                        for i in 0..diffs.len() { for j in 0..i { if diffs[i].1 == diffs[j].1 { return viol("blinding-related", format!("commitments {} and {} of lookup proofs changed by the same amount", diffs[i].0, diffs[j].0)); } } }
                        prev.push(v);
                        ctx::eval(mix(hash_str("lookup"), mix(plan.curve, f.len() as u64 * 64 + t.len() as u64)), true);
                    }
                    Ok(Err(e)) => { if !failed { return viol("lookup-failed", e.to_string()); } ctx::probe("lookup_refused_without_entropy") }
                    Err(m) => { if !failed { return viol("lookup-failed", m); } ctx::probe("lookup_refused_without_entropy") }
                }
                arm(false);
                if dead { break; }
            }
            continue;
        }
        let again = w.take();
        let w0 = match again {
            Some(w) => w,
            None => {
                let mut first = None;
                if s.arg(3) == 0 || n_proof > 0 { first = fresh_witness(&mut got, &None)?; }
                if s.arg(3) == 1 { arm(true); }
                let x = fresh_witness(&mut got, &first)?;
                arm(false);
                match x { Some(w) => w, None => { ctx::eval(mix(hash_str("no witness"), mix(at, len)), true); continue } }
            }
        };
        let blind = s.arg(4) % 8 != 0;
        arm(s.arg(3) != 1);
        let f0 = rt::peek().rnd_fail;
        let proofs: Vec<Result<Proof<C>, String>> = if s.op == "pair" {
            let n = 2 + (s.arg(4) / 8 % 2) as usize;
            let mut v = vec![];
            let (cr, wr) = (&b.circuit, &w0);
            let res: Vec<Result<Proof<C>, String>> = unsafe {
                // scoped threads: everything borrowed outlives the joins below
                let (pc, pw) = (cr as *const _ as usize, wr as *const _ as usize);
                let hs: Vec<_> = (0..n).map(|_| std::thread::spawn(move || prove::<C, I>(&*(pc as *const Circuit<C>), &*(pw as *const Witness<C::ScalarField>), &[], blind))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
            };
            v.extend(res);
            ctx::probe("several_callers_at_once");
            v
        } else { vec![prove::<C, I>(&b.circuit, &w0, &[], blind)] };
        let failed = rt::peek().rnd_fail > f0;
        arm(false);
        let single = proofs.len() == 1;
        for (k, p) in proofs.into_iter().enumerate() {
            ctx::trace(|| format!("process {} step {} proof {}: {}{}", pid, si, k, match &p { Ok(_) => "made".to_string(), Err(e) => e.clone() }, if failed { ", entropy failed" } else { "" }));
            match p {
                Ok(p) => {
                    if failed && single || dead { return viol("proof-without-entropy", format!("the entropy source failed ({}), yet a proof was produced", if dead || persistent { "for good" } else { "for a while" })); }
                    if let Err(m) = verify::<C, I>(&b.pis, &p, &[], &vk, false) { return viol("honest-proof-refused", m); }
                    if blind {
                        for (name, x) in secrets::<C, I>(&b.circuit, &w0, &p, &small)? { got.push((format!("process {} step {} proof {} {}", pid, si, k, name), x)); }
                        ctx::probe("blindings_recovered");
                    }
                    ctx::eval(mix(hash_str(&prog::describe(&b)), mix(plan.curve, mix(at, len * 8 + n_proof))), true);
                    n_proof += 1;
                }
                Err(m) => {
                    if !failed { return viol("prover-failed", m); }
                    ctx::probe("prover_refused_without_entropy");
                    ctx::eval(mix(hash_str("refused"), mix(at, len * 64 + err as u64)), true);
                }
            }
        }
        w = Some(w0);
    }
    Ok(json!(got))
}
fn exec(plan: &Plan) -> Res {
    if plan.knob("warm") == 1 {
        // processes cloned from one that has used randomness before
        let s = Sched { rnd_mode: plan.sched.rnd_mode, ..Sched::plain(plan.sched.seed) };
        rt::start(&s.cfg(-1), &[]);
        for _ in 0..3 { let _ = ctx::sut(|| (TweedledeeBase::rand(), VestaBase::rand())); }
        rt::stop();
        ctx::probe("processes_cloned_after_first_use");
    }
    let n = plan.knob("procs").max(1);
    let mut jobs: Vec<(Sched, Box<dyn Fn() -> Result<Value, Viol> + '_>)> = vec![];
    for i in 0..n {
        let mut s = plan.sched.clone();
        if plan.knob("same_schedule") == 1 { s.entropy_salt = i; } else { s.seed = mix(s.seed, i); }
        jobs.push((s, Box::new(move || crate::leaf("C12", plan, i))));
    }
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (i, v) in procs(jobs)?.iter().enumerate() {
        for e in v.as_array().unwrap() {
            let (name, x) = (e[0].as_str().unwrap().to_string(), e[1].as_str().unwrap().to_string());
            ctx::log(hash_str(&x));
            if let Some(o) = seen.insert(x, name.clone()) {
                return viol(if o.starts_with(&format!("process {} ", i)) { "blinding-repeats" } else { "blinding-repeats-across-processes" }, format!("{} and {} are hidden by the same value", o, name));
            }
        }
        if i > 0 { ctx::probe("compared_across_processes"); }
    }
    Ok(())
}

pub fn scenario() -> Scenario {
    Scenario {
        id: "C12", gen, exec, self_managed: true, quick_runs: 240, thorough_runs: 3000,
        rule: "one evaluation = one proof (or refusal) with every blinding recovered and compared with all others of the run; distinct by program, curve, failure point and length of the entropy source, position in the history",
        real: "builder, witness generation with random rows, prover, inner-product argument, lookup prover, rand/OsRng/getrandom crates, rayon pool",
        stub: "the operating system's entropy source (getrandom, /dev/urandom), scheduler and clock; processes are simulated one after the other with their own address space, schedule and entropy",
        assumptions: &["a retry after a failure other than an interruption counts as using failed entropy", "unpredictability itself is not observable: repeated, related, zero and small blinding factors are, and values independent of the entropy source are found by comparing processes that differ in nothing else"],
        required_probes: &["blindings_recovered", "prover_refused_without_entropy", "witness_refused_without_entropy", "compared_across_processes", "several_callers_at_once"],
    }
}
