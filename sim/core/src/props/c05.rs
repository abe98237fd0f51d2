//! C05: deferred group checks in a chain of proofs cannot be dodged.
//! Parties (honest provers, forging provers, verifiers) exchange proofs and accumulators over a
//! simulated network that drops, duplicates, reorders, substitutes and alters them.
use super::c01::{prove, verify};
use crate::byz::{self, rf, rpoint, Attack};
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::{Plan, Step};
use crate::prog;
use crate::refm::R;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::*;

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "chain".into(), curve: idx % 4, sched: Sched::swarm(r), ..Default::default() };
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 0, 1, 3, 9, 10]);
    let curve = r.chance(1, 6);
    prog::gen_steps(r, &mut p, n, npis, curve, 0);
    p.set("sizes", r.below(4));
    let k = r.range(2, if thorough { 9 } else { 6 });
    for i in 0..k {
        // the accumulators a proof takes: indices into what the network has delivered so far
        let m = if i == 0 { 0 } else { *r.pick(&[1u64, 1, 1, 2, 2, 3, 0, 5]) };
        let mut a = vec![r.below(3), r.below(12), r.next(), r.below(2)];
        for _ in 0..m { a.push(r.next()); }
        p.step("prove", &a);
        for _ in 0..*r.pick(&[0u64, 1, 1, 2, 3]) { let (x, y, z) = (r.next(), r.next(), r.next()); p.step("send", &[x, y, z]); }
        if r.chance(1, 4) { let (x, y) = (r.next(), r.next()); p.step("acc", &[x, y]); }
    }
    p
}

struct Acc<C: HaloCurve> { o: OldProof<C>, good: bool, poly: Option<Vec<C::ScalarField>>, from: String }
impl<C: HaloCurve> Clone for Acc<C> { fn clone(&self) -> Self { Acc { o: self.o.clone(), good: self.good, poly: self.poly.clone(), from: self.from.clone() } } }
struct Msg<C: HaloCurve> { circ: usize, proof: Proof<C>, old: Vec<Acc<C>>, honest: bool }

/// coefficients of prod_j (1/u_j + u_j X^(2^(k-1-j)))
fn s_vec<F: Field>(us: &[F]) -> Option<Vec<F>> {
    let r = R::of::<F>();
    let mut v = vec![F::ONE];
    for &u in us.iter().rev() {
        if u == F::ZERO { return None; }
        let i = r.inv(u);
        let mut hi: Vec<F> = v.iter().map(|&x| r.mul(x, u)).collect();
        v = v.iter().map(|&x| r.mul(x, i)).collect();
        v.append(&mut hi);
    }
    Some(v)
}
struct Gens<C: HaloCurve> { g: Vec<AffinePoint<C>> }
impl<C: HaloCurve> Gens<C> {
    fn commit(&mut self, v: &[C::ScalarField]) -> AffinePoint<C> {
        while self.g.len() < v.len() { let i = self.g.len(); self.g.push(blake_hash_usize_to_curve::<C>(i)); }
        let mut acc = ProjectivePoint::<C>::ZERO;
        for (p, s) in self.g.iter().zip(v) { acc = acc + C::convert(*s) * p.to_projective(); }
        acc.to_affine()
    }
    /// <s(us), G> = halo_g, worked out without the code under test's polynomial and MSM
    fn good(&mut self, o: &OldProof<C>) -> bool {
        match s_vec(&o.halo_us) { Some(s) => self.commit(&s) == o.halo_g, None => false }
    }
}
fn same<C: HaloCurve>(a: &[Acc<C>], b: &[OldProof<C>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.o.halo_us == y.halo_us && x.o.halo_g.zero == y.halo_g.zero && x.o.halo_g.x == y.halo_g.x && x.o.halo_g.y == y.halo_g.y)
}
/// u' != u such that u' X + 1/u' = u X + 1/u
fn twin<F: Field>(us: &mut Vec<F>, j: usize, zeta: F) -> bool {
    let e = us.len() - 1 - j;
    let mut x = zeta;
    for _ in 0..e { x = x.square(); }
    let t = us[j] * x;
    if t == F::ZERO { return false; }
    let v = t.multiplicative_inverse_assuming_nonzero();
    if v == us[j] { return false; }
    us[j] = v;
    true
}
/// changes us[j] so that g(zeta) becomes `want`, if the quadratic has a root
fn retarget<F: Field>(us: &mut Vec<F>, zeta: F, want: F) -> bool {
    for j in 0..us.len() {
        let mut rest = us.clone();
        rest.remove(j);
        let e = us.len() - 1 - j;
        let mut x = zeta;
        let mut others = F::ONE;
        for (k, &u) in us.iter().rev().enumerate() {
            if k == e { } else { let mut xp = zeta; for _ in 0..k { xp = xp.square(); } others = others * (u * xp + u.multiplicative_inverse_assuming_nonzero()); }
        }
        for _ in 0..e { x = x.square(); }
        if others == F::ZERO || x == F::ZERO { continue; }
        // u x + 1/u = t  <=>  x u^2 - t u + 1 = 0
        let t = want / others;
        let four = F::from_canonical_u64(4);
        if let Some(s) = (t.square() - four * x).square_root() {
            let u = (t + s) / (x + x);
            if u != F::ZERO { us[j] = u; return halo(zeta, us) == want; }
        }
    }
    false
}
fn halo<F: Field>(x: F, us: &[F]) -> F {
    let mut p = F::ONE;
    let mut xp = x;
    for &u in us.iter().rev() { p = p * (u * xp + u.multiplicative_inverse_assuming_nonzero()); xp = xp.square(); }
    p
}
fn neg<C: HaloCurve>(p: AffinePoint<C>) -> AffinePoint<C> { if p.zero { p } else { AffinePoint { y: -p.y, ..p } } }
fn add<C: HaloCurve>(a: AffinePoint<C>, b: AffinePoint<C>) -> AffinePoint<C> { (a.to_projective() + b.to_projective()).to_affine() }

/// What the network does to the accumulators that travel with a proof.
fn tamper<C: HaloCurve>(v: &mut Vec<OldProof<C>>, pool: &[Acc<C>], msg: &Msg<C>, pis: &[C::ScalarField], how: u64, g: &mut Rng) -> &'static str {
    let any = |g: &mut Rng| pool.get(g.usize(pool.len().max(1))).map(|a| a.o.clone());
    if v.is_empty() {
        return match any(g) { Some(a) => { v.push(a); "accumulator_added" } None => "none" };
    }
    let i = g.usize(v.len());
    let zeta = || match ctx::sut(|| msg.proof.get_challenges(pis, &msg.old.iter().map(|a| a.o.clone()).collect::<Vec<_>>())) { Ok(Ok(c)) => Some(c.zeta), _ => None };
    match how % 16 {
        0 => { v.remove(i); "accumulator_dropped" }
        1 => { let a = v[i].clone(); v.insert(i, a); "accumulator_duplicated" }
        2 => { if v.len() < 2 { return "none" } let j = (i + 1 + g.usize(v.len() - 1)) % v.len(); v.swap(i, j); "accumulators_reordered" }
        3 => { if let Some(a) = any(g) { v[i] = a; "accumulator_substituted" } else { "none" } }
        4 => { if let Some(a) = any(g) { v.push(a); "accumulator_added" } else { "none" } }
        5 => { v[i].halo_g = neg(v[i].halo_g); "accumulator_point_altered" }
        6 => { v[i].halo_g = add(v[i].halo_g, C::GENERATOR_AFFINE); "accumulator_point_altered" }
        7 => { v[i].halo_g = AffinePoint::ZERO; "accumulator_point_altered" }
        8 => { let k = g.usize(v[i].halo_us.len().max(1)); if let Some(u) = v[i].halo_us.get_mut(k) { *u = rf(g) } "accumulator_challenge_altered" }
        9 => { let k = g.usize(v[i].halo_us.len().max(1)); if let Some(u) = v[i].halo_us.get_mut(k) { *u = -*u } "accumulator_challenge_altered" }
        10 => { for u in v[i].halo_us.iter_mut() { *u = u.multiplicative_inverse_assuming_nonzero() } "accumulator_challenge_altered" }
        11 | 12 => {
            // altered so that the value at this proof's zeta stays the same
            let z = match zeta() { Some(z) => z, None => return "none" };
            if v[i].halo_us.is_empty() { return "none" }
            let j = g.usize(v[i].halo_us.len());
            if twin(&mut v[i].halo_us, j, z) { "accumulator_altered_with_same_value" } else { "none" }
        }
        13 => { if g.chance(1, 2) { v[i].halo_us.pop(); } else { let x = rf(g); v[i].halo_us.push(x); } "accumulator_challenge_altered" }
        14 => { if v.len() < 2 { return "none" } let j = (i + 1) % v.len(); let x = v[i].halo_us.clone(); let y = std::mem::replace(&mut v[j].halo_us, x); v[i].halo_us = y; "accumulators_reordered" }
        _ => { v.clear(); "accumulator_dropped" }
    }
}

pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let prog_steps: Vec<Step> = plan.steps.iter().filter(|s| !["prove", "send", "acc"].contains(&s.op.as_str())).cloned().collect();
    let mut builts = vec![];
    for k in 0..(plan.knob("sizes") as usize).min(2) + 1 {
        let mut st = prog_steps.clone();
        if k > 0 { st.push(Step { op: "mul".into(), a: vec![k as u64, 7, 0] }); }
        if k == 2 { st.push(Step { op: "fill".into(), a: vec![61] }); }
        builts.push(must("build", || prog::build::<C, I>(&st))?);
    }
    let vks: Vec<_> = builts.iter().map(|b| b.circuit.to_vk()).collect();
    let mut ws = vec![];
    for b in &builts { ws.push(must("witness", || b.circuit.generate_witness(b.partial()))?); }
    ctx::sample(format!("curve {} {} circuit(s), degrees {:?}; {}", plan.curve, builts.len(), builts.iter().map(|b| b.circuit.degree()).collect::<Vec<_>>(), prog::describe(&builts[0])));
    let mut gens = Gens::<C> { g: vec![] };
    let mut pool: Vec<Acc<C>> = vec![];
    let mut msgs: Vec<Msg<C>> = vec![];
    for (si, s) in plan.steps.iter().enumerate() {
        let mut g = Rng::new(mix(s.arg(2), si as u64));
        match s.op.as_str() {
            "acc" => {
                // an accumulator made up by a malicious peer
                let mut g = Rng::new(s.arg(1));
                let d = builts[0].circuit.degree();
                let us: Vec<C::ScalarField> = (0..util::log2_strict(d)).map(|_| rf(&mut g)).collect();
                let (p, poly, what) = match s.arg(0) % 4 {
                    0 => (rpoint::<C>(&mut g), None, "of a random point"),
                    1 => (AffinePoint::ZERO, Some(vec![C::ScalarField::ZERO; d]), "of the zero point"),
                    2 => { let v: Vec<C::ScalarField> = (0..d).map(|_| rf(&mut g)).collect(); (gens.commit(&v), Some(v), "of a known polynomial") }
                    _ => match pool.get(g.usize(pool.len().max(1))) { Some(a) => (add(a.o.halo_g, C::GENERATOR_AFFINE), None, "next to a good one"), None => continue },
                };
                let o = OldProof { halo_g: p, halo_us: us };
                let good = gens.good(&o);
                ctx::fault("accumulator_made_up");
                ctx::trace(|| format!("a peer makes up accumulator {} {}", pool.len(), what));
                pool.push(Acc { o, good, poly, from: format!("made up {}", what) });
            }
            "prove" => {
                let c = s.arg(0) as usize % builts.len();
                let b = &builts[c];
                let lim = util::log2_strict(b.circuit.degree());
                let mut old: Vec<Acc<C>> = vec![];
                for k in 4..s.a.len() {
                    // an honest prover keeps to accumulators of circuits that are not larger
                    let fit: Vec<&Acc<C>> = pool.iter().filter(|a| a.o.halo_us.len() <= lim).collect();
                    if !fit.is_empty() { let n = fit.len() as u64; let j = if s.arg(k) % 3 > 0 { n - 1 - (s.arg(k) / 3) % n.min(3) } else { s.arg(k) / 3 % n }; old.push(fit[j as usize].clone()); }
                }
                let list: Vec<OldProof<C>> = old.iter().map(|a| a.o.clone()).collect();
                let blind = s.arg(3) == 1;
                let mode = s.arg(1);
                let (proof, honest, how) = match mode {
                    0 | 1 | 2 | 3 | 4 => (prove::<C, I>(&b.circuit, &ws[c], &list, blind), true, "honestly"),
                    5 | 6 | 7 => (byz::prove::<C, I>(&b.circuit, &ws[c], &list, &Attack { forge_g: true, blind, ..Default::default() }, &mut g), false, "forging its own G"),
                    8 => {
                        // every accumulator opened as the polynomial it really commits to
                        let polys = old.iter().map(|a| if a.good { None } else { a.poly.clone() }).collect();
                        (byz::prove::<C, I>(&b.circuit, &ws[c], &list, &Attack { old_polys: polys, blind, ..Default::default() }, &mut g), false, "opening what the accumulators commit to")
                    }
                    9 => {
                        let polys = old.iter().map(|a| if a.good { None } else { a.poly.clone() }).collect();
                        (byz::prove::<C, I>(&b.circuit, &ws[c], &list, &Attack { old_polys: polys, old_claim: true, blind, ..Default::default() }, &mut g), false, "lying about what the accumulators commit to")
                    }
                    10 => (byz::prove::<C, I>(&b.circuit, &ws[c], &list, &Attack { blind, ..Default::default() }, &mut g), false, "with its own prover"),
                    _ => {
                        // forged, and the accumulators' openings are invented too
                        let n = list.len();
                        let lies = (0..n).map(|k| (0usize, 29 + k, rf::<C::ScalarField>(&mut g))).collect();
                        (byz::prove::<C, I>(&b.circuit, &ws[c], &list, &Attack { forge_g: n > 0, lies, old_claim: false, blind, ..Default::default() }, &mut g), false, "inventing the accumulators' values")
                    }
                };
                ctx::trace(|| format!("proof {}: circuit {}, made {}, taking [{}]", msgs.len(), c, how, old.iter().map(|a| a.from.clone()).collect::<Vec<_>>().join(", ")));
                if !honest { ctx::fault("forging_prover"); }
                let proof = match proof {
                    Ok(p) => p,
                    Err(m) if honest && old.iter().all(|a| a.good) => return viol("prover-failed", format!("proof {} taking {} good accumulators: {}", msgs.len(), old.len(), m)),
                    Err(_) => continue,
                };
                let m = Msg { circ: c, proof, old, honest };
                // its addressee checks it provisionally and hands its accumulator on
                let msg_id = msgs.len();
                let kind = mix(hash_str(how), mix(plan.curve, mix(m.old.len() as u64, m.old.iter().fold(c as u64, |h, a| h * 2 + a.good as u64))));
                match judge::<C, I>(&m, &list, &b.pis, &vks[c], false, &mut gens, kind)? {
                    Some(Some(o)) => {
                        let good = gens.good(&o);
                        if good { ctx::probe("accumulator_good") } else { ctx::probe("forged_accumulator_accepted_provisionally") }
                        pool.push(Acc { o, good, poly: None, from: format!("of proof {}{}", msg_id, if good { "" } else { " (forged)" }) });
                    }
                    _ => {}
                }
                msgs.push(m);
            }
            "send" => {
                if msgs.is_empty() { continue; }
                let n = msgs.len() as u64;
                let k = if s.arg(0) % 3 > 0 { n - 1 } else { s.arg(0) / 3 % n } as usize;
                let m = &msgs[k];
                let c = m.circ;
                let pis = &builts[c].pis;
                let mut list: Vec<OldProof<C>> = m.old.iter().map(|a| a.o.clone()).collect();
                let vg = s.arg(1) & 1 == 1;
                let mut fault = "none";
                let mut proof = m.proof.clone();
                if s.arg(1) / 2 % 4 != 0 {
                    fault = tamper(&mut list, &pool, m, pis, s.arg(1) / 8, &mut g);
                    if fault != "none" && s.arg(1) / 128 % 3 == 0 {
                        // the proof is adapted to the list it now travels with
                        if let Ok(Ok(ch)) = ctx::sut(|| proof.get_challenges(pis, &list)) {
                            for os in vec![&mut proof.o_local, &mut proof.o_right, &mut proof.o_below] { os.o_old_proofs.resize(list.len(), C::ScalarField::ZERO); }
                            for (i, o) in list.iter().enumerate() { if o.halo_us.iter().all(|u| u.is_nonzero()) { proof.o_local.o_old_proofs[i] = halo(ch.zeta, &o.halo_us); } }
                            ctx::fault("proof_adapted_to_altered_list");
                        }
                    }
                } else if !m.old.is_empty() && s.arg(1) / 8 % 3 == 0 {
                    // challenges chosen once zeta is known, so that a wrong accumulator has the opened value
                    if let Ok(Ok(ch)) = ctx::sut(|| proof.get_challenges(pis, &list)) {
                        let i = g.usize(list.len());
                        let want = proof.o_local.o_old_proofs[i];
                        if retarget(&mut list[i].halo_us, ch.zeta, want) && !same(&m.old, &list) { fault = "accumulator_fitted_to_the_opening"; }
                    }
                }
                if fault != "none" { ctx::fault(fault); }
                ctx::trace(|| format!("proof {} arrives ({}), final check {}", k, fault, if vg { "now" } else { "deferred" }));
                let m2 = Msg { circ: c, proof, old: m.old.clone(), honest: m.honest };
                let kind = mix(hash_str(fault), mix(plan.curve * 8 + vg as u64 + 2 * m.honest as u64, m.old.iter().fold(list.len() as u64, |h, a| h * 2 + a.good as u64)));
                if let Some(Some(o)) = judge::<C, I>(&m2, &list, pis, &vks[c], vg, &mut gens, kind)? {
                    let good = gens.good(&o);
                    if !pool.iter().any(|a| a.o.halo_us == o.halo_us) { pool.push(Acc { o, good, poly: None, from: format!("of proof {} again", k) }); }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// Verifies and compares the verdict with what the history allows. None = refused.
fn judge<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(m: &Msg<C>, list: &[OldProof<C>], pis: &[C::ScalarField], vk: &VerificationKey<C>, vg: bool, gens: &mut Gens<C>, kind: u64) -> Result<Option<Option<OldProof<C>>>, ctx::Viol> {
    let intact = same(&m.old, list);
    let v = verify::<C, I>(pis, &m.proof, list, vk, vg);
    let wrong: Vec<usize> = (0..list.len()).filter(|&i| !gens.good(&list[i])).collect();
    ctx::eval(kind, true);
    ctx::trace(|| format!("  -> {}", match &v { Ok(_) => "accepted".to_string(), Err(e) => e.clone() }));
    match v {
        Err(e) => {
            if m.honest && intact && wrong.is_empty() { return viol("honest-proof-refused", format!("a proof honestly made with {} good accumulators: {}", list.len(), e)); }
            ctx::probe(if !intact { "altered_list_refused" } else if !wrong.is_empty() { "wrong_accumulator_refused" } else { "forged_proof_refused" });
            Ok(None)
        }
        Ok(o) => {
            if vg != o.is_none() { return viol("old-proof", "deferred check missing or unexpected".into()); }
            if !intact { return viol("altered-list-accepted", format!("a proof made with {} accumulators is accepted with an altered list of {}", m.old.len(), list.len())); }
            let own = match &o {
                Some(o) => gens.good(o),
                None => true,
            };
            if vg || own {
                if !wrong.is_empty() { return viol("wrong-accumulator-accepted", format!("accumulator {} of {} is not <s, G>, yet the proof passes {}", wrong[0], list.len(), if vg { "full verification" } else { "and its own accumulator is good" })); }
                ctx::probe(if vg { "full_verification_passed" } else { "provisional_good" });
                ctx::probe(&format!("accepted_with_{}_accumulators", list.len().min(4)));
            }
            if vg {
                // passing the final check means this G is good as well: recomputed from the challenges
                let ch = match ctx::sut(|| m.proof.get_challenges(pis, list)) { Ok(Ok(c)) => c, _ => return viol("no-challenges", "of an accepted proof".into()) };
                if !gens.good(&OldProof { halo_g: m.proof.halo_g, halo_us: ch.halo_us }) { return viol("forged-g-accepted", "full verification passed with a G that is not <s, G>".into()); }
            } else if m.honest && intact && wrong.is_empty() && !own {
                return viol("honest-accumulator-wrong", "an honest proof's accumulator is not <s, G>".into());
            }
            Ok(Some(o))
        }
    }
}
fn exec(plan: &Plan) -> Res { crate::leaf("C05", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C05", gen, exec, self_managed: false, quick_runs: 120, thorough_runs: 4000,
        rule: "one evaluation = one delivery of a proof with its list of accumulators, judged by the real verifier; distinct by how the proof was made, what the network did to the list, goodness pattern of the accumulators, mode of the final check and curve",
        real: "builder, prover, verifier, accumulator conversion (OldProof), transcript, rayon pool",
        stub: "network between parties (drops, duplicates, reorders, substitutes, alters), OS scheduler, clock, entropy; malicious provers speak the protocol through the public API",
        assumptions: &["finding discrete logarithm relations between the generators is infeasible", "sequentially consistent memory"],
        required_probes: &["forged_accumulator_accepted_provisionally", "altered_list_refused", "wrong_accumulator_refused", "full_verification_passed", "accepted_with_2_accumulators"],
    }
}
