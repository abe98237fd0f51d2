//! A prover under the adversary's control. It speaks the real protocol through the public API
//! (commitments, transcript, inner-product argument) and can deviate wherever it likes.
use crate::rng::Rng;
use plonky::halo::batch_opening_proof;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::poly_commit::PolynomialCommitment;
use plonky::polynomial::Polynomial;
use plonky::util::log2_strict;
use plonky::*;

pub const WIRES: usize = 9;
pub const ROUTED: usize = 6;
pub const CONSTS: usize = 6;
pub const GRID: usize = 65;
pub const SEC: usize = 128;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Z { Honest, Zero, Scaled, Random, Ones }
#[derive(Clone, Debug)]
pub struct Attack<F: Field> {
    pub z: Z,
    /// leave this vanishing term out (0 = Z(1), 1 = permutation, 2.. = gate constraints)
    pub drop: Option<usize>,
    /// lie about t(zeta) so that the combined equation holds
    pub t_fix: bool,
    /// lie about the public-input quotient so that its equation holds
    pub pi_fix: bool,
    /// (opening set, index in to_vec order, difference)
    pub lies: Vec<(usize, usize, F)>,
    /// public inputs claimed instead of those of the trace
    pub claim: Option<Vec<F>>,
    /// once alpha is known, add .2 to public input .0 and make up for it in .1 (both of one gate)
    pub adapt: Option<(usize, usize, F)>,
    /// make up the inner-product argument and choose the final G so that its equation holds
    pub forge_g: bool,
    /// polynomials behind the old accumulators, where they are not those of their challenges
    pub old_polys: Vec<Option<Vec<F>>>,
    /// claim the honest value of an old accumulator's polynomial at zeta although another one is opened
    pub old_claim: bool,
    pub blind: bool,
    /// how the public-input check combines the wires: how many of them, and the power of alpha the first one gets
    pub pi_shape: (usize, usize),
}
impl<F: Field> Default for Attack<F> {
    fn default() -> Self {
        Attack { z: Z::Honest, drop: None, t_fix: false, pi_fix: false, lies: vec![], claim: None, adapt: None, forge_g: false, old_polys: vec![], old_claim: false, blind: false, pi_shape: (WIRES, 0) }
    }
}
pub fn rf<F: Field>(r: &mut Rng) -> F { crate::refm::R::of::<F>().val(r.next() / 1000 * 1000 + 999) }
pub fn rpoint<C: Curve>(r: &mut Rng) -> AffinePoint<C> { (C::convert(rf::<C::ScalarField>(r)) * C::GENERATOR_PROJECTIVE).to_affine() }

pub fn set_at<F: Field>(o: &mut OpeningSet<F>, mut i: usize, f: impl FnOnce(F) -> F) {
    macro_rules! v { ($v:expr) => { if i < $v.len() { $v[i] = f($v[i]); return; } i -= $v.len(); } }
    v!(o.o_constants); v!(o.o_plonk_sigmas); v!(o.o_wires);
    if i == 0 { o.o_plonk_z = f(o.o_plonk_z); return; }
    i -= 1;
    v!(o.o_plonk_t); v!(o.o_old_proofs);
    if i == 0 { o.o_pi_quotient = f(o.o_pi_quotient); }
}
/// k_j of the permutation argument, read off a row whose wires are tied to nothing
fn shifts<C: HaloCurve>(c: &Circuit<C>) -> Vec<C::ScalarField> {
    let row = c.num_gates_without_pis - 1;
    let x = c.subgroup_n[row];
    (0..ROUTED).map(|j| c.s_sigma_values_8n[j][8 * row] / x).collect()
}
fn pi_rows<C: HaloCurve>(c: &Circuit<C>) -> Vec<usize> { (0..(c.num_public_inputs + WIRES - 1) / WIRES).map(|i| c.num_gates_without_pis + 2 * i).collect() }
pub const PI_SHAPES: [(usize, usize); 6] = [(WIRES, 0), (ROUTED, 0), (7, 0), (8, 0), (WIRES, 1), (1, 0)];
fn terms<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(n: usize, k: &[C::ScalarField], x: C::ScalarField, l1: C::ScalarField,
    consts: &[C::ScalarField], loc: &[C::ScalarField], right: &[C::ScalarField], below: &[C::ScalarField], sig: &[C::ScalarField],
    z: C::ScalarField, zg: C::ScalarField, beta: C::ScalarField, gamma: C::ScalarField) -> Vec<C::ScalarField> {
    let _ = n;
    let one = C::ScalarField::ONE;
    let (mut f, mut g) = (one, one);
    for j in 0..ROUTED {
        f = f * (loc[j] + beta * k[j] * x + gamma);
        g = g * (loc[j] + beta * sig[j] + gamma);
    }
    let mut v = vec![l1 * (z - one), f * z - g * zg];
    v.extend(evaluate_all_constraints::<C, I>(consts, loc, right, below));
    v
}
/// floor(v / (x^n - 1))
fn div_zh<F: Field>(v: &[F], n: usize) -> Vec<F> {
    let mut q = vec![F::ZERO; v.len() - n];
    for i in (n..v.len()).rev() {
        let hi = if i < q.len() { q[i] } else { F::ZERO };
        q[i - n] = v[i] + hi;
    }
    q
}
pub fn scalars_of<C: HaloCurve>(u: C::ScalarField, n: usize) -> Vec<C::ScalarField> {
    powers(u, n).iter().map(|p| halo_n::<C>(&p.to_canonical_bool_vec()[..SEC])).collect()
}

fn t_chunks<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, wires8: &Vec<Vec<C::ScalarField>>, zp: &Polynomial<C::ScalarField>, beta: C::ScalarField, gamma: C::ScalarField, alpha: C::ScalarField, drop: Option<usize>) -> Vec<Polynomial<C::ScalarField>> {
    let (zero, one, n) = (C::ScalarField::ZERO, C::ScalarField::ONE, c.degree());
    let z8 = zp.padded(8 * n).eval_domain(&c.fft_precomputation_8n);
    let ks = shifts(c);
    let nf = C::ScalarField::from_canonical_usize(n);
    let vp: Vec<C::ScalarField> = (0..8 * n).map(|i| {
        let x = c.subgroup_8n[i];
        let col = |v: &Vec<Vec<C::ScalarField>>, k: usize, m: usize| (0..m).map(|j| v[j][k % (8 * n)]).collect::<Vec<_>>();
        let l1 = if x == one { one } else { (x.exp_usize(n) - one) / (nf * (x - one)) };
        let t = terms::<C, I>(n, &ks, x, l1, &col(&c.constants_8n, i, CONSTS), &col(wires8, i, WIRES), &col(wires8, i + 8, WIRES), &col(wires8, i + 8 * GRID, WIRES),
            &col(&c.s_sigma_values_8n, i, ROUTED), z8[i], z8[(i + 8) % (8 * n)], beta, gamma);
        let mut s = zero;
        let mut ap = one;
        for (k, x) in t.iter().enumerate() { if drop != Some(k) { s = s + *x * ap; } ap = ap * alpha; }
        s
    }).collect();
    let vanishing = Polynomial::from_evaluations(&vp, &c.fft_precomputation_8n);
    let mut t = div_zh(&vanishing.padded(8 * n).coeffs()[..8 * n], n);
    t.resize(7 * n, zero);
    t.chunks(n).map(|c| Polynomial::from(c.to_vec())).collect()
}
/// (the public inputs' polynomial, the public-input quotient)
fn pi_polys<C: HaloCurve>(c: &Circuit<C>, wires: &[Polynomial<C::ScalarField>], pis: &[C::ScalarField], alpha: C::ScalarField, shape: (usize, usize)) -> (Polynomial<C::ScalarField>, Polynomial<C::ScalarField>) {
    let (zero, n) = (C::ScalarField::ZERO, c.degree());
    let rows = pi_rows(c);
    let mut num = vec![zero; n];
    for (j, p) in wires.iter().enumerate().take(shape.0) {
        let ap = alpha.exp_usize(j + shape.1);
        for k in 0..n { num[k] = num[k] + ap * p.coeffs().get(k).cloned().unwrap_or(zero); }
    }
    let mut piv = vec![zero; n];
    for (i, x) in pis.iter().enumerate() {
        let row = c.num_gates_without_pis + 2 * (i / WIRES);
        if row < n && i % WIRES < shape.0 { piv[row] = piv[row] + alpha.exp_usize(i % WIRES + shape.1) * *x; }
    }
    let pip = Polynomial::from_evaluations(&piv, &c.fft_precomputation_n);
    for k in 0..n { num[k] = num[k] - pip.coeffs().get(k).cloned().unwrap_or(zero); }
    // synthetic division by each root, remainders thrown away
    let mut q = num;
    for &row in &rows {
        let x0 = c.subgroup_n[row];
        let mut out = vec![zero; q.len()];
        let mut carry = zero;
        for k in (1..q.len()).rev() { carry = q[k] + carry * x0; out[k - 1] = carry; }
        q = out;
    }
    (pip, Polynomial::from(q))
}
/// Coefficients of everything an honest prover commits to, in the order wires, z, t chunks, public-input quotient.
pub fn columns<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, beta: C::ScalarField, gamma: C::ScalarField, alpha: C::ScalarField) -> Vec<Vec<C::ScalarField>> {
    let n = c.degree();
    let wires: Vec<_> = w.transpose().iter().map(|v| Polynomial::from_evaluations(v, &c.fft_precomputation_n)).collect();
    let wires8: Vec<_> = wires.iter().map(|p| p.padded(8 * n).eval_domain(&c.fft_precomputation_8n)).collect();
    let zp = Polynomial::from_evaluations(&permutation_polynomial(n, &c.subgroup_n, w, &c.s_sigma_values_8n, beta, gamma), &c.fft_precomputation_n);
    let ts = t_chunks::<C, I>(c, &wires8, &zp, beta, gamma, alpha, None);
    let piq = pi_polys(c, &wires, &c.get_public_inputs(w), alpha, (WIRES, 0)).1;
    wires.into_iter().chain(vec![zp]).chain(ts).chain(vec![piq]).map(|p| { let mut v = p.coeffs().to_vec(); v.resize(n.max(v.len()), C::ScalarField::ZERO); v }).collect()
}
pub fn prove<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, old: &[OldProof<C>], a: &Attack<C::ScalarField>, r: &mut Rng) -> Result<Proof<C>, String> {
    prove_and_claim::<C, I>(c, w, old, a, r).map(|x| x.0)
}
/// (the proof, the public inputs it is claimed for)
pub fn prove_and_claim<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, old: &[OldProof<C>], a: &Attack<C::ScalarField>, r: &mut Rng) -> Result<(Proof<C>, Vec<C::ScalarField>), String> {
    match crate::ctx::sut(|| inner::<C, I>(c, w, old, a, r)) { Ok(x) => x, Err(m) => Err(format!("panic: {}", m)) }
}
fn inner<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &Witness<C::ScalarField>, old: &[OldProof<C>], a: &Attack<C::ScalarField>, r: &mut Rng) -> Result<(Proof<C>, Vec<C::ScalarField>), String> {
    let (zero, one) = (C::ScalarField::ZERO, C::ScalarField::ONE);
    let n = c.degree();
    let b2s = |x: C::BaseField| C::try_convert_b2s(x).map_err(|_| "does not fit".to_string());
    let commit = |p: &[C::ScalarField]| PolynomialCommitment::coeffs_to_commitment(p, &c.pedersen_g_msm_precomputation, c.pedersen_h, a.blind);
    let cols = w.transpose();
    let wires: Vec<_> = cols.iter().map(|v| Polynomial::from_evaluations(v, &c.fft_precomputation_n)).collect();
    let wires8: Vec<_> = wires.iter().map(|p| p.padded(8 * n).eval_domain(&c.fft_precomputation_8n)).collect();
    let trace_pis = c.get_public_inputs(w);
    let mut pis = a.claim.clone().unwrap_or_else(|| trace_pis.clone());
    if pis.iter().any(|x| <C::ScalarField as Field>::try_convert::<C::BaseField>(x).is_err()) { return Err("public inputs do not fit".into()); }
    // Challenges are asked of the verifier's derivation, with what has been sent so far.
    let empty = || OpeningSet { o_constants: vec![], o_plonk_sigmas: vec![], o_wires: vec![], o_plonk_z: zero, o_plonk_t: vec![], o_old_proofs: vec![], o_pi_quotient: zero };
    let inf = AffinePoint::<C>::ZERO;
    let mut sent = Proof { c_wires: vec![], c_plonk_z: inf, c_plonk_t: vec![], c_pis_quotient: inf, o_local: empty(), o_right: empty(), o_below: empty(), halo_l: vec![], halo_r: vec![], halo_g: inf,
        schnorr_proof: SchnorrProof { r: inf, z1: zero, z2: zero } };
    let ask = |p: &Proof<C>, pis: &[C::ScalarField]| p.get_challenges(pis, old).map_err(|e| e.to_string());
    let mut ch = Challenger::<C::BaseField>::new(c.security_bits);
    let c_wires: Vec<_> = wires.iter().map(|p| commit(p.coeffs())).collect();
    sent.c_wires = PolynomialCommitment::commitments_to_affine_vec(&c_wires);
    ch.observe_elements(&C::ScalarField::try_convert_all(&pis).map_err(|_| "public inputs do not fit".to_string())?);
    ch.observe_affine_points(&sent.c_wires);
    ch.get_2_challenges();
    let x = ask(&sent, &pis)?;
    let (beta, gamma) = (x.beta, x.gamma);
    let zv: Vec<C::ScalarField> = match a.z {
        Z::Honest | Z::Scaled => {
            let mut v = permutation_polynomial(n, &c.subgroup_n, w, &c.s_sigma_values_8n, beta, gamma);
            if a.z == Z::Scaled { let s = rf::<C::ScalarField>(r); v.iter_mut().for_each(|x| *x = *x * s); }
            v
        }
        Z::Zero => vec![zero; n],
        Z::Ones => vec![one; n],
        Z::Random => (0..n).map(|_| rf(r)).collect(),
    };
    let zp = Polynomial::from_evaluations(&zv, &c.fft_precomputation_n);
    let c_z = commit(zp.coeffs());
    sent.c_plonk_z = c_z.to_affine();
    ch.observe_affine_point(sent.c_plonk_z);
    ch.get_challenge();
    let alpha = ask(&sent, &pis)?.alpha;
    if let Some((i, j, d)) = a.adapt {
        let up = |k: usize| alpha.exp_usize(k % WIRES);
        pis[i] = pis[i] + d;
        pis[j] = pis[j] - d * up(i) * up(j).multiplicative_inverse_assuming_nonzero();
    }
    let nf = C::ScalarField::from_canonical_usize(n);
    let ks = shifts(c);
    let ts = t_chunks::<C, I>(c, &wires8, &zp, beta, gamma, alpha, a.drop);
    let c_t: Vec<_> = ts.iter().map(|p| commit(p.coeffs())).collect();
    // the public-input quotient, for the claimed public inputs
    let rows = pi_rows(c);
    let (pip, piq) = pi_polys(c, &wires, &pis, alpha, a.pi_shape);
    let c_pi = commit(piq.coeffs());
    sent.c_plonk_t = PolynomialCommitment::commitments_to_affine_vec(&c_t);
    sent.c_pis_quotient = c_pi.to_affine();
    ch.observe_affine_points(&sent.c_plonk_t);
    ch.observe_affine_point(sent.c_pis_quotient);
    for o in old {
        ch.observe_affine_point(o.halo_g);
        ch.observe_elements(&C::try_convert_s2b_slice(&o.halo_us).map_err(|_| "does not fit".to_string())?);
    }
    let olds: Vec<Vec<C::ScalarField>> = old.iter().enumerate().map(|(i, o)| match a.old_polys.get(i) { Some(Some(p)) => p.clone(), _ => o.coeffs() }).collect();
    ch.get_challenge();
    let zeta = ask(&sent, &pis)?.zeta;
    let g = c.subgroup_generator_n;
    let points = vec![zeta, zeta * g, zeta * g.exp_usize(GRID)];
    let open = |x: C::ScalarField| OpeningSet {
        o_constants: c.constant_polynomials.iter().map(|p| p.eval(x)).collect(),
        o_plonk_sigmas: c.s_sigma_polynomials.iter().map(|p| p.eval(x)).collect(),
        o_wires: wires.iter().map(|p| p.eval(x)).collect(),
        o_plonk_z: zp.eval(x),
        o_plonk_t: ts.iter().map(|p| p.eval(x)).collect(),
        o_old_proofs: olds.iter().map(|p| Polynomial::from(p.clone()).eval(x)).collect(),
        o_pi_quotient: piq.eval(x),
    };
    let mut os = vec![open(points[0]), open(points[1]), open(points[2])];
    let truth: Vec<_> = os.iter().map(|o| o.to_vec()).collect();
    for &(s, i, d) in &a.lies { let m = os.len(); set_at(&mut os[s % m], i, |x| x + d); }
    if a.old_claim { for (i, o) in old.iter().enumerate() { os[0].o_old_proofs[i] = o.evaluate_g(zeta); } }
    let zh = zeta.exp_usize(n) - one;
    if a.t_fix {
        let tt = terms::<C, I>(n, &ks, zeta, zh / (nf * (zeta - one)), &os[0].o_constants, &os[0].o_wires, &os[1].o_wires, &os[2].o_wires, &os[0].o_plonk_sigmas, os[0].o_plonk_z, os[1].o_plonk_z, beta, gamma);
        let want = reduce_with_powers(&tt, alpha) / zh;
        let have = reduce_with_powers(&os[0].o_plonk_t, zh + one);
        os[0].o_plonk_t[0] = os[0].o_plonk_t[0] + want - have;
    }
    if a.pi_fix {
        let mut v = zero - pip.eval(zeta);
        for j in 0..a.pi_shape.0 { v = v + alpha.exp_usize(j + a.pi_shape.1) * os[0].o_wires[j]; }
        let d = rows.iter().fold(one, |p, &row| p * (zeta - c.subgroup_n[row]));
        os[0].o_pi_quotient = v / d;
    }
    if !a.lies.is_empty() && os.iter().map(|o| o.to_vec()).collect::<Vec<_>>() == truth { return Err("the lies cancel out".into()); }
    for o in &os { ch.observe_elements(&C::try_convert_s2b_slice(&o.to_vec()).map_err(|_| "does not fit".to_string())?); }
    sent.o_local = os[0].clone();
    sent.o_right = os[1].clone();
    sent.o_below = os[2].clone();
    let x = ask(&sent, &pis)?;
    let (v, u, us) = (x.v, x.u, x.u_scaling);
    let (v1, u1, us1) = ch.get_3_challenges();
    // does our own transcript say the same?
    let known = (b2s(v1)?, b2s(u1)?, b2s(us1)?) == (v, u, us);
    let comms: Vec<PolynomialCommitment<C>> = [c.c_constants.clone(), c.c_s_sigmas.clone(), c_wires.clone(), vec![c_z], c_t.clone(),
        old.iter().map(|o| o.halo_g.into()).collect(), vec![c_pi]].concat();
    let fin = |halo_l: Vec<AffinePoint<C>>, halo_r, halo_g, schnorr_proof| Proof {
        c_wires: PolynomialCommitment::commitments_to_affine_vec(&c_wires), c_plonk_z: c_z.to_affine(), c_plonk_t: PolynomialCommitment::commitments_to_affine_vec(&c_t),
        c_pis_quotient: c_pi.to_affine(), o_local: os[0].clone(), o_right: os[1].clone(), o_below: os[2].clone(), halo_l, halo_r, halo_g, schnorr_proof };
    // one round of the inner-product argument: the challenge's root, if it has one
    let round = |sent: &mut Proof<C>, ch: &mut Challenger<C::BaseField>, x: AffinePoint<C>, y: AffinePoint<C>| -> Result<Option<C::ScalarField>, String> {
        if known {
            let mut f = ch.clone();
            f.observe_affine_points(&[x, y]);
            let nr = halo_n::<C>(&b2s(f.get_challenge())?.to_canonical_bool_vec()[..SEC]);
            let s = nr.square_root();
            if s.is_some() { *ch = f; sent.halo_l.push(x); sent.halo_r.push(y); }
            return Ok(s);
        }
        sent.halo_l.push(x);
        sent.halo_r.push(y);
        match ask(sent, &pis) {
            Ok(c) if c.halo_us.len() == sent.halo_l.len() => Ok(c.halo_us.last().cloned()),
            _ => { sent.halo_l.pop(); sent.halo_r.pop(); Ok(None) }
        }
    };
    let last = |sent: &mut Proof<C>, ch: &mut Challenger<C::BaseField>, r: AffinePoint<C>| -> Result<C::ScalarField, String> {
        sent.schnorr_proof.r = r;
        if known { ch.observe_affine_point(r); return b2s(ch.get_challenge()); }
        Ok(ask(sent, &pis)?.schnorr_challenge)
    };
    if a.forge_g {
        let aff = PolynomialCommitment::commitments_to_affine_vec(&comms);
        let sc = scalars_of::<C>(u, aff.len());
        let (mut l, mut rr, mut uj) = (vec![], vec![], vec![]);
        for _ in 0..log2_strict(n) {
            loop {
                let (x, y) = (rpoint::<C>(r), rpoint::<C>(r));
                if let Some(s) = round(&mut sent, &mut ch, x, y)? { l.push(x); rr.push(y); uj.push(s); break; }
            }
        }
        let rc = rpoint::<C>(r);
        let cc = last(&mut sent, &mut ch, rc)?;
        let red: Vec<C::ScalarField> = os.iter().map(|o| C::ScalarField::inner_product(&o.to_vec(), &sc)).collect();
        let val = reduce_with_powers(&red, v);
        let up = halo_n_mul(&us.to_canonical_bool_vec()[..SEC], c.u).to_projective();
        let b = reduce_with_powers(&points.iter().map(|&p| halo_g(p, &uj)).collect::<Vec<_>>(), v);
        let mut q = C::convert(val) * up;
        for (p, s) in aff.iter().zip(&sc) { q = q + C::convert(*s) * p.to_projective(); }
        for j in 0..uj.len() {
            let s2 = uj[j].square();
            q = q + C::convert(s2) * l[j].to_projective() + C::convert(s2.multiplicative_inverse_assuming_nonzero()) * rr[j].to_projective();
        }
        let (z1, z2) = (rf::<C::ScalarField>(r), rf::<C::ScalarField>(r));
        let s = C::convert(cc) * q + rc.to_projective() + C::convert(zero - z2) * c.pedersen_h.to_projective();
        let gg = C::convert(z1.multiplicative_inverse_assuming_nonzero()) * s + C::convert(zero - b) * up;
        return Ok((fin(l, rr, gg.to_affine(), SchnorrProof { r: rc, z1, z2 }), pis.clone()));
    }
    let mut coeffs: Vec<&[C::ScalarField]> = vec![];
    for p in c.constant_polynomials.iter().chain(&c.s_sigma_polynomials).chain(&wires) { coeffs.push(p.coeffs()); }
    coeffs.push(zp.coeffs());
    for p in &ts { coeffs.push(p.coeffs()); }
    for p in &olds { coeffs.push(p); }
    coeffs.push(piq.coeffs());
    if !known {
        crate::ctx::probe("prover_with_its_own_opening_argument");
        let sc = scalars_of::<C>(u, comms.len());
        let mut av = vec![zero; n];
        for (p, s) in coeffs.iter().zip(&sc) { for (k, x) in p.iter().enumerate() { av[k] = av[k] + *s * *x; } }
        let mut rnd = comms.iter().zip(&sc).fold(zero, |t, (p, s)| t + p.randomness * *s);
        let pw: Vec<_> = points.iter().map(|&p| powers(p, n)).collect();
        let mut bv: Vec<C::ScalarField> = (0..n).map(|k| reduce_with_powers(&pw.iter().map(|p| p[k]).collect::<Vec<_>>(), v)).collect();
        let mut gv = AffinePoint::batch_to_projective(&c.pedersen_g);
        let up = halo_n_mul(&us.to_canonical_bool_vec()[..SEC], c.u).to_projective();
        let h = c.pedersen_h.to_projective();
        let (mut l, mut rr) = (vec![], vec![]);
        while av.len() > 1 {
            let m = av.len() / 2;
            let (lb, rb) = (rf::<C::ScalarField>(r), rf::<C::ScalarField>(r));
            let x0 = msm_parallel(&av[..m], &gv[m..], 8) + C::convert(C::ScalarField::inner_product(&av[..m], &bv[m..])) * up;
            let y0 = msm_parallel(&av[m..], &gv[..m], 8) + C::convert(C::ScalarField::inner_product(&av[m..], &bv[..m])) * up;
            let mut k = zero;
            let uj = loop {
                k = k + one;
                let (x, y) = ((x0 + C::convert(lb + k) * h).to_affine(), (y0 + C::convert(rb + k) * h).to_affine());
                if let Some(s) = round(&mut sent, &mut ch, x, y)? { l.push(x); rr.push(y); break s; }
                if k == C::ScalarField::from_canonical_u64(200) { return Err("no challenge has a root".into()); }
            };
            let ui = uj.multiplicative_inverse_assuming_nonzero();
            rnd = rnd + uj.square() * (lb + k) + ui.square() * (rb + k);
            av = (0..m).map(|i| ui * av[m + i] + uj * av[i]).collect();
            bv = (0..m).map(|i| ui * bv[i] + uj * bv[m + i]).collect();
            gv = (0..m).map(|i| C::convert(ui) * gv[i] + C::convert(uj) * gv[m + i]).collect();
        }
        let (d, s) = (rf::<C::ScalarField>(r), rf::<C::ScalarField>(r));
        let gg = gv[0].to_affine();
        sent.halo_g = gg;
        let rc = (C::convert(d) * (gv[0] + C::convert(bv[0]) * up) + C::convert(s) * h).to_affine();
        let cc = last(&mut sent, &mut ch, rc)?;
        return Ok((fin(l, rr, gg, SchnorrProof { r: rc, z1: av[0] * cc + d, z2: rnd * cc + s }), pis.clone()));
    }
    let o = batch_opening_proof(&coeffs, &comms, &points, &c.pedersen_g, c.pedersen_h.to_projective(), c.u, u, v, us, n, c.security_bits, &mut ch).map_err(|e| e.to_string())?;
    Ok((fin(o.halo_l, o.halo_r, o.halo_g, o.schnorr_proof), pis.clone()))
}
