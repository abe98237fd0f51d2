//! C11: the parallel kernels return what a plain sequential definition gives.
use crate::ctx::{self, viol, Res};
use crate::driver::Scenario;
use crate::plan::{Plan, Step};
use crate::refm::{b, f, R};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::plonk_util::*;
use plonky::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Job = Box<dyn Fn() -> Result<(), String> + Send + Sync>;
type Aff<C> = Option<(<C as Curve>::BaseField, <C as Curve>::BaseField)>;

/// Points with known discrete logarithms to one base.
pub struct Points<C: Curve> { base: (C::BaseField, C::BaseField), small: Vec<Aff<C>>, rs: R, rb: R }
const SMALL: usize = 24;
impl<C: Curve> Points<C> {
    fn new(seed: u64) -> Self {
        let (rs, rb) = (R::of::<C::ScalarField>(), R::of::<C::BaseField>());
        let g = C::GENERATOR_AFFINE;
        let base = rb.ec_mul((g.x, g.y), &BigUint::from(1 + seed % 0xffff_ffff)).unwrap();
        let mut small = vec![None];
        for i in 0..SMALL { let n = match small[i] { None => Some(base), Some(p) => rb.ec_add(p, base) }; small.push(n); }
        Points { base, small, rs, rb }
    }
    /// (point, logarithm)
    fn get(&self, code: u64) -> (Aff<C>, BigUint) {
        let k = (code >> 1) as usize % (SMALL + 1);
        if code & 1 == 0 { (self.small[k], BigUint::from(k)) }
        else { (self.small[k].map(|p| (p.0, self.rb.neg(p.1))), (&self.rs.p - BigUint::from(k)) % &self.rs.p) }
    }
    fn mul(&self, k: &BigUint) -> Aff<C> { let k = k % &self.rs.p; if k.is_zero() { None } else { self.rb.ec_mul(self.base, &k) } }
}
fn aff<C: Curve>(p: Aff<C>) -> AffinePoint<C> { match p { None => AffinePoint::ZERO, Some((x, y)) => AffinePoint { x, y, zero: false } } }
/// a projective representative with a z of its own
fn proj<C: Curve>(p: Aff<C>, z: u64, rb: &R) -> ProjectivePoint<C> {
    match p {
        None => ProjectivePoint::ZERO,
        Some((x, y)) => { let z: C::BaseField = if z % 3 == 0 { C::BaseField::ONE } else { rb.val(1000 * z + 500) }; ProjectivePoint { x: rb.mul(x, z), y: rb.mul(y, z), z, zero: false } }
    }
}
fn norm<C: Curve>(p: ProjectivePoint<C>, rb: &R) -> Aff<C> {
    if p.zero { return None; }
    let i = rb.inv(p.z);
    Some((rb.mul(p.x, i), rb.mul(p.y, i)))
}
fn norm_a<C: Curve>(p: AffinePoint<C>) -> Aff<C> { if p.zero { None } else { Some((p.x, p.y)) } }
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: &T) -> Result<(), String> {
    if &got == want { Ok(()) } else {
        let (mut g, mut w) = (format!("{:?}", got), format!("{:?}", want));
        g.truncate(200); w.truncate(200);
        Err(format!("{}: {} instead of {}", what, g, w))
    }
}
fn same_vec<F: Field>(what: &str, got: &[F], want: &[F]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{}: {} values instead of {}", what, got.len(), want.len())); }
    match (0..got.len()).find(|&i| got[i] != want[i]) { None => Ok(()), Some(i) => Err(format!("{}: entry {} of {} is {:?} instead of {:?}", what, i, got.len(), got[i], want[i])) }
}
/// n field elements; the pattern decides how degenerate
fn vals<F: Field>(n: usize, pat: u64, seed: u64, r: &R) -> Vec<F> {
    let mut g = Rng::new(seed);
    (0..n).map(|i| match pat % 8 {
        0 => F::ZERO,
        1 => if i == n - 1 { r.val(2) } else { F::ZERO },
        2 => if i == 0 { r.val(seed) } else { F::ZERO },
        3 => r.val(seed),
        4 => r.val(g.below(120)),
        5 => if g.chance(1, 3) { F::ZERO } else { r.val(g.next()) },
        _ => r.val(g.next()),
    }).collect()
}
fn horner<F: Field>(c: &[F], x: F, r: &R) -> F { c.iter().rev().fold(F::ZERO, |a, &k| r.add(r.mul(a, x), k)) }
fn root<F: Field>(k: usize, r: &R) -> Result<F, String> {
    let g = F::primitive_root_of_unity(k);
    let n = BigUint::one() << k as u32;
    if r.pow(g, &n) != F::ONE || (k > 0 && r.pow(g, &(n >> 1u32)) == F::ONE) { return Err(format!("primitive_root_of_unity({}) does not have that order", k)); }
    Ok(g)
}
/// Plain definition for small sizes, textbook sequential recursion for large ones (spot-checked against the definition).
fn dft<F: Field>(c: &[F], g: F, r: &R) -> Vec<F> {
    let n = c.len();
    if n <= 64 {
        let mut x = F::ONE;
        return (0..n).map(|_| { let v = horner(c, x, r); x = r.mul(x, g); v }).collect();
    }
    let (e, o): (Vec<F>, Vec<F>) = ((0..n / 2).map(|i| c[2 * i]).collect(), (0..n / 2).map(|i| c[2 * i + 1]).collect());
    let g2 = r.mul(g, g);
    let (e, o) = (dft(&e, g2, r), dft(&o, g2, r));
    let mut out = vec![F::ZERO; n];
    let mut x = F::ONE;
    for i in 0..n / 2 { let t = x * o[i]; out[i] = e[i] + t; out[i + n / 2] = e[i] - t; x = x * g; }
    out
}
fn spot<F: Field>(c: &[F], v: &[F], g: F, seed: u64, r: &R) -> Result<(), String> {
    let mut q = Rng::new(seed);
    for _ in 0..2 { let i = q.usize(v.len()); if horner(c, r.pow(g, &BigUint::from(i)), r) != v[i] { return Err(format!("entry {} of {} differs from the polynomial's value there", i, v.len())); } }
    Ok(())
}
fn naive_mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    let mut o = vec![F::ZERO; (a.len() + b.len()).max(1)];
    for (i, &x) in a.iter().enumerate() { for (j, &y) in b.iter().enumerate() { o[i + j] = o[i + j] + x * y; } }
    o
}
fn naive_div<F: Field>(a: &[F], b: &[F], r: &R) -> (Vec<F>, Vec<F>) {
    let db = b.iter().rposition(|x| x.is_nonzero()).unwrap();
    let li = r.inv(b[db]);
    let (mut rem, mut q) = (a.to_vec(), vec![F::ZERO; a.len().max(1)]);
    for i in (db..a.len()).rev() {
        let k = rem[i] * li;
        if k.is_zero() { continue; }
        q[i - db] = k;
        for j in 0..=db { rem[i - db + j] = rem[i - db + j] - k * b[j]; }
    }
    (q, rem)
}
fn poly_eq<F: Field>(what: &str, got: &Polynomial<F>, want: &[F]) -> Result<(), String> {
    let n = got.len().max(want.len());
    for i in 0..n {
        let (x, y) = (got.coeffs().get(i).cloned().unwrap_or(F::ZERO), want.get(i).cloned().unwrap_or(F::ZERO));
        if x != y { return Err(format!("{}: coefficient {} is {:?} instead of {:?}", what, i, x, y)); }
    }
    Ok(())
}

struct Tables<C: Curve> { fft: BTreeMap<usize, Arc<FftPrecomputation<C::ScalarField>>>, msm: BTreeMap<(usize, u64, usize), Arc<MsmPrecomputation<C>>> }

fn gens_of<C: Curve>(n: usize, pat: u64, seed: u64, pts: &Points<C>) -> Vec<(Aff<C>, BigUint)> {
    let mut g = Rng::new(seed);
    (0..n).map(|i| pts.get(match pat % 6 {
        0 => 2,                                       // all equal
        1 => 2 + (i as u64 & 1),                      // P, -P, P, ...
        2 => 0,                                       // all zero
        3 => if g.chance(1, 2) { 0 } else { g.next() },
        4 => 2 * (i as u64 % SMALL as u64 + 1),       // B, 2B, 3B, ...
        _ => g.next(),
    })).collect()
}
fn lin<F: Field>(s: &[F], g: &[BigUint]) -> BigUint { s.iter().zip(g).fold(BigUint::zero(), |a, (x, k)| a + b(*x) * k) }

fn job<C: Curve + 'static>(s: &Step, pts: &Points<C>, tb: &mut Tables<C>) -> Result<Job, String> where C::ScalarField: 'static {
    let rs = R::of::<C::ScalarField>();
    let rb = R::of::<C::BaseField>();
    let (size, pat, seed, x) = (s.arg(0) as usize, s.arg(1), s.arg(2), s.arg(3));
    Ok(match s.op.as_str() {
        "fft" => {
            let n = size.max(1);
            let c = vals::<C::ScalarField>(n, pat, seed, &rs);
            let k = n.next_power_of_two().trailing_zeros() as usize;
            let g = root(k, &rs)?;
            let mut padded = c.clone();
            padded.resize(1 << k, C::ScalarField::ZERO);
            let want = dft(&padded, g, &rs);
            spot(&c, &want, g, seed, &rs)?;
            let pre = tb.fft.entry(1 << k).or_insert_with(|| Arc::new(fft_precompute(1 << k))).clone();
            Box::new(move || {
                if pre.size() != 1 << k { return Err(format!("fft_precompute({}) has size {}", 1 << k, pre.size())); }
                let got = match x % 4 {
                    0 => fft_with_precomputation(&c, &pre),
                    1 => fft(&c),
                    2 => fft_with_precomputation_power_of_2(&padded, &pre),
                    _ => if c.iter().any(|v| v.is_nonzero()) { Polynomial::from_coeffs(&c).eval_domain(&pre) } else { fft_with_precomputation(&c, &fft_precompute(c.len())) },
                };
                same_vec(&format!("transform {} of {} coefficients", x % 4, c.len()), &got, &want)?;
                let back = if x & 4 == 0 { ifft_with_precomputation_power_of_2(&want, &pre) } else { Polynomial::from_evaluations(&want, &pre).coeffs().to_vec() };
                same_vec(&format!("inverse transform of {} values", want.len()), &back, &padded)
            })
        }
        "pmul" => {
            let (a, c) = (vals::<C::ScalarField>(size, pat, seed, &rs), vals::<C::ScalarField>((x % 4096) as usize, x >> 16, seed ^ 77, &rs));
            let want = naive_mul(&a, &c);
            let (a, c) = (Polynomial::from(a), Polynomial::from(c));
            Box::new(move || poly_eq(&format!("product of {} and {} coefficients", a.len(), c.len()), &a.mul(&c), &want))
        }
        "pdiv" => {
            let mut c = vals::<C::ScalarField>(1 + (x % 4096) as usize, x >> 16, seed ^ 77, &rs);
            if c.iter().all(|v| v.is_zero()) { c[0] = C::ScalarField::TWO; }
            let mut a = vals::<C::ScalarField>(size, pat, seed, &rs);
            if x >> 20 & 3 == 1 { a = naive_mul(&a, &c); }
            if x >> 22 & 3 == 1 { a.insert(0, C::ScalarField::ZERO); let y = a.len(); if y > 1 { let v = naive_mul(&[C::ScalarField::ZERO, C::ScalarField::ONE], &naive_mul(&vals(y / 2, 6, seed, &rs), &c)); a = v; } }
            let (q, rem) = naive_div(&a, &c, &rs);
            let (a, c) = (Polynomial::from(a), Polynomial::from(c));
            Box::new(move || {
                let (gq, gr) = if x >> 24 & 1 == 0 { a.polynomial_division(&c) } else { a.polynomial_long_division(&c) };
                poly_eq("quotient", &gq, &q)?;
                poly_eq("remainder", &gr, &rem)
            })
        }
        "zh" => {
            let n = 1 + (x % 200) as usize;
            let q = vals::<C::ScalarField>(size, pat, seed, &rs);
            let mut z = vec![C::ScalarField::ZERO; n + 1];
            z[0] = rs.val(2);
            z[n] = C::ScalarField::ONE;
            let a = Polynomial::from(naive_mul(&q, &z));
            Box::new(move || poly_eq(&format!("division by X^{} - 1", n), &a.divide_by_z_h(n), &q))
        }
        "msm" => {
            let w = 1 + (x % 13) as usize;
            let key = (size, pat, w);
            let gens = gens_of(size, pat, mix(pat, size as u64), pts);
            let mut zr = Rng::new(seed);
            let proj_gens: Vec<ProjectivePoint<C>> = gens.iter().map(|g| proj(g.0, zr.next(), &rb)).collect();
            let sc = vals::<C::ScalarField>(size, x >> 16, seed, &rs);
            let want = pts.mul(&lin(&sc, &gens.iter().map(|g| g.1.clone()).collect::<Vec<_>>()));
            let pre = tb.msm.entry(key).or_insert_with(|| Arc::new(msm_precompute(&proj_gens, w))).clone();
            Box::new(move || {
                let d = format!("window {}, {} generators", w, sc.len());
                same(&format!("msm_execute_parallel, {}", d), norm(msm_execute_parallel(&pre, &sc), &rb), &want)?;
                match x >> 20 & 3 {
                    0 => same(&format!("msm_execute, {}", d), norm(msm_execute(&pre, &sc), &rb), &want),
                    1 => same(&format!("msm_parallel, {}", d), norm(msm_parallel(&sc, &proj_gens, w), &rb), &want),
                    2 => same(&format!("pedersen_hash, {}", d), norm(pedersen_hash(&sc, &pre), &rb), &want),
                    _ => Ok(()),
                }
            })
        }
        "sum" => {
            let k = 1 + (x % 4) as usize;
            let mut g = Rng::new(seed);
            let lists: Vec<Vec<(Aff<C>, BigUint)>> = (0..k).map(|i| gens_of(if i == 0 { size } else { g.usize(size + 2) }, pat + (i as u64 / 2), g.next(), pts)).collect();
            let want: Vec<Aff<C>> = lists.iter().map(|l| pts.mul(&l.iter().fold(BigUint::zero(), |a, p| a + &p.1))).collect();
            let pl: Vec<Vec<AffinePoint<C>>> = lists.iter().map(|l| l.iter().map(|p| aff(p.0)).collect()).collect();
            Box::new(move || {
                let nm = |v: Vec<ProjectivePoint<C>>| v.into_iter().map(|p| norm(p, &rb)).collect::<Vec<_>>();
                let d = format!("{:?} points", pl.iter().map(|l| l.len()).collect::<Vec<_>>());
                match x >> 16 & 7 {
                    0 => same(&format!("affine_multisummation_best, {}", d), nm(affine_multisummation_best(pl.clone())), &want),
                    1 => same(&format!("affine_multisummation_pairwise, {}", d), nm(affine_multisummation_pairwise(pl.clone())), &want),
                    2 => same(&format!("affine_multisummation_batch_inversion, {}", d), nm(affine_multisummation_batch_inversion(pl.clone())), &want),
                    3 => same(&format!("affine_summation_best, {}", d), norm(affine_summation_best(pl[0].clone()), &rb), &want[0]),
                    4 => same(&format!("affine_summation_batch_inversion, {}", d), norm(affine_summation_batch_inversion(pl[0].clone()), &rb), &want[0]),
                    5 => same(&format!("affine_summation_pairwise, {}", d), norm(affine_summation_pairwise(pl[0].clone()), &rb), &want[0]),
                    6 => same(&format!("sum of affine points, {}", d), norm(pl[0].iter().cloned().sum::<ProjectivePoint<C>>(), &rb), &want[0]),
                    _ => same(&format!("sum of projective points, {}", d), norm(pl[0].iter().map(|p| p.to_projective()).sum::<ProjectivePoint<C>>(), &rb), &want[0]),
                }
            })
        }
        "smul" => {
            let (p, k) = pts.get(seed);
            let sc: Vec<C::ScalarField> = vals(1 + size % 4, x >> 16, seed, &rs);
            let want: Vec<Aff<C>> = sc.iter().map(|v| pts.mul(&(b(*v) * &k))).collect();
            let pp = proj::<C>(p, x, &rb);
            let pre = pp.mul_precompute();
            Box::new(move || {
                for (v, w) in sc.iter().zip(&want) {
                    same("mul_with_precomputation", norm(pp.mul_with_precomputation(*v, pre.clone()), &rb), w)?;
                    if x & 4 == 0 { same("scalar multiplication", norm(C::convert(*v) * pp, &rb), w)?; }
                }
                Ok(())
            })
        }
        "commit" => {
            let w = 1 + (x % 11) as usize;
            let gens = gens_of(size, pat, mix(pat, size as u64), pts);
            let proj_gens: Vec<ProjectivePoint<C>> = gens.iter().map(|g| proj(g.0, 0, &rb)).collect();
            let pre = tb.msm.entry((size, pat, w)).or_insert_with(|| Arc::new(msm_precompute(&proj_gens, w))).clone();
            let logs: Vec<BigUint> = gens.iter().map(|g| g.1.clone()).collect();
            let h = pts.get(if x >> 12 & 15 == 0 { 0 } else { seed | 2 });
            let blind = x >> 20 & 1 == 1;
            let m = (x >> 21 & 3) as usize + 1;
            let mut g = Rng::new(seed);
            let polys: Vec<Vec<C::ScalarField>> = (0..m).map(|_| vals(size, g.next(), g.next(), &rs)).collect();
            let sums: Vec<BigUint> = polys.iter().map(|p| lin(p, &logs)).collect();
            let want0: Vec<Aff<C>> = sums.iter().map(|k| pts.mul(k)).collect();
            let (base, rsp) = (pts.base, rs.p.clone());
            let old = pts.get(seed >> 7).0;
            Box::new(move || {
                let ha = aff::<C>(h.0);
                let sl: Vec<&[C::ScalarField]> = polys.iter().map(|p| &p[..]).collect();
                let mut cs = match x >> 24 & 3 {
                    0 => PolynomialCommitment::coeffs_vec_to_commitments(&sl, &pre, ha, blind),
                    1 => commit_polynomials(&polys.iter().map(|p| Polynomial::from_coeffs(p)).collect::<Vec<_>>(), &pre, ha, blind),
                    2 => sl.iter().map(|p| PolynomialCommitment::coeffs_to_commitment(p, &pre, ha, blind)).collect(),
                    _ => sl.iter().map(|p| Polynomial::from_coeffs(p).commit(&pre, ha, blind)).collect(),
                };
                // some commitments in affine form among projective ones
                if x >> 26 & 1 == 1 { cs.insert(cs.len() / 2, PolynomialCommitment::from(aff::<C>(old))); PolynomialCommitment::batch_to_affine(&mut cs); let c = cs.remove((cs.len() - 1) / 2); same("affine commitment", norm_a(c.to_affine()), &old)?; }
                let affs = PolynomialCommitment::commitments_to_affine_vec(&cs);
                same("number of commitments", affs.len(), &polys.len())?;
                for (i, c) in cs.iter().enumerate() {
                    if !blind && c.randomness.is_nonzero() { return Err("randomness without blinding".into()); }
                    if blind && c.randomness.is_zero() { return Err("no randomness with blinding".into()); }
                    for j in 0..i { if blind && cs[j].randomness == c.randomness { return Err("two commitments share their blinding".into()); } }
                    let want = if blind { let k = (&sums[i] + b(c.randomness) * &h.1) % &rsp; if k.is_zero() { None } else { rb.ec_mul(base, &k) } } else { want0[i] };
                    same(&format!("commitment {} of {} (window {}, {} coefficients, blinding {})", i, cs.len(), w, size, blind), norm_a(affs[i]), &want)?;
                    same("to_affine", norm_a(c.to_affine()), &want)?;
                }
                Ok(())
            })
        }
        "inner" => {
            let (a, c) = (vals::<C::ScalarField>(size, pat, seed, &rs), vals::<C::ScalarField>(size, x >> 16, seed ^ 5, &rs));
            let z: C::ScalarField = rs.val(seed >> 9);
            let dot = a.iter().zip(&c).fold(C::ScalarField::ZERO, |s, (p, q)| rs.add(s, rs.mul(*p, *q)));
            let ev = horner(&a, z, &rs);
            let mut pw = vec![];
            let mut y = C::ScalarField::ONE;
            for _ in 0..size { pw.push(y); y = rs.mul(y, z); }
            Box::new(move || {
                same("inner product", C::ScalarField::inner_product(&a, &c), &dot)?;
                same("eval_poly", eval_poly(&a, z), &ev)?;
                same("reduce_with_powers", reduce_with_powers(&a, z), &ev)?;
                same_vec("powers", &powers(z, size), &pw)?;
                same("eval", Polynomial::from_coeffs(&a).eval(z), &ev)?;
                same("eval_from_power", Polynomial::from_coeffs(&a).eval_from_power(&pw), &ev)
            })
        }
        "binv" => {
            let a: Vec<C::ScalarField> = vals(size, pat, seed, &rs);
            let want: Vec<Option<C::ScalarField>> = a.iter().map(|v| if v.is_zero() { None } else { Some(rs.inv(*v)) }).collect();
            let gens = gens_of(size, x, seed, pts);
            let mut zr = Rng::new(seed);
            let pp: Vec<ProjectivePoint<C>> = gens.iter().map(|g| proj(g.0, zr.next(), &rb)).collect();
            let wp: Vec<Aff<C>> = gens.iter().map(|g| g.0).collect();
            Box::new(move || {
                same("batch_multiplicative_inverse_opt", C::ScalarField::batch_multiplicative_inverse_opt(&a), &want)?;
                let nz: Vec<C::ScalarField> = a.iter().cloned().filter(|v| v.is_nonzero()).collect();
                same_vec("batch_multiplicative_inverse", &C::ScalarField::batch_multiplicative_inverse(&nz), &want.iter().flatten().cloned().collect::<Vec<_>>())?;
                same("batch_to_affine", ProjectivePoint::batch_to_affine(&pp).into_iter().map(norm_a).collect::<Vec<_>>(), &wp)
            })
        }
        "halo" => {
            let us: Vec<C::ScalarField> = vals::<C::ScalarField>(size % 9, if pat % 8 < 3 { 3 } else { pat }, seed, &rs).into_iter().map(|u| if u.is_zero() { C::ScalarField::TWO } else { u }).collect();
            let inv: Vec<C::ScalarField> = us.iter().map(|u| rs.inv(*u)).collect();
            let k = us.len();
            // coefficient i: the product over the rounds, the last one deciding the lowest bit
            let s: Vec<C::ScalarField> = (0..1usize << k).map(|i| (0..k).fold(C::ScalarField::ONE, |a, j| rs.mul(a, if i >> (k - 1 - j) & 1 == 1 { us[j] } else { inv[j] }))).collect();
            let z: C::ScalarField = rs.val(x);
            let g = horner(&s, z, &rs);
            Box::new(move || {
                same_vec("halo_s", &halo_s(&us), &s)?;
                same("halo_g", halo_g(z, &us), &g)
            })
        }
        "sigma" => {
            let k = size % 10;
            let n = 1usize << k;
            let g = root::<C::ScalarField>(k, &rs)?;
            let mut p: Vec<usize> = (0..6 * n).collect();
            let mut q = Rng::new(seed);
            q.shuffle(&mut p);
            // the shifts, from single entries
            let shift: Vec<C::ScalarField> = (0..6).map(|j| sigma_polynomials(vec![j], 1, C::ScalarField::ONE)[0][0]).collect();
            for i in 0..6 { for j in 0..i { let ratio = rs.mul(shift[i], rs.inv(shift[j])); if rs.pow(ratio, &(BigUint::one() << 32u32)) == C::ScalarField::ONE { return Err(format!("columns {} and {} share a coset", i, j)); } } }
            let mut gp = vec![C::ScalarField::ONE];
            for i in 1..n { let v = rs.mul(gp[i - 1], g); gp.push(v); }
            let want: Vec<Vec<C::ScalarField>> = p.chunks(n).map(|c| c.iter().map(|&x| rs.mul(shift[x / n], gp[x % n])).collect()).collect();
            Box::new(move || {
                let got = sigma_polynomials(p.clone(), n, g);
                same("number of sigma polynomials", got.len(), &6)?;
                for j in 0..6 { same_vec(&format!("sigma {}", j), &got[j], &want[j])?; }
                Ok(())
            })
        }
        o => return Err(format!("HARNESS unknown step {}", o)),
    })
}
fn job_halo<C: HaloCurve>(s: &Step, pts: &Points<C>) -> Job {
    let (rs, rb) = (R::of::<C::ScalarField>(), R::of::<C::BaseField>());
    let mut g = Rng::new(s.arg(2));
    let bits: Vec<bool> = (0..2 * (s.arg(0) as usize % 65)).map(|_| g.chance(1 + s.arg(1) % 3, 4)).collect();
    let (p, k) = pts.get(s.arg(3) | 2);
    // sum over the pairs, most significant last: +-1 or +-zeta
    let z = b(C::ZETA_SCALAR);
    let m = &rs.p;
    let mut n = BigUint::zero();
    for c in bits.chunks(2) { let d = if c[1] { z.clone() } else { BigUint::one() }; let d = if c[0] { d } else { m - d }; n = (n * 2u32 + d) % m; }
    let nf: C::ScalarField = f(&n);
    let want = pts.mul(&(n * k));
    let _ = rb;
    Box::new(move || {
        same("halo_n", halo_n::<C>(&bits), &nf)?;
        same("halo_n_mul", norm_a(halo_n_mul::<C>(&bits, aff(p))), &want)
    })
}

fn gen(r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "kernels".into(), curve: r.below(5), sched: Sched::swarm(r), ..Default::default() };
    p.set("callers", *r.pick(&[1, 1, 2, 3, 4, 6]));
    p.set("inside", r.chance(1, 4) as u64);
    p.set("reps", r.range(1, 4));
    p.set("base", r.next() >> 8);
    // a few sizes and patterns per run, so that tables are shared
    let sizes: Vec<u64> = (0..3).map(|_| *r.pick(&[0u64, 1, 2, 3, 5, 8, 13, 16, 17, 31, 33, 48])).collect();
    let pats: Vec<u64> = (0..2).map(|_| r.next() >> 8).collect();
    let w = r.below(13);
    let big_fft = *r.pick(&[4096u64, 8192, 8191, 5000, 8192, 16384, 12289]);
    for _ in 0..r.range(2, if thorough { 16 } else { 10 }) {
        let (pt, sd, x) = (*r.pick(&pats), r.next() >> 1, r.next());
        match r.below(26) {
            0..=4 => { let n = match r.below(12) { 0 | 1 => big_fft, 2..=4 => *r.pick(&[1u64, 2, 3, 4, 5, 7, 8]), _ => r.range(1, 600) }; let pt = r.next(); p.step("fft", &[n, pt, sd, x]) }
            5..=9 => { let x = x / 13 * 13 % (1 << 40) / 13 * 13 + w; let n = if x >> 41 & 1 == 0 { *r.pick(&sizes) } else { r.below(60) }; p.step("msm", &[n, pt, sd, x]) }
            10..=13 => { let n = match r.below(4) { 0 => r.range(130, 150), 1 => r.range(0, 6), 2 => r.below(420), _ => r.below(60) }; let pt = r.next(); p.step("sum", &[n, pt, sd, x]) }
            14 => p.step("smul", &[x >> 3, pt, sd, r.next()]),
            15..=17 => { let n = *r.pick(&sizes); p.step("commit", &[n, pt, sd, x / 11 * 11 + w % 11]) }
            18 => { let n = r.below(200); let pt = r.next(); p.step("inner", &[n, pt, sd, x]) }
            19 => { let n = r.below(120); let pt = r.next(); p.step("binv", &[n, pt, sd, x]) }
            20 => { let pt = r.next(); p.step("halo", &[sd, pt, sd, x]) }
            21 => p.step("sigma", &[sd, 0, sd, x]),
            22 => p.step("endo", &[sd, x, sd, x]),
            23 => { let (n, m) = (r.below(200), r.below(200)); let pt = r.next(); p.step("pmul", &[n, pt, sd, x >> 12 << 12 | m]) }
            24 => { let (n, m) = (r.below(120), r.below(40)); let pt = r.next(); p.step("pdiv", &[n, pt, sd, x >> 12 << 12 | m]) }
            _ => { let n = r.below(300); let pt = r.next(); p.step("zh", &[n, pt, sd, x]) }
        }
    }
    p
}
pub fn run<C: Curve + 'static>(plan: &Plan, extra: fn(&Step, &Points<C>) -> Option<Job>) -> Res {
    let pts = Points::<C>::new(plan.knob("base"));
    let mut tb = Tables { fft: BTreeMap::new(), msm: BTreeMap::new() };
    let mut jobs: Vec<(usize, String, Job)> = vec![];
    for (i, s) in plan.steps.iter().enumerate() {
        let j = if s.op == "endo" { match extra(s, &pts) { Some(j) => Ok(j), None => continue } } else { match ctx::sut(|| job(s, &pts, &mut tb)) { Ok(j) => j, Err(m) => Err(format!("preparing {} panicked: {}", s.op, m)) } };
        match j { Ok(j) => jobs.push((i, s.op.clone(), j)), Err(m) => return viol(&format!("wrong-{}", s.op), m) }
    }
    let callers = plan.knob("callers").max(1) as usize;
    let reps = plan.knob("reps").max(1);
    let jobs = Arc::new(jobs);
    let (inside, n) = (plan.knob("inside") == 1, jobs.len());
    // every caller runs its share, and every table is used by all of them, again and again
    let work = move |t: usize| -> Vec<(usize, String, String)> {
        let mut bad = vec![];
        for rep in 0..reps {
            for (k, (i, op, j)) in jobs.iter().enumerate() {
                if (k + rep as usize) % callers != t { continue; }
                let r = if inside { ctx::sut(|| { let mut o = Ok(()); rayon::scope(|s| s.spawn(|_| o = ctx::sut(|| j()).unwrap_or_else(Err))); o }) } else { ctx::sut(|| j()) };
                match r { Ok(Ok(())) => {} Ok(Err(m)) => bad.push((*i, op.clone(), m)), Err(m) => bad.push((*i, op.clone(), format!("panicked: {}", m))) }
            }
        }
        bad
    };
    let mut bad: Vec<(usize, String, String)> = vec![];
    if callers == 1 { bad = work(0) } else {
        let work = Arc::new(work);
        let hs: Vec<_> = (0..callers).map(|t| { let w = work.clone(); std::thread::Builder::new().stack_size(8 << 20).spawn(move || w(t)).unwrap() }).collect();
        for h in hs { match h.join() { Ok(b) => bad.extend(b), Err(_) => return viol("caller-died", ctx::last_panic()) } }
        ctx::probe("several_callers");
    }
    if let Some((i, op, m)) = bad.into_iter().min() { return viol(&format!("wrong-{}", op), format!("step {} ({:?} on curve {}): {}", i, plan.steps[i].op, plan.curve, m)); }
    for s in &plan.steps { ctx::probe(&format!("kernel_{}", s.op)); ctx::eval(mix(hash_str(&format!("{:?}", s)), plan.curve), true); }
    if inside { ctx::probe("called_from_a_worker"); }
    let st = crate::rt::peek();
    if st.max_runnable > 1 { ctx::probe("workers_overlapped"); }
    ctx::sample(format!("curve {} callers {} {:?}", plan.curve, callers, plan.steps.iter().map(|s| format!("{}({})", s.op, s.arg(0) % 100000)).collect::<Vec<_>>()));
    ctx::log(n as u64);
    Ok(())
}
pub fn endo<C: HaloCurve>(s: &Step, p: &Points<C>) -> Option<Job> { Some(job_halo(s, p)) }
fn exec(plan: &Plan) -> Res {
    if plan.curve % 5 == 4 { return run::<Bls12377>(plan, |_, _| None); }
    let mut p = plan.clone();
    p.curve %= 5;
    crate::leaf("C11", &p, 0).map(|_| ())
}
pub fn scenario() -> Scenario {
    Scenario {
        id: "C11", gen, exec, self_managed: false, quick_runs: 800, thorough_runs: 15000,
        rule: "one evaluation = one kernel call on one input, repeated by several callers that share its precomputed tables, compared with the sequential reference; distinct by kernel, input and curve",
        real: "fft.rs, curve_msm.rs, curve_summations.rs, curve_multiplication.rs, poly_commit.rs, polynomial.rs, plonk_util.rs, rayon's thread pool",
        stub: "scheduler, entropy, clock (simulated)",
        assumptions: &["reference: big-integer field arithmetic, points with known discrete logarithms to one base, textbook transforms; sizes up to 2^14 (transforms) and 60 generators (multi-scalar multiplication)"],
        required_probes: &["kernel_fft", "kernel_msm", "kernel_sum", "kernel_commit", "kernel_smul", "kernel_inner", "kernel_binv", "kernel_halo", "kernel_sigma", "kernel_endo", "kernel_zh", "kernel_pmul", "several_callers", "called_from_a_worker", "workers_overlapped"],
    }
}
