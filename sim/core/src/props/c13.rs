//! C13: lookup arguments accept exactly members of the table.
use crate::byz::{rf, rpoint, scalars_of};
use crate::ctx::{self, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::refm::R;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::halo::{batch_opening_proof, OpeningProof};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::util::log2_strict;
use plonky::*;
use plookup::plookup::prove;
use plookup::table::Table;
use plookup::verifier::verify;

const SEC: usize = 128;

/// Runs the real verifier.
macro_rules! check {
    ($t:expr, $p:expr) => {
        match ctx::sut(|| verify($t, $p)) { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("refused: {}", e)), Err(m) => Err(format!("panic: {}", m)) }
    };
}
/// the table as the argument sees it
fn pad<F: Field>(t: &[F], n: usize) -> Vec<F> { let mut t = t.to_vec(); if let Some(l) = t.last().cloned() { t.resize(n.max(t.len()), l); } t }

/// Values fit both fields of the cycle: the code documents that it assumes this of what it opens.
fn table<F: Field>(n: usize, pat: u64, seed: u64) -> Vec<F> {
    let r = Fit(R::of::<F>());
    let mut g = Rng::new(seed);
    (0..n).map(|i| match pat % 7 {
        0 => r.val(i as u64),                           // 0 1 2 ...
        1 => r.val(11 + i as u64),                      // no zero
        2 => r.val(g.below(4)),                         // many repetitions, in any order
        3 => if i == n - 1 { F::ZERO } else { r.val(g.next()) },
        4 => r.val(g.below(11)),
        5 => r.val(2 * (n - i) as u64 % 100 + 1),       // descending
        _ => r.val(g.next()),
    }).collect()
}
struct Fit(R);
impl Fit {
    fn val<F: Field>(&self, code: u64) -> F { let x: F = self.0.val(code); if crate::refm::b(x).bits() > 254 { F::from_canonical_u64(code % 1000 + 1000) } else { x } }
}
fn members<F: Copy>(n: usize, pat: u64, seed: u64, t: &[F]) -> Vec<F> {
    let mut g = Rng::new(seed);
    (0..n).map(|i| t[match pat % 6 { 0 => 0, 1 => t.len() - 1, 2 => i % t.len(), 3 => (t.len() - 1) - i % t.len(), _ => g.usize(t.len()) }]).collect()
}
fn fresh<F: Field>(t: &[F], g: &mut Rng) -> F {
    let r = R::of::<F>();
    for _ in 0..50 {
        let x = match g.below(6) { 0 => F::ZERO, 1 => F::ONE, 2 => t[g.usize(t.len())] + F::ONE, 3 => -t[g.usize(t.len())], 4 => t[g.usize(t.len())] + t[g.usize(t.len())], _ => r.val(g.next()) };
        if !t.contains(&x) { return x; }
    }
    let mut x = r.val(999_999);
    while t.contains(&x) { x = x + F::ONE; }
    x
}
fn desc<F: Field>(f: &[F], t: &[F]) -> String { format!("{} values looked up in a table of {}", f.len(), t.len()) }

/// Alters the proof in place, asks the verifier, and puts everything back.
macro_rules! alter {
    ($p:expr, $t:expr, $how:expr, $seed:expr, $other:expr) => {{
        let mut g = Rng::new($seed);
        let (how, sel) = ($how, $seed);
        let mut pts: Vec<*mut AffinePoint<C>> = vec![&mut $p.c_f, &mut $p.c_t, &mut $p.c_h1, &mut $p.c_h2, &mut $p.c_z, &mut $p.c_quotient];
        let npc = pts.len();
        for x in $p.halo_proof.halo_l.iter_mut() { pts.push(x); }
        for x in $p.halo_proof.halo_r.iter_mut() { pts.push(x); }
        pts.push(&mut $p.halo_proof.halo_g);
        pts.push(&mut $p.halo_proof.schnorr_proof.r);
        let o = &mut $p.openings;
        let mut sc: Vec<*mut C::ScalarField> = vec![&mut o.f.local, &mut o.f.right, &mut o.t.local, &mut o.t.right, &mut o.h1.local, &mut o.h1.right, &mut o.h2.local, &mut o.h2.right,
            &mut o.z.local, &mut o.z.right, &mut o.quotient.local, &mut o.quotient.right, &mut $p.halo_proof.schnorr_proof.z1, &mut $p.halo_proof.schnorr_proof.z2];
        unsafe {
            match how % 9 {
                0 | 1 => {
                    let i = (sel / 16) as usize % pts.len();
                    let old = *pts[i];
                    *pts[i] = match g.below(7) { 0 => AffinePoint { y: -old.y, ..old }, 1 => AffinePoint::ZERO, 2 => C::GENERATOR_AFFINE, 3 => rpoint(&mut g), 4 => *pts[g.usize(pts.len())],
                        5 => AffinePoint { x: old.x + C::BaseField::ONE, ..old }, _ => (old.to_projective() + C::GENERATOR_PROJECTIVE).to_affine() };
                    let new = *pts[i];
                    let changed = (new.x, new.y, new.zero) != (old.x, old.y, old.zero);
                    let r = check!($t, &$p);
                    *pts[i] = old;
                    (format!("point {}", i), changed, r)
                }
                2 | 3 => {
                    let i = (sel / 16) as usize % sc.len();
                    let old = *sc[i];
                    *sc[i] = match g.below(6) { 0 => old + C::ScalarField::ONE, 1 => -old, 2 => C::ScalarField::ZERO, 3 => *sc[g.usize(sc.len())], 4 => old.double(), _ => rf(&mut g) };
                    let changed = *sc[i] != old;
                    let r = check!($t, &$p);
                    *sc[i] = old;
                    (format!("scalar {}", i), changed, r)
                }
                4 => {
                    let (i, j) = (g.usize(sc.len()), g.usize(sc.len()));
                    let changed = *sc[i] != *sc[j];
                    let (a, b) = (*sc[i], *sc[j]);
                    *sc[i] = b; *sc[j] = a;
                    let r = check!($t, &$p);
                    *sc[i] = a; *sc[j] = b;
                    (format!("scalars {} and {} exchanged", i, j), changed, r)
                }
                5 => {
                    let (i, j) = (g.usize(pts.len()), g.usize(pts.len()));
                    let (a, b) = (*pts[i], *pts[j]);
                    let changed = (a.x, a.y, a.zero) != (b.x, b.y, b.zero);
                    *pts[i] = b; *pts[j] = a;
                    let r = check!($t, &$p);
                    *pts[i] = a; *pts[j] = b;
                    (format!("points {} and {} exchanged", i, j), changed, r)
                }
                6 => {
                    let old = $p.n;
                    $p.n = match g.below(7) { 0 => old + 1, 1 => old - 1, 2 => 0, 3 => 2 * old + 1, 4 => (old - 1) / 2, 5 => usize::max_value(), _ => old + (1 << 32) };
                    let r = check!($t, &$p);
                    let d = format!("n = {} instead of {}", $p.n, old);
                    $p.n = old;
                    (d, true, r)
                }
                7 => {
                    let h = &mut $p.halo_proof;
                    let (l, rr, n) = (h.halo_l.clone(), h.halo_r.clone(), $p.n);
                    match g.below(6) {
                        0 => { h.halo_l.pop(); } 1 => { h.halo_r.pop(); } 2 => { h.halo_l.pop(); h.halo_r.pop(); }
                        3 => { let q = l[0]; h.halo_l.push(q); let q = rr[0]; h.halo_r.push(q); }
                        4 => { h.halo_l.clear(); h.halo_r.clear(); }
                        _ => { h.halo_l.remove(0); h.halo_r.remove(0); if g.chance(1, 2) { $p.n = (n - 1) / 2; } }
                    }
                    let r = check!($t, &$p);
                    $p.halo_proof.halo_l = l; $p.halo_proof.halo_r = rr; $p.n = n;
                    ("number of rounds".to_string(), true, r)
                }
                _ => {
                    // a part taken from another valid proof of the same shape
                    let q = &$other;
                    let mut changed = true;
                    let r = match g.below(4) {
                        0 => { std::mem::swap(&mut $p.halo_proof, &mut $other.halo_proof); let r = check!($t, &$p); std::mem::swap(&mut $p.halo_proof, &mut $other.halo_proof); r }
                        1 => { changed = $p.openings.to_vec() != $other.openings.to_vec(); std::mem::swap(&mut $p.openings, &mut $other.openings); let r = check!($t, &$p); std::mem::swap(&mut $p.openings, &mut $other.openings); r }
                        _ => { let i = g.usize(npc - 1); let i = if i == 0 { 0 } else { i + 1 };
                            let v = [q.c_f, q.c_t, q.c_h1, q.c_h2, q.c_z, q.c_quotient][i]; let old = *pts[i]; *pts[i] = v; let r = check!($t, &$p); *pts[i] = old; r }
                    };
                    ("part of another proof".to_string(), changed, r)
                }
            }
        }
    }};
}

fn honest<C: HaloCurve>(plan: &Plan) -> Res {
    let t: Vec<C::ScalarField> = table(plan.knob("t").max(1) as usize, plan.knob("tpat"), plan.knob("seed"));
    let f = members(plan.knob("f") as usize, plan.knob("fpat"), plan.knob("seed") ^ 3, &t);
    let d = desc(&f, &t);
    let prv = || ctx::sut(|| prove::<C>(&f, &t));
    let mut p = match prv() { Ok(Ok(p)) => p, Ok(Err(e)) => return viol("member-not-proved", format!("{}: {}", d, e)), Err(m) => return viol("member-not-proved", format!("{} (table pattern {}): prover panicked: {}", d, plan.knob("tpat") % 7, m)) };
    if let Err(m) = check!(&t, &p) { return viol("member-refused", format!("{} (table pattern {}): {}", d, plan.knob("tpat") % 7, m)); }
    ctx::eval(mix(hash_str(&format!("{:?}{:?}", f, t)), 1), true);
    ctx::log(p.n as u64);
    // other tables
    let mut g = Rng::new(plan.knob("seed") ^ 9);
    for k in 0..6 {
        let mut t2 = t.clone();
        let i = g.usize(t2.len());
        match k {
            0 => t2[i] = fresh(&t, &mut g),
            1 => t2.push(fresh(&t, &mut g)),
            2 => { t2.remove(i); }
            3 => for x in t2.iter_mut() { *x = -*x },
            4 => { let c = if g.chance(1, 2) { C::ScalarField::ONE } else { rf(&mut g) }; for x in t2.iter_mut() { *x = *x + c } }
            _ => { let j = g.usize(t2.len()); t2.swap(i, j); }
        }
        if t2.is_empty() || pad(&t2, p.n + 1) != pad(&t, p.n + 1) {
            ctx::fault("table_altered");
            ctx::eval(mix(hash_str(&format!("{:?}{:?}", f, t2)), 2 + k), true);
            if check!(&t2, &p).is_ok() { return viol("other-table-accepted", format!("{}: accepted under another table (change {})", d, k)); }
        } else if let Err(m) = check!(&t2, &p) { return viol("member-refused", format!("{}, same padded table: {}", d, m)); }
    }
    let alters: Vec<_> = plan.steps.iter().filter(|s| s.op == "alter").collect();
    if !alters.is_empty() {
        let mut other = match prv() { Ok(Ok(p)) => p, _ => return viol("member-not-proved", format!("{}: the second time", d)) };
        for s in alters {
            let (what, changed, r) = alter!(p, &t, s.arg(0), s.arg(1), other);
            if !changed { continue; }
            ctx::fault("proof_altered");
            ctx::eval(mix(mix(hash_str(&what), s.arg(1)), plan.knob("seed")), true);
            match r { Ok(()) => return viol("altered-proof-accepted", format!("{}: accepted with {} altered", d, what)), Err(m) => if m.starts_with("panic") { ctx::probe("verifier_panicked") } }
        }
        if let Err(m) = check!(&t, &p) { return viol("member-refused", format!("{}, asked again: {}", d, m)); }
    }
    ctx::probe("honest");
    ctx::sample(format!("curve {} {}", plan.curve, d));
    Ok(())
}

fn rows<F: Field, C: HaloCurve<ScalarField = F>, const N: usize>(plan: &Plan) -> Res {
    let h = plan.knob("t").max(1) as usize;
    let mut g = Rng::new(plan.knob("seed"));
    let r = Fit(R::of::<F>());
    let small = g.chance(1, 2);
    let t: Table<F, N> = match plan.knob("tpat") % 3 {
        0 => {
            let mut a = vec![];
            for _ in 0..h { let mut x = [F::ZERO; N]; for y in x.iter_mut() { *y = if small { r.val(g.below(5)) } else { r.val(g.next()) }; } a.push(x); }
            Table(a)
        }
        _ => { let mut a = vec![]; for i in 0..h { let mut x = [F::ZERO; N]; let mut k = i; for y in x.iter_mut() { *y = r.val(k as u64 % 3); k /= 3; } a.push(x); } Table(a) }
    };
    let f: Vec<[F; N]> = members(plan.knob("f").max(1) as usize, plan.knob("fpat"), plan.knob("seed") ^ 3, &t.0);
    let d = format!("{} rows of {} columns looked up in a table of {}", f.len(), N, t.0.len());
    let v = t.to_vec();
    for i in 0..h { for j in 0..i { if (t.0[i] == t.0[j]) != (v[i] == v[j]) { return viol("rows-collide", format!("rows {:?} and {:?} of a table: equal is {}, reductions equal is {}", t.0[i], t.0[j], t.0[i] == t.0[j], v[i] == v[j])); } } }
    let cols = |f: &Vec<[F; N]>| { let mut c: Vec<Vec<F>> = (0..N).map(|j| f.iter().map(|x| x[j]).collect()).collect(); let mut a: Vec<Vec<F>> = vec![]; a.append(&mut c); a };
    let as_cols = |f: &Vec<[F; N]>| -> [Vec<F>; N] { let mut it = cols(f).into_iter(); array(|| it.next().unwrap()) };
    let column = plan.knob("column") == 1;
    let go = |f: &Vec<[F; N]>| ctx::sut(|| if column { t.prove_column::<C>(&as_cols(f)) } else { t.prove_row::<C>(&Table(f.clone())) });
    let p = match go(&f) { Ok(Ok(p)) => p, Ok(Err(e)) => return viol("member-not-proved", format!("{}: {}", d, e)), Err(m) => return viol("member-not-proved", format!("{}: prover panicked: {}", d, m)) };
    match ctx::sut(|| t.verify(&p)) { Ok(Ok(())) => {} Ok(Err(e)) => return viol("member-refused", format!("{}: {}", d, e)), Err(m) => return viol("member-refused", format!("{}: verifier panicked: {}", d, m)) }
    ctx::eval(mix(hash_str(&format!("{:?}{:?}", f, t.0)), 11), true);
    // a row that mixes entries of several rows
    let mut bad = f.clone();
    let i = g.usize(bad.len());
    let (a, b) = (t.0[g.usize(h)], t.0[g.usize(h)]);
    let mut x = a;
    match g.below(4) { 0 => { let k = g.usize(N); for j in 0..k { x[j] = b[j]; } } 1 => x.reverse(), 2 => { let k = g.usize(N); x[k] = rf(&mut g); } _ => { let k = g.usize(N); x[k] = F::ZERO; } }
    bad[i] = x;
    if !t.0.contains(&x) {
        ctx::fault("row_not_in_table");
        ctx::eval(mix(hash_str(&format!("{:?}{:?}", bad, t.0)), 12), true);
        if let Ok(Ok(p)) = go(&bad) {
            ctx::probe("false_row_proof_produced");
            if let Ok(Ok(())) = ctx::sut(|| t.verify(&p)) { return viol("non-member-accepted", format!("{}: a row that is not in the table was accepted", d)); }
        }
    }
    // the proof under a table with one entry changed, or two rows exchanged
    let mut t2 = Table(t.0.clone());
    if g.chance(1, 2) { let (i, k) = (g.usize(h), g.usize(N)); t2.0[i][k] = t2.0[i][k] + F::ONE; } else { let (i, j) = (g.usize(h), g.usize(h)); t2.0.swap(i, j); }
    if t2.0 != t.0 {
        ctx::fault("table_altered");
        if let Ok(Ok(())) = ctx::sut(|| t2.verify(&p)) { return viol("other-table-accepted", format!("{}: accepted under another table", d)); }
    }
    ctx::probe(if column { "columns" } else { "rows" });
    Ok(())
}
fn array<T, const N: usize>(mut f: impl FnMut() -> T) -> [T; N] {
    let mut a: [std::mem::MaybeUninit<T>; N] = unsafe { std::mem::MaybeUninit::uninit().assume_init() };
    for x in a.iter_mut() { *x = std::mem::MaybeUninit::new(f()); }
    unsafe { std::mem::transmute_copy(&a) }
}

#[derive(Clone, Debug, Default)]
struct Cheat { drop: Option<usize>, lies: Vec<(usize, u64)>, fix: bool, forge: bool, other_t: bool }

/// A lookup prover under the adversary's control; the result is patched into a valid proof of the same shape.
macro_rules! cheat {
    ($skel:expr, $n:expr, $f:expr, $t:expr, $t_used:expr, $h1:expr, $h2:expr, $z:expr, $a:expr, $g:expr) => {{
        let (n, f, t, tu, h1, h2, a): (usize, &Vec<C::ScalarField>, &Vec<C::ScalarField>, &Vec<C::ScalarField>, &Vec<C::ScalarField>, &Vec<C::ScalarField>, &Cheat) = ($n, $f, $t, $t_used, $h1, $h2, $a);
        let one = C::ScalarField::ONE;
        let g: &mut Rng = $g;
        let b2s = |x: C::BaseField| C::try_convert_b2s(x).map_err(|_| "does not fit".to_string());
        let mut ch = Challenger::<C::BaseField>::new(SEC);
        let fft = fft_precompute(n + 1);
        let poly = |v: &[C::ScalarField]| Polynomial::from_evaluations(v, &fft);
        let mut fp = f.clone();
        fp.push(C::ScalarField::ZERO);
        let gs: Vec<AffinePoint<C>> = (0..2 * n + 2).map(blake_hash_usize_to_curve::<C>).collect();
        let h = blake_hash_usize_to_curve::<C>(2 * n + 2);
        let uc = blake_hash_usize_to_curve::<C>(2 * n + 3);
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
        let full = |p: &Polynomial<C::ScalarField>| { let mut v = p.coeffs().to_vec(); v.resize(2 * n + 2, C::ScalarField::ZERO); v };
        let commit = |p: &Polynomial<C::ScalarField>, bl: bool| PolynomialCommitment::coeffs_to_commitment(&full(p), &pre, h, bl);
        let ps = [poly(&fp), poly(tu), poly(h1), poly(h2)];
        let mut cs: Vec<PolynomialCommitment<C>> = vec![commit(&ps[0], true), if a.other_t { commit(&poly(t), false) } else { commit(&ps[1], false) }, commit(&ps[2], true), commit(&ps[3], true)];
        ch.observe_affine_points(&cs.iter().map(|c| c.to_affine()).collect::<Vec<_>>());
        let (beta, gamma) = ch.get_2_challenges();
        let (beta, gamma) = (b2s(beta)?, b2s(gamma)?);
        let zv: Vec<C::ScalarField> = ($z)(beta, gamma);
        let zp = poly(&zv);
        cs.push(commit(&zp, true));
        ch.observe_affine_point(cs[4].to_affine());
        let alpha = b2s(ch.get_challenge())?;
        let gen = C::ScalarField::primitive_root_of_unity(log2_strict(n + 1));
        let gl = gen.exp_usize(n);
        let gb = gamma * (beta + one);
        let nf = C::ScalarField::from_canonical_usize(n + 1);
        // the four conditions at a point
        let terms = |x: C::ScalarField, v: &[C::ScalarField; 10]| -> Vec<C::ScalarField> {
            let zh = x.exp_usize(n + 1) - one;
            let l = |w: C::ScalarField| if x == w { one } else { w * zh / (nf * (x - w)) };
            let (l0, ln) = (l(one), l(gl));
            vec![l0 * (v[8] - one),
                (x - gl) * (v[8] * (beta + one) * (gamma + v[0]) * (gb + v[2] + beta * v[3]) - v[9] * (gb + v[4] + beta * v[5]) * (gb + v[6] + beta * v[7])),
                ln * (v[4] - v[7]), ln * (v[8] - one)]
        };
        let order = 4 * (n + 1);
        let fft4 = fft_precompute(order);
        let ev = |p: &Polynomial<C::ScalarField>| { let mut v = p.coeffs().to_vec(); v.resize(order, C::ScalarField::ZERO); fft_with_precomputation_power_of_2(&v, &fft4) };
        let (e, ez) = (ps.iter().map(|p| ev(p)).collect::<Vec<_>>(), ev(&zp));
        let g4 = C::ScalarField::primitive_root_of_unity(log2_strict(order));
        let mut x = one;
        let mut bad = [false; 4];
        let vals: Vec<C::ScalarField> = (0..order).map(|i| {
            let k = (i + 4) % order;
            let t = terms(x, &[e[0][i], e[0][k], e[1][i], e[1][k], e[2][i], e[2][k], e[3][i], e[3][k], ez[i], ez[k]]);
            x = x * g4;
            let mut s = C::ScalarField::ZERO;
            for j in (0..4).rev() { if i % 4 == 0 && t[j].is_nonzero() { bad[j] = true; } s = s * alpha; if a.drop != Some(j) { s = s + t[j]; } }
            s
        }).collect();
        let v = Polynomial::from_evaluations(&vals, &fft4);
        // floor of the division by x^(n+1) - 1
        let mut q = vec![C::ScalarField::ZERO; order - n - 1];
        for i in (n + 1..order).rev() { let hi = if i < q.len() { q[i] } else { C::ScalarField::ZERO }; q[i - n - 1] = v.coeffs()[i] + hi; }
        q.truncate(2 * n + 2);
        let qp = Polynomial::from(q);
        cs.push(commit(&qp, true));
        ch.observe_affine_point(cs[5].to_affine());
        let zeta = b2s(ch.get_challenge())?;
        let all: Vec<&Polynomial<C::ScalarField>> = ps.iter().chain(vec![&zp, &qp]).collect();
        let right = zeta * gen;
        let mut o: Vec<C::ScalarField> = all.iter().flat_map(|p| vec![p.eval(zeta), p.eval(right)]).collect();
        let truth = o.clone();
        for &(i, d) in &a.lies { o[i % 12] = o[i % 12] + rf::<C::ScalarField>(&mut Rng::new(d)); }
        if a.fix {
            let t = terms(zeta, &[o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9]]);
            o[10] = reduce_with_powers(&t, alpha) / (zeta.exp_usize(n + 1) - one);
        }
        if (a.fix || !a.lies.is_empty()) && o == truth { return Err("nothing to lie about".into()); }
        ch.observe_elements(&C::try_convert_s2b_slice(&o).map_err(|_| "does not fit".to_string())?);
        let (vv, u, us) = ch.get_3_challenges();
        let (vv, u, us) = (b2s(vv)?, b2s(u)?, b2s(us)?);
        let hp: OpeningProof<C> = if a.forge {
            let (mut l, mut rr, mut uj) = (vec![], vec![], vec![]);
            for _ in 0..log2_strict(2 * n + 2) {
                loop {
                    let (x, y) = (rpoint::<C>(g), rpoint::<C>(g));
                    let mut f = ch.clone();
                    f.observe_affine_points(&[x, y]);
                    let nr = halo_n::<C>(&b2s(f.get_challenge())?.to_canonical_bool_vec()[..SEC]);
                    if let Some(s) = nr.square_root() { ch = f; l.push(x); rr.push(y); uj.push(s); break; }
                }
            }
            let rc = rpoint::<C>(g);
            ch.observe_affine_point(rc);
            let cc = b2s(ch.get_challenge())?;
            let sc = scalars_of::<C>(u, 6);
            let loc: Vec<_> = (0..6).map(|i| o[2 * i]).collect();
            let rig: Vec<_> = (0..6).map(|i| o[2 * i + 1]).collect();
            let val = C::ScalarField::inner_product(&loc, &sc) + vv * C::ScalarField::inner_product(&rig, &sc);
            let up = halo_n_mul(&us.to_canonical_bool_vec()[..SEC], uc).to_projective();
            let b = halo_g(zeta, &uj) + vv * halo_g(right, &uj);
            let mut q = C::convert(val) * up;
            for (p, s) in cs.iter().zip(&sc) { q = q + C::convert(*s) * p.to_affine().to_projective(); }
            for j in 0..uj.len() { let s2 = uj[j].square(); q = q + C::convert(s2) * l[j].to_projective() + C::convert(s2.multiplicative_inverse_assuming_nonzero()) * rr[j].to_projective(); }
            let (z1, z2) = (rf::<C::ScalarField>(g), rf::<C::ScalarField>(g));
            let s = C::convert(cc) * q + rc.to_projective() + C::convert(-z2) * h.to_projective();
            let gg = C::convert(z1.multiplicative_inverse_assuming_nonzero()) * s + C::convert(-b) * up;
            OpeningProof { halo_l: l, halo_r: rr, halo_g: gg.to_affine(), schnorr_proof: SchnorrProof { r: rc, z1, z2 } }
        } else {
            let co: Vec<Vec<C::ScalarField>> = all.iter().map(|p| full(p)).collect();
            batch_opening_proof(&co.iter().map(|c| c.as_slice()).collect::<Vec<_>>(), &cs, &[zeta, right], &gs, h.to_projective(), uc, u, vv, us, 2 * n + 2, SEC, &mut ch).map_err(|e| e.to_string())?
        };
        let s = &mut $skel;
        let af: Vec<AffinePoint<C>> = cs.iter().map(|c| c.to_affine()).collect();
        s.c_f = af[0]; s.c_t = af[1]; s.c_h1 = af[2]; s.c_h2 = af[3]; s.c_z = af[4]; s.c_quotient = af[5];
        s.openings.f = (o[0], o[1]).into(); s.openings.t = (o[2], o[3]).into(); s.openings.h1 = (o[4], o[5]).into();
        s.openings.h2 = (o[6], o[7]).into(); s.openings.z = (o[8], o[9]).into(); s.openings.quotient = (o[10], o[11]).into();
        s.halo_proof = hp;
        s.n = n;
        Ok(bad)
    }};
}
/// t with every element of f put next to its first occurrence in t (absent ones at a chosen place)
fn merge<F: Field>(f: &[F], t: &[F], place: usize) -> Vec<F> {
    let mut s = vec![];
    for (i, x) in t.iter().enumerate() {
        s.push(*x);
        if t.iter().position(|y| y == x) == Some(i) { s.extend(f.iter().filter(|y| *y == x)); }
        if i == place { s.extend(f.iter().filter(|y| !t.contains(y))); }
    }
    s
}
fn product<F: Field>(f: &[F], t: &[F], h1: &[F], h2: &[F], beta: F, gamma: F) -> Vec<F> {
    let n = f.len();
    let gb = gamma * (beta + F::ONE);
    let mut z = vec![F::ONE];
    for i in 0..n {
        let a = (beta + F::ONE) * (gamma + f[i]) * (gb + t[i] + beta * t[i + 1]);
        let b = (gb + h1[i] + beta * h1[i + 1]) * (gb + h2[i] + beta * h2[i + 1]);
        z.push(z[i] * a / b);
    }
    z
}
fn byz<C: HaloCurve>(plan: &Plan) -> Res {
    type F<C> = <C as Curve>::ScalarField;
    let mut g = Rng::new(plan.knob("seed"));
    let n = (1usize << (2 + plan.knob("size") % 3)) - 1;
    let tl = 1 + (plan.knob("t") as usize) % (n + 1);
    let t0: Vec<F<C>> = table(tl, plan.knob("tpat"), plan.knob("seed"));
    let t = pad(&t0, n + 1);
    let mut f = members(n, plan.knob("fpat"), plan.knob("seed") ^ 3, &t);
    let mut p = match ctx::sut(|| prove::<C>(&f, &t0)) { Ok(Ok(p)) => p, _ => return viol("member-not-proved", desc(&f, &t0)) };
    if p.n != n { return Ok(()); }
    let x = fresh(&t, &mut g);
    let attack = plan.knob("attack") % 12;
    let mut a = Cheat { forge: plan.knob("forge") == 1, ..Default::default() };
    let k = if attack == 3 { n } else { 1 + g.usize(n) };
    if attack != 0 && attack != 6 { let mut ix: Vec<usize> = (0..n).collect(); g.shuffle(&mut ix); for i in &ix[..k] { f[*i] = x; } }
    let s = merge(&f, &t, g.usize(n + 1));
    let (mut h1, mut h2) = (s[..n + 1].to_vec(), s[n..].to_vec());
    let mut tu = t.clone();
    match attack {
        0 => { a.forge = false; }
        1 => a.drop = Some(0), 2 => a.drop = Some(1), 4 => a.drop = Some(3), 5 => a.drop = Some(1),
        3 => { h1 = vec![x; n + 1]; h2 = t.clone(); a.drop = Some(2); }
        6 => { for _ in 0..1 + g.below(2) { a.lies.push((g.usize(12), g.next())); } a.fix = g.chance(3, 4); }
        7 => { a.fix = true; a.drop = [None, Some(1)][g.usize(2)]; }
        8 | 9 => {
            // everything honest, but for a table that has the element
            let mut t1 = t0.clone();
            let i = g.usize(tl);
            if tl < n + 1 && g.chance(1, 2) { t1.push(x) } else { t1[i] = x }
            tu = pad(&t1, n + 1);
            for y in f.iter_mut() { if !tu.contains(y) { *y = x } }
            let s = merge(&f, &tu, 0);
            h1 = s[..n + 1].to_vec(); h2 = s[n..].to_vec();
            a.other_t = attack == 9;
        }
        10 => { a.forge = true; a.fix = true; }
        _ => {}
    }
    if !a.forge && a.fix && a.lies.is_empty() { a.forge = g.chance(1, 2); }
    let (hh1, hh2, ff, tt) = (h1.clone(), h2.clone(), f.clone(), tu.clone());
    let zsel = attack;
    let zf = |beta: F<C>, gamma: F<C>| -> Vec<F<C>> {
        let mut z = product(&ff, &tt, &hh1, &hh2, beta, gamma);
        let l = *z.last().unwrap();
        match zsel {
            1 => { let i = l.multiplicative_inverse().unwrap_or(F::<C>::ONE); z.iter_mut().for_each(|v| *v = *v * i); }
            2 | 11 => z[n] = F::<C>::ONE,
            5 => z = vec![F::<C>::ONE; n + 1],
            _ => {}
        }
        z
    };
    let r: Result<Result<[bool; 4], String>, String> = ctx::sut(|| cheat!(p, n, &f, &t, &tu, &h1, &h2, zf, &a, &mut g));
    let bad = match r { Ok(Ok(b)) => b, Ok(Err(_)) => { ctx::probe("attack_gave_up"); return Ok(()) } Err(m) => { ctx::probe("attack_panicked"); ctx::trace(|| m); return Ok(()) } };
    let v = check!(&t0, &p);
    let name = format!("attack {} forge {} lies {:?} fix {} drop {:?}", attack, a.forge, a.lies.iter().map(|l| l.0 % 12).collect::<Vec<_>>(), a.fix, a.drop);
    ctx::trace(|| format!("{} ({} of {} looked-up values not in the table of {}): conditions violated {:?}; {:?}", name, k, n, tl, bad, v));
    if attack == 0 { ctx::probe(if v.is_ok() { "own_prover_honest_accepted" } else { "own_prover_honest_refused" }); return Ok(()); }
    ctx::fault(&format!("cheating_prover_{}", ["", "z_start", "z_step", "halves_unconnected", "z_end", "z_ones", "false_openings", "false_quotient", "other_table", "swapped_table_commitment", "forged_accumulator", "z_end_forced"][attack as usize]));
    ctx::eval(mix(hash_str(&name), plan.knob("seed")), true);
    if bad.iter().enumerate().filter(|(i, b)| **b && a.drop != Some(*i)).count() == 0 && a.drop.is_some() { ctx::probe("exactly_the_dropped_condition_violated"); }
    match v { Ok(()) => viol("non-member-accepted", format!("table of {} (padded {}), {} looked-up values not in it: accepted ({})", tl, n + 1, k, name)), Err(m) => { ctx::log(hash_str(&m)); Ok(()) } }
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { curve: r.below(4), sched: if r.chance(1, 3) { Sched::swarm(r) } else { Sched::plain(r.next()) }, ..Default::default() };
    p.kind = ["honest", "byz", "rows", "byz", "honest", "byz"][(idx % 6) as usize].into();
    let size = |r: &mut Rng| match r.below(8) { 0 => r.range(1, 4), 1 => *r.pick(&[7u64, 8, 9, 15, 16, 17, 31, 32, 33]), 2 if thorough => r.range(1, 130), _ => r.range(1, 20) };
    let (a, b) = (size(r), size(r));
    p.set("t", a);
    p.set("f", if r.chance(1, 12) { 0 } else { b });
    p.set("tpat", r.below(7)); p.set("fpat", r.below(6)); p.set("seed", r.next() >> 4);
    p.set("column", r.below(2)); p.set("width", r.below(4)); p.set("size", r.below(3)); p.set("attack", r.below(12)); p.set("forge", r.chance(1, 5) as u64);
    if p.kind == "honest" { for _ in 0..r.below(if thorough { 14 } else { 8 }) { let (x, y) = (r.next() >> 8, r.next() >> 8); p.step("alter", &[x, y]); } }
    p
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    let _ = std::marker::PhantomData::<I>;
    match plan.kind.as_str() {
        "honest" => honest::<C>(plan),
        "rows" => match plan.knob("width") % 4 { 0 => rows::<C::ScalarField, C, 1>(plan), 1 => rows::<C::ScalarField, C, 2>(plan), 2 => rows::<C::ScalarField, C, 3>(plan), _ => rows::<C::ScalarField, C, 5>(plan) },
        _ => byz::<C>(plan),
    }
}
fn exec(plan: &Plan) -> Res { crate::leaf("C13", plan, 0).map(|_| ()) }
pub fn scenario() -> Scenario {
    Scenario {
        id: "C13", gen, exec, self_managed: false, quick_runs: 800, thorough_runs: 4000,
        rule: "one evaluation = one exchange of a lookup proof (honest, altered on the way, or from a cheating prover) judged by the real verifier; distinct by table, values and alteration or attack",
        real: "plookup crate (prover, verifier, tables), transcript, commitments, inner-product argument",
        stub: "scheduler, entropy (simulated); the cheating prover is the harness's own, built on the public API",
        assumptions: &["discrete logarithms and the hash are not broken by the adversary", "table and value lists up to 33 entries (130 thorough)"],
        required_probes: &["honest", "rows", "columns", "own_prover_honest_accepted", "exactly_the_dropped_condition_violated"],
    }
}
