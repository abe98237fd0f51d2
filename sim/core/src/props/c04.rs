//! C04: every message is bound into every later challenge.
use super::c01::{prove, verify};
use super::c02::{points_mut, scalars};
use crate::byz::rf;
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::prog;
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use plonky::plonk_challenger::Challenger;
use plonky::*;
use std::collections::BTreeMap;

/// (name, stage, value): a challenge of stage s depends on every message of stage <= s
fn challenges<C: HaloCurve>(p: &Proof<C>, pis: &[C::ScalarField], old: &[OldProof<C>]) -> Result<Vec<(String, usize, String)>, String> {
    let c = match ctx::sut(|| p.get_challenges(pis, old)) { Ok(Ok(c)) => c, Ok(Err(e)) => return Err(e.to_string()), Err(m) => return Err(m) };
    let mut v = vec![];
    let mut put = |n: &str, s: usize, x: C::ScalarField| v.push((n.to_string(), s, format!("{:?}", x)));
    put("beta", 0, c.beta); put("gamma", 0, c.gamma); put("alpha", 1, c.alpha); put("zeta", 2, c.zeta);
    put("v", 3, c.v); put("u", 3, c.u); put("u_scaling", 3, c.u_scaling);
    let rounds = c.halo_us.len();
    for (j, x) in c.halo_us.iter().enumerate() { put(&format!("round {}", j), 4 + j, x.square()); }
    put("schnorr", 4 + rounds, c.schnorr_challenge);
    Ok(v)
}
struct Hist<C: HaloCurve> { p: Proof<C>, pis: Vec<C::ScalarField>, old: Vec<OldProof<C>> }
impl<C: HaloCurve> Clone for Hist<C> { fn clone(&self) -> Self { Hist { p: self.p.clone(), pis: self.pis.clone(), old: self.old.clone() } } }

fn tweak<F: Field>(x: F, how: u64) -> F {
    let mut r = Rng::new(how);
    let y = match how % 7 {
        0 => x + F::ONE,
        1 => x - F::ONE,
        2 => -x,
        3 => F::ZERO,
        4 => { let mut p = F::ONE; for _ in 0..r.below(250) { p = p + p; } x + p }
        5 => x + x,
        _ => rf(&mut r),
    };
    if y == x { x + F::ONE } else { y }
}
/// Changes one message; returns (description, stage).
fn change<C: HaloCurve>(h: &mut Hist<C>, sel: u64, how: u64) -> Option<(String, usize)> {
    let rounds = h.p.halo_l.len();
    match sel % 8 {
        0 | 1 => {
            let mut pts = points_mut(&mut h.p);
            let i = (sel / 8 % pts.len() as u64) as usize;
            let (name, p) = (&pts[i].0.clone(), &mut *pts[i].1);
            let stage = if name.starts_with("c_wires") { 0 } else if name == "c_plonk_z" { 1 } else if name.starts_with("c_") { 2 }
                else if name.starts_with("halo_l") || name.starts_with("halo_r") { 4 + name[7..name.len() - 1].parse::<usize>().unwrap() }
                else if name == "schnorr.r" { 4 + rounds } else { return None };
            let c = if sel & 1 == 0 { p.x = tweak(p.x, how); "x" } else { p.y = tweak(p.y, how); "y" };
            Some((format!("{}.{}", name, c), stage))
        }
        2 | 3 | 4 => {
            let mut s = scalars(&mut h.p);
            let i = (sel / 8 % s.len() as u64) as usize;
            if s[i].0.starts_with("schnorr") { return None; }
            unsafe { *s[i].1 = tweak(*s[i].1, how) };
            Some((s[i].0.clone(), 3))
        }
        5 => {
            if h.pis.is_empty() { return None; }
            let i = (sel / 8 % h.pis.len() as u64) as usize;
            h.pis[i] = tweak(h.pis[i], how % 7 / 2 * 3);
            Some((format!("public input {}", i), 0))
        }
        6 => {
            if h.old.is_empty() { return None; }
            let i = (sel / 8 % h.old.len() as u64) as usize;
            if sel / 4096 % 3 == 0 && !h.old[i].halo_us.is_empty() {
                let k = (sel / 65536) as usize % h.old[i].halo_us.len();
                h.old[i].halo_us[k] = tweak(h.old[i].halo_us[k], how);
                return Some((format!("previous G {} challenge {}", i, k), 2));
            }
            let g = &mut h.old[i].halo_g;
            if how & 1 == 0 { g.x = tweak(g.x, how / 2) } else { g.y = tweak(g.y, how / 2) }
            Some((format!("previous G {}.{}", i, if how & 1 == 0 { "x" } else { "y" }), 2))
        }
        _ => {
            // two messages of one stage exchanged
            match sel / 8 % 6 {
                0 => { let (i, j) = two(h.p.c_wires.len(), sel)?; h.p.c_wires.swap(i, j); Some(("c_wires exchanged".into(), 0)) }
                1 => { let (i, j) = two(h.p.c_plonk_t.len(), sel)?; h.p.c_plonk_t.swap(i, j); Some(("c_plonk_t exchanged".into(), 2)) }
                2 => { let (i, j) = two(h.pis.len(), sel)?; h.pis.swap(i, j); Some(("public inputs exchanged".into(), 0)) }
                3 => { let (i, j) = two(h.old.len(), sel)?; h.old.swap(i, j); Some(("previous proofs exchanged".into(), 2)) }
                4 => { std::mem::swap(&mut h.p.o_local, &mut h.p.o_right); Some(("opening sets exchanged".into(), 3)) }
                _ => { if rounds == 0 { return None; } let i = (sel / 64) as usize % rounds; let (a, b) = (h.p.halo_l[i], h.p.halo_r[i]); h.p.halo_l[i] = b; h.p.halo_r[i] = a; Some((format!("L and R of round {} exchanged", i), 4 + i)) }
            }
        }
    }
}
fn two(n: usize, sel: u64) -> Option<(usize, usize)> {
    if n < 2 { return None; }
    let i = (sel / 64) as usize % n;
    Some((i, (i + 1 + (sel / 4096) as usize % (n - 1)) % n))
}
fn flat<C: HaloCurve>(h: &Hist<C>) -> String { format!("{:?} {:?} {:?}", h.p, h.pis, h.old.iter().map(|o| (o.halo_g.x, o.halo_g.y, o.halo_us.clone())).collect::<Vec<_>>()) }

fn sponge<F: Field>(plan: &Plan) -> Res {
    // a random history; every observed element in turn is changed
    type Op = (u64, u64);
    let ops: Vec<Op> = plan.steps.iter().filter(|s| s.op == "obs" || s.op == "get").map(|s| (if s.op == "obs" { 1 + s.arg(0) } else { 0 }, s.arg(if s.op == "obs" { 1 } else { 0 }))).collect();
    let run = |ops: &[Op], bump: Option<(usize, usize, u64)>, split: bool| -> Vec<(usize, F)> {
        let mut c = Challenger::<F>::new(128);
        let mut out = vec![];
        for (i, o) in ops.iter().enumerate() {
            if o.0 > 0 {
                let mut r = Rng::new(o.1);
                let mut v: Vec<F> = (0..o.0 - 1).map(|_| if r.chance(1, 4) { F::from_canonical_u64(r.below(3)) } else { rf(&mut r) }).collect();
                if let Some((bi, bj, how)) = bump { if bi == i { v[bj] = tweak(v[bj], how); } }
                if split { for x in v { c.observe_element(x) } } else { c.observe_elements(&v) }
            } else {
                let k = (o.1 % 5 + 1) as usize;
                match k { 2 => { let (a, b) = c.get_2_challenges(); out.push((i, a)); out.push((i, b)); } 3 => { let (a, b, d) = c.get_3_challenges(); out.push((i, a)); out.push((i, b)); out.push((i, d)); }
                    1 => out.push((i, c.get_challenge())), _ => for x in c.get_n_challenges(k) { out.push((i, x)) } }
            }
        }
        out
    };
    let base = must("challenger", || run(&ops, None, false))?;
    if base != run(&ops, None, false) { return viol("challenger-not-deterministic", "the same history gave other challenges".into()); }
    if base != run(&ops, None, true) { return viol("challenger-chunking", "observing one by one gave other challenges".into()); }
    // challenges drawn later never repeat an earlier one
    for i in 0..base.len() { for j in 0..i { if base[i].1 == base[j].1 { return viol("challenge-repeated", format!("challenge {} equals challenge {} of the history {:?}", i, j, ops)); } } }
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (_, x) in &base { seen.insert(format!("{:?}", x), "base".into()); }
    for (i, o) in ops.iter().enumerate() {
        if o.0 < 2 { continue; }
        for j in 0..(o.0 - 1) as usize {
            if mix(plan.knob("pick"), (i * 1000 + j) as u64) % 4 != 0 { continue; }
            let b = run(&ops, Some((i, j, mix(plan.knob("pick"), j as u64))), false);
            ctx::eval(mix(hash_str(&format!("{:?}", ops)), (i * 1000 + j) as u64), true);
            ctx::fault("message_changed");
            for (k, ((at, x), (_, y))) in base.iter().zip(&b).enumerate() {
                if *at < i && x != y { return viol("challenge-depends-on-the-future", format!("challenge {} changed with a later message", k)); }
                if *at > i && x == y { return viol("message-not-bound", format!("challenger: element {} of observation {} does not influence challenge {} (history {:?})", j, i, k, ops)); }
                if *at > i { if let Some(o) = seen.insert(format!("{:?}", y), format!("{} {}", i, j)) { return viol("challenge-collision", format!("two histories, one challenge ({} and {} {})", o, i, j)); } }
            }
        }
    }
    ctx::probe("sponge");
    Ok(())
}

/// The transcript of a lookup proof.
fn lookup<C: HaloCurve>(plan: &Plan) -> Res {
    let mut g = Rng::new(plan.knob("pick"));
    let t: Vec<C::ScalarField> = (0..g.range(1, 12)).map(|_| C::ScalarField::from_canonical_u64(g.next() >> 40)).collect();
    let f: Vec<C::ScalarField> = (0..g.range(1, 12)).map(|_| t[g.usize(t.len())]).collect();
    let mut p = match ctx::sut(|| plookup::plookup::prove::<C>(&f, &t)) { Ok(Ok(p)) => p, _ => { ctx::probe("exchange_impossible"); return Ok(()) } };
    let (l, r) = (p.halo_proof.halo_l.clone(), p.halo_proof.halo_r.clone());
    let rounds = l.len();
    macro_rules! ask { ($k:expr) => {{
        p.halo_proof.halo_l.truncate($k); p.halo_proof.halo_r.truncate($k);
        let c = match ctx::sut(|| p.get_challenges()) { Ok(Ok(c)) => Some(c), _ => None };
        c.map(|c| {
            let mut v: Vec<(String, usize, String)> = vec![("beta", 0, c.beta), ("gamma", 0, c.gamma), ("alpha", 1, c.alpha), ("zeta", 2, c.zeta), ("v", 3, c.v), ("u", 3, c.u), ("u_scaling", 3, c.u_scaling)].into_iter().map(|(n, s, x)| (format!("lookup {}", n), s, format!("{:?}", x))).collect();
            for (j, x) in c.halo_us.iter().enumerate() { v.push((format!("lookup round {}", j), 4 + j, format!("{:?}", x.square()))); }
            v.push(("lookup schnorr".into(), 4 + rounds, format!("{:?}", c.schnorr_challenge)));
            v
        })
    }} }
    let mut bases = vec![];
    for k in 0..rounds + 1 {
        p.halo_proof.halo_l = l.clone(); p.halo_proof.halo_r = r.clone();
        match ask!(k) { Some(c) => { for i in 0..c.len() { for j in 0..i { if c[i].2 == c[j].2 { return viol("challenge-repeated", format!("{} equals {}", c[i].0, c[j].0)); } } } bases.push(c) }, None => return viol("no-challenges", "of a lookup proof".into()) }
    }
    for s in plan.steps.iter().filter(|s| s.op == "change") {
        p.halo_proof.halo_l = l.clone(); p.halo_proof.halo_r = r.clone();
        let (sel, how) = (s.arg(0), s.arg(1));
        let mut pts: Vec<(usize, *mut AffinePoint<C>)> = vec![(0, &mut p.c_f as *mut _), (0, &mut p.c_t), (0, &mut p.c_h1), (0, &mut p.c_h2), (1, &mut p.c_z), (2, &mut p.c_quotient)];
        for (j, x) in p.halo_proof.halo_l.iter_mut().enumerate() { pts.push((4 + j, x)); }
        for (j, x) in p.halo_proof.halo_r.iter_mut().enumerate() { pts.push((4 + j, x)); }
        pts.push((4 + rounds, &mut p.halo_proof.schnorr_proof.r));
        let o = &mut p.openings;
        let sc: Vec<*mut C::ScalarField> = vec![&mut o.f.local, &mut o.f.right, &mut o.t.local, &mut o.t.right, &mut o.h1.local, &mut o.h1.right, &mut o.h2.local, &mut o.h2.right, &mut o.z.local, &mut o.z.right, &mut o.quotient.local, &mut o.quotient.right];
        let i = (sel / 4) as usize;
        let (name, stage, undo): (String, usize, Box<dyn Fn()>) = unsafe {
            if sel % 4 < 2 {
                let (st, q) = pts[i % pts.len()];
                let old = *q;
                if sel % 2 == 0 { (*q).x = tweak(old.x, how) } else { (*q).y = tweak(old.y, how) }
                (format!("lookup commitment {} {}", i % pts.len(), sel % 2), st, Box::new(move || *q = old))
            } else {
                let q = sc[i % 12];
                let old = *q;
                *q = tweak(old, how % 7 / 2 * 3);
                (format!("lookup opening {}", i % 12), 3, Box::new(move || *q = old))
            }
        };
        let k = if stage <= 3 { 0 } else { (stage - 3).min(rounds) };
        let now = ask!(k);
        if stage < 4 || stage == 4 + rounds { undo(); }
        let now = match now { Some(c) => c, None => { ctx::probe("transcript_without_square"); continue } };
        ctx::eval(mix(hash_str(&name), mix(plan.curve, rounds as u64)), true);
        ctx::fault("message_changed");
        for (x, y) in bases[k].iter().zip(&now) {
            if x.1 < stage && x.2 != y.2 { return viol("challenge-depends-on-the-future", format!("{} changed although {} is sent later", x.0, name)); }
            if x.1 >= stage && x.2 == y.2 { return viol("message-not-bound", format!("changing {} leaves {} as it was", name, x.0)); }
        }
    }
    ctx::probe("lookup");
    Ok(())
}

fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: if idx % 8 == 5 { "lookup" } else if idx % 4 == 3 { "sponge" } else { "protocol" }.into(), curve: r.below(4), sched: if r.chance(1, 6) { Sched::swarm(r) } else { Sched::plain(r.next()) }, ..Default::default() };
    if p.kind == "sponge" {
        for _ in 0..r.range(2, 9) {
            let (k, s) = (*r.pick(&[0u64, 1, 1, 2, 3, 3, 4, 5, 6, 7, 9, 12]), r.next());
            p.step("obs", &[k, s]);
            for _ in 0..r.below(3) { let s = r.next(); p.step("get", &[s]); }
        }
        p.step("get", &[4]);
        p.set("pick", r.next());
        return p;
    }
    if p.kind == "lookup" {
        for _ in 0..if thorough { 120 } else { 60 } { let (k, s) = (r.next(), r.next()); p.step("change", &[k, s]); }
        p.set("pick", r.next());
        return p;
    }
    let n = r.range(0, 6) as usize;
    let npis = *r.pick(&[0usize, 1, 1, 2, 3, 6, 8, 9, 10, 18]);
    prog::gen_steps(r, &mut p, n, npis, false, 0);
    p.set("old", *r.pick(&[0, 1, 1, 2]));
    p.set("blind", r.below(2));
    for _ in 0..if thorough { 160 } else { 80 } { let (k, s) = (r.next(), r.next()); p.step("change", &[k, s]); }
    p
}
pub fn run<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(plan: &Plan) -> Res {
    if plan.kind == "sponge" { return sponge::<C::BaseField>(plan); }
    if plan.kind == "lookup" { return lookup::<C>(plan); }
    let b = must("build", || prog::build::<C, I>(&plan.steps))?;
    let vk = b.circuit.to_vk();
    let blind = plan.knob("blind") == 1;
    let setup = |m: String| -> Res { ctx::probe("exchange_impossible"); ctx::trace(|| m); Ok(()) };
    let w = match ctx::sut(|| b.circuit.generate_witness(b.partial())) { Ok(w) => w, Err(m) => return setup(m) };
    let mut old: Vec<OldProof<C>> = vec![];
    for _ in 0..plan.knob("old") {
        let p = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
        match verify::<C, I>(&b.pis, &p, &old, &vk, false) { Ok(Some(o)) => old.push(o), Ok(None) => {}, Err(m) => return setup(m) }
    }
    let p = match prove::<C, I>(&b.circuit, &w, &old, blind) { Ok(p) => p, Err(m) => return setup(m) };
    // the verifier draws the prover's challenges: otherwise its equations would not hold
    match verify::<C, I>(&b.pis, &p, &old, &vk, false) {
        Ok(Some(o)) => if let Ok(c) = p.get_challenges(&b.pis, &old) { if c.halo_us != o.halo_us { return viol("other-challenges", "the verifier reports other round challenges than the transcript gives".into()); } },
        Ok(None) => {}
        Err(m) => return setup(m),
    }
    ctx::probe("honest_exchange");
    ctx::sample(format!("curve {} {} old {} changes {}", plan.curve, prog::describe(&b), old.len(), plan.steps.iter().filter(|s| s.op == "change").count()));
    let full = Hist { p, pis: b.pis.clone(), old };
    let cut = |h: &Hist<C>, k: usize| { let mut h = h.clone(); h.p.halo_l.truncate(k); h.p.halo_r.truncate(k); h };
    let rounds = full.p.halo_l.len();
    let mut bases: BTreeMap<usize, Vec<(String, usize, String)>> = BTreeMap::new();
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for k in 0..rounds + 1 {
        let c = match challenges(&cut(&full, k).p, &full.pis, &full.old) { Ok(c) => c, Err(m) => return viol("no-challenges", m) };
        for i in 0..c.len() { for j in 0..i { if c[i].2 == c[j].2 { return viol("challenge-repeated", format!("{} equals {}", c[i].0, c[j].0)); } } }
        bases.insert(k, c);
    }
    for s in plan.steps.iter().filter(|s| s.op == "change") {
        let mut h = full.clone();
        let (what, stage) = match change(&mut h, s.arg(0), s.arg(1)) { Some(x) => x, None => continue };
        if flat(&h) == flat(&full) { continue; }
        let k = if stage <= 3 { 0 } else { (stage - 3).min(rounds) };
        let h = cut(&h, k);
        let base = &bases[&k];
        let now = match challenges(&h.p, &h.pis, &h.old) { Ok(c) => c, Err(_) => { ctx::probe("transcript_without_square"); continue } };
        ctx::eval(mix(hash_str(&what), mix(plan.curve, mix(full.old.len() as u64, full.pis.len() as u64))), true);
        ctx::fault("message_changed");
        for (x, y) in base.iter().zip(&now) {
            if x.1 < stage && x.2 != y.2 { return viol("challenge-depends-on-the-future", format!("{} changed although {} is sent later", x.0, what)); }
            if x.1 >= stage && x.2 == y.2 { return viol("message-not-bound", format!("changing {} leaves {} as it was", what, x.0)); }
            if x.1 >= stage {
                let id = format!("{:x}", hash_str(&flat(&h)));
                if let Some(o) = seen.insert(format!("{} {}", y.0, y.2), id.clone()) { if o != id { return viol("challenge-collision", format!("two different histories, one {}", y.0)); } }
            }
        }
        for i in 0..now.len() { for j in 0..i { if now[i].2 == now[j].2 { return viol("challenge-repeated", format!("{} equals {} after changing {}", now[i].0, now[j].0, what)); } } }
        ctx::probe(&format!("stage_{}", stage.min(4)));
    }
    Ok(())
}
fn exec(plan: &Plan) -> Res { crate::leaf("C04", plan, 0).map(|_| ()) }

pub fn scenario() -> Scenario {
    Scenario {
        id: "C04", gen, exec, self_managed: false, quick_runs: 90, thorough_runs: 8000,
        rule: "one evaluation = one message of a recorded exchange (or one element of a random sponge history) changed and every challenge drawn again; distinct by message, curve and shape of the exchange",
        real: "prover, verifier, lookup prover, transcript (Challenger, Rescue permutation, Proof::get_challenges, PlookupProof::get_challenges)",
        stub: "the network (changes messages); scheduler, clock and entropy source",
        assumptions: &["histories of the shape the verifier accepts (vector lengths are checked before the transcript is computed)"],
        required_probes: &["honest_exchange", "sponge", "lookup", "stage_0", "stage_1", "stage_2", "stage_3", "stage_4"],
    }
}
