//! C06: stream encoding over simulated streams with short transfers, interruptions, early end and errors.
use crate::ctx::{self, must, viol, Res};
use crate::driver::Scenario;
use crate::plan::Plan;
use crate::refm::{self, R};
use crate::rng::{hash_str, mix, Rng};
use crate::rt::Sched;
use num::bigint::BigUint;
use plonky::*;
use std::io::{Error, ErrorKind, Read, Write};

/// How a simulated stream behaves.
#[derive(Clone, Debug)]
struct Weather { seed: u64, short: u64, eintr: u64, end: Option<(usize, u64)> }
pub struct Stream { r: Rng, w: Weather, pub data: Vec<u8>, pub pos: usize, pub calls: u64, pub shorts: u64, pub eintrs: u64, pub ended: bool, row: u64 }
impl Stream {
    fn new(data: Vec<u8>, w: &Weather) -> Stream { Stream { r: Rng::new(w.seed), w: w.clone(), data, pos: 0, calls: 0, shorts: 0, eintrs: 0, ended: false, row: 0 } }
    /// how much of `want` bytes may move now
    fn step(&mut self, want: usize) -> Result<usize, Error> {
        self.calls += 1;
        if self.calls > 2_000_000 { panic!("stream used without end") }
        if self.row < 50 && self.r.below(100) < self.w.eintr { self.row += 1; self.eintrs += 1; return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR")); }
        self.row = 0;
        let mut n = want;
        if n > 1 && self.r.below(100) < self.w.short { n = if self.r.chance(1, 2) { 1 } else { 1 + self.r.usize(n - 1) }; self.shorts += 1; }
        if let Some((at, kind)) = self.w.end {
            if self.pos >= at {
                self.ended = true;
                return match kind {
                    0 => Ok(0),
                    1 => Err(Error::new(ErrorKind::Other, "simulated EIO")),
                    2 => Err(Error::new(ErrorKind::BrokenPipe, "simulated EPIPE")),
                    3 => Err(Error::new(ErrorKind::ConnectionReset, "simulated reset")),
                    4 => Err(Error::new(ErrorKind::WouldBlock, "simulated EAGAIN")),
                    5 => Err(Error::new(ErrorKind::TimedOut, "simulated timeout")),
                    _ => Err(Error::new(ErrorKind::UnexpectedEof, "simulated end")),
                };
            }
            n = n.min(at - self.pos);
        }
        Ok(n)
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        let left = self.data.len() - self.pos;
        let n = self.step(buf.len().min(left))?;
        if n > 0 { buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); }
        self.pos += n;
        Ok(n)
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        let n = self.step(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}

trait Value {
    fn put(&self, s: &mut Stream) -> Result<(), Error>;
    fn put_vec(&self) -> Result<Vec<u8>, Error>;
    /// reads one value of this type and compares
    fn get_same(&self, s: &mut Stream) -> Result<Result<(), String>, Error>;
    fn get_any(&self, s: &mut Stream) -> Result<String, Error>;
    fn show(&self) -> String;
}
struct Fv<F: Field>(F);
impl<F: Field> Value for Fv<F> {
    fn put(&self, s: &mut Stream) -> Result<(), Error> { self.0.write(s) }
    fn put_vec(&self) -> Result<Vec<u8>, Error> { let mut v = vec![]; self.0.write(&mut v)?; Ok(v) }
    fn get_same(&self, s: &mut Stream) -> Result<Result<(), String>, Error> { let x = F::read(s)?; Ok(if x == self.0 && refm::b(x) == refm::b(self.0) { Ok(()) } else { Err(format!("{:?} instead of {:?}", x, self.0)) }) }
    fn get_any(&self, s: &mut Stream) -> Result<String, Error> { Ok(format!("{:?}", F::read(s)?)) }
    fn show(&self) -> String { format!("{:?}", self.0) }
}
struct Pv<C: Curve>(AffinePoint<C>);
impl<C: Curve> Value for Pv<C> {
    fn put(&self, s: &mut Stream) -> Result<(), Error> { self.0.write(s) }
    fn put_vec(&self) -> Result<Vec<u8>, Error> { let mut v = vec![]; self.0.write(&mut v)?; Ok(v) }
    fn get_same(&self, s: &mut Stream) -> Result<Result<(), String>, Error> {
        let p = AffinePoint::<C>::read(s)?;
        let q = &self.0;
        let same = p.zero == q.zero && (p.zero || (p.x == q.x && p.y == q.y));
        Ok(if same { Ok(()) } else { Err(format!("{:?} instead of {:?}", p, q)) })
    }
    fn get_any(&self, s: &mut Stream) -> Result<String, Error> { Ok(format!("{:?}", AffinePoint::<C>::read(s)?)) }
    fn show(&self) -> String { format!("{:?}", self.0) }
}
fn fv<F: Field>(code: u64) -> Box<dyn Value> { Box::new(Fv(R::of::<F>().val::<F>(code))) }
fn pv<C: Curve>(code: u64) -> Box<dyn Value> {
    let p = match code % 8 {
        0 => AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: true },
        1 => C::GENERATOR_AFFINE,
        2 => AffinePoint { y: -C::GENERATOR_AFFINE.y, ..C::GENERATOR_AFFINE },
        k => {
            let s = C::ScalarField::from_canonical_u64(if k < 5 { code / 8 % 50 + 2 } else { mix(code, 3) });
            (C::convert(s) * C::GENERATOR_PROJECTIVE).to_affine()
        }
    };
    Box::new(Pv(p))
}
fn value(ty: u64, code: u64) -> Box<dyn Value> {
    match ty % 11 {
        0 => fv::<TweedledeeBase>(code), 1 => fv::<TweedledumBase>(code), 2 => fv::<PallasBase>(code), 3 => fv::<VestaBase>(code), 4 => fv::<Bls12377Base>(code), 5 => fv::<Bls12377Scalar>(code),
        6 => pv::<Tweedledee>(code), 7 => pv::<Tweedledum>(code), 8 => pv::<Pallas>(code), 9 => pv::<Vesta>(code), _ => pv::<Bls12377>(code),
    }
}
/// b of y^2 = x^3 + b, from the generator
fn curve_b<C: Curve>() -> Option<BigUint> {
    let p = refm::modulus::<C::BaseField>();
    let (x, y) = (refm::b(C::GENERATOR_AFFINE.x), refm::b(C::GENERATOR_AFFINE.y));
    Some((&y * &y + &p * &p * &p - &x * &x * &x) % &p)
}
/// (order, byte length, curve constant b if a point)
fn shape(ty: u64) -> (BigUint, usize, Option<BigUint>) {
    match ty % 11 {
        0 => (refm::modulus::<TweedledeeBase>(), 32, None), 1 => (refm::modulus::<TweedledumBase>(), 32, None),
        2 => (refm::modulus::<PallasBase>(), 32, None), 3 => (refm::modulus::<VestaBase>(), 32, None),
        4 => (refm::modulus::<Bls12377Base>(), 48, None), 5 => (refm::modulus::<Bls12377Scalar>(), 32, None),
        6 => (refm::modulus::<TweedledeeBase>(), 32, curve_b::<Tweedledee>()), 7 => (refm::modulus::<TweedledumBase>(), 32, curve_b::<Tweedledum>()),
        8 => (refm::modulus::<PallasBase>(), 32, curve_b::<Pallas>()), 9 => (refm::modulus::<VestaBase>(), 32, curve_b::<Vesta>()),
        _ => (refm::modulus::<Bls12377Base>(), 48, curve_b::<Bls12377>()),
    }
}
fn le(x: &BigUint, n: usize) -> Option<Vec<u8>> { let mut v = x.to_bytes_le(); if v.len() > n { return None; } v.resize(n, 0); Some(v) }
/// bytes that encode nothing
fn garbage(ty: u64, seed: u64) -> Option<(String, Vec<u8>)> {
    let mut r = Rng::new(seed);
    let (p, n, curve) = shape(ty);
    let one = BigUint::from(1u32);
    let max = (&one << (8 * n as u32) as usize) - &one;
    let out_of_range = |r: &mut Rng| -> Option<(String, Vec<u8>)> {
        let (h, x) = match r.below(7) {
            0 => ("the order", p.clone()), 1 => ("the order + 1", &p + &one), 2 => ("all ones", max.clone()), 3 => ("the order + something", &p + BigUint::from(r.next())),
            4 => ("twice the order", &p + &p), 5 => ("top bit", &one << (8 * n as u32 - 1) as usize), _ => ("order with a high limb", &p + (&one << r.range(64, 8 * n as u64 - 2) as usize)),
        };
        if x > max { return None; }
        Some((format!("{} as a coordinate", h), le(&x, n)?))
    };
    match curve {
        None => out_of_range(&mut r),
        Some(b) => {
            let mask = r.below(2) as u8 * 2;
            if r.chance(1, 3) { let (h, v) = out_of_range(&mut r)?; let mut w = vec![mask]; w.extend(v); return Some((h, w)); }
            let mut x = BigUint::from(r.next()) << (if r.chance(1, 2) { 0 } else { 128 } as usize);
            if r.chance(1, 4) { return { let mut w = vec![(r.range(1, 64) << 2) as u8 | r.below(4) as u8]; w.extend(le(&x, n)?); Some(("unknown mask bits".into(), w)) }; }
            // the next x without a point
            let e = (&p - &one) / BigUint::from(2u32);
            loop {
                let s = (&x * &x * &x + &b) % &p;
                if s != BigUint::from(0u32) && s.modpow(&e, &p) != one { break; }
                x = x + &one;
            }
            let mut w = vec![mask];
            w.extend(le(&x, n)?);
            Some(("x of no point".into(), w))
        }
    }
}
fn weather(r: &mut Rng) -> Weather { Weather { seed: r.next(), short: *r.pick(&[0, 20, 60, 95, 100]), eintr: *r.pick(&[0, 0, 10, 40, 90]), end: None } }

fn gen(r: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let mut p = Plan { kind: "stream".into(), sched: Sched::plain(r.next()), ..Default::default() };
    for _ in 0..r.range(1, 12) {
        let ty = r.below(11);
        let code = if ty < 6 { if r.chance(1, 2) { r.below(121) } else { r.next() | 999 } } else { r.next() };
        p.step("value", &[ty, code]);
    }
    for _ in 0..if thorough { 60 } else { 30 } {
        let (op, s) = (*r.pick(&["write", "read", "read", "cut-read", "cut-read", "cut-write", "garbage", "resync", "random"]), r.next());
        p.step(op, &[s]);
    }
    p
}
fn exec(plan: &Plan) -> Res {
    let types: Vec<u64> = plan.steps.iter().filter(|s| s.op == "value").map(|s| s.arg(0)).collect();
    let vals: Vec<Box<dyn Value>> = must("values", || plan.steps.iter().filter(|s| s.op == "value").map(|s| value(s.arg(0), s.arg(1))).collect())?;
    let mut enc: Vec<Vec<u8>> = vec![];
    for v in &vals {
        match must("write", || v.put_vec())? { Ok(b) => enc.push(b), Err(e) => return viol("write-failed", format!("writing {} to memory failed: {}", v.show(), e)) }
    }
    for (k, v) in vals.iter().enumerate() {
        // an encoding has one fixed length per type
        let (_, n, c) = shape(types[k]);
        let want = n + c.is_some() as usize;
        if enc[k].len() != want { return viol("length", format!("{} takes {} bytes instead of {}", v.show(), enc[k].len(), want)); }
        for j in 0..k { if types[j] == types[k] && enc[j] == enc[k] && vals[j].show() != v.show() { return viol("not-injective", format!("{} and {} have one encoding", v.show(), vals[j].show())); } }
    }
    let all: Vec<u8> = enc.concat();
    let bounds: Vec<usize> = enc.iter().scan(0, |a, e| { let s = *a; *a += e.len(); Some(s) }).collect();
    let base = hash_str(&format!("{:?}", plan.steps.iter().filter(|s| s.op == "value").collect::<Vec<_>>()));
    ctx::sample(format!("{} values, {} bytes", vals.len(), all.len()));
    let account = |s: &Stream| { for _ in 0..s.shorts.min(1) { ctx::fault("short_transfer") } if s.eintrs > 0 { ctx::fault("eintr") } ctx::log(mix(s.calls, s.pos as u64)); };
    for st in plan.steps.iter().filter(|s| s.op != "value") {
        let mut r = Rng::new(st.arg(0));
        let mut w = weather(&mut r);
        let key = mix(mix(base, hash_str(&st.op)), st.arg(0));
        match st.op.as_str() {
            "write" => {
                let mut s = Stream::new(vec![], &w);
                for (k, v) in vals.iter().enumerate() {
                    match must("write", || v.put(&mut s))? { Ok(()) => {}, Err(e) => return viol("write-failed", format!("value {}: {} although the stream works ({:?})", k, e, w)) }
                }
                account(&s);
                if s.data != all { return viol("written-bytes", format!("a stream with short writes received other bytes ({:?})", w)); }
                ctx::eval(key, true);
            }
            "read" => {
                let tail: Vec<u8> = (0..r.below(9)).map(|_| r.next() as u8).collect();
                let mut s = Stream::new([all.clone(), tail].concat(), &w);
                for (k, v) in vals.iter().enumerate() {
                    match must("read", || v.get_same(&mut s))? {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) => return viol("read-back", format!("value {} of {}: {} ({:?})", k, vals.len(), m, w)),
                        Err(e) => return viol("read-failed", format!("value {} ({}) of {}: {} although the stream works ({:?})", k, v.show(), vals.len(), e, w)),
                    }
                    if s.pos != bounds[k] + enc[k].len() { return viol("desynchronised", format!("after value {} ({}) the reader stands at byte {} instead of {}", k, v.show(), s.pos, bounds[k] + enc[k].len())); }
                }
                account(&s);
                ctx::eval(key, true);
            }
            "cut-read" | "cut-write" => {
                if all.is_empty() { continue; }
                // often exactly on, before or after a boundary
                let at = if r.chance(1, 2) { let b = *r.pick(&bounds); (b + r.usize(3)).saturating_sub(1).min(all.len() - 1) } else { r.usize(all.len()) };
                let kind = r.below(7);
                w.end = Some((at, kind));
                if w.eintr == 90 { w.eintr = 40 }
                let reading = st.op == "cut-read";
                let mut s = Stream::new(if reading { all.clone() } else { vec![] }, &w);
                let mut failed = None;
                for (k, v) in vals.iter().enumerate() {
                    let ok = if reading { match must("read", || v.get_same(&mut s))? { Ok(Ok(())) => true, Ok(Err(m)) => return viol("read-back", format!("value {} from a stream that ends at {}: {}", k, at, m)), Err(_) => false } }
                        else { must("write", || v.put(&mut s))?.is_ok() };
                    if !ok { failed = Some(k); break; }
                }
                account(&s);
                ctx::fault(["early_end", "eio", "epipe", "connection_reset", "eagain", "timeout", "unexpected_eof"][kind as usize]);
                let want = (0..vals.len()).find(|&k| bounds[k] + enc[k].len() > at);
                if failed != want { return viol(if reading { "value-from-broken-stream" } else { "write-to-broken-stream" }, format!("stream fails at byte {} of {} (kind {}): first failure at value {:?}, expected {:?}", at, all.len(), kind, failed, want)); }
                if !reading && s.data != all[..at] { return viol("written-bytes", format!("before failing at {} other bytes were written", at)); }
                ctx::eval(key, true);
            }
            "garbage" => {
                if types.is_empty() { continue; }
                let k = r.usize(types.len());
                if let Some((h, g)) = garbage(types[k], st.arg(0)) {
                    let mut s = Stream::new(g, &w);
                    let res = must("read", || vals[k].get_any(&mut s))?;
                    account(&s);
                    ctx::fault("corrupted_bytes");
                    if let Ok(x) = res { return viol("garbage-accepted", format!("type {}: {} was read as {}", types[k], h, x)); }
                    ctx::eval(mix(key, 1), true);
                    ctx::probe("garbage_refused");
                }
            }
            "random" => {
                // arbitrary bytes are a value with exactly these bytes as its encoding, or refused
                if types.is_empty() { continue; }
                let k = r.usize(types.len());
                let (_, n, c) = shape(types[k]);
                let mut g: Vec<u8> = (0..n + c.is_some() as usize).map(|_| r.next() as u8).collect();
                if c.is_some() && r.chance(7, 8) { g[0] &= 2; }
                let l = g.len();
                if r.chance(7, 8) { g[l - 1] &= 0x3f; if n == 48 { g[l - 1] &= 1; } }
                let mut s = Stream::new(g.clone(), &w);
                if let Ok(x) = must("read", || vals[k].get_any(&mut s))? {
                    if g[0] & 1 == 0 || c.is_none() {
                        // read again and write: the same bytes
                        let again = must("read", || reencode(types[k], &g))?;
                        if again.as_ref() != Some(&g) { return viol("two-encodings", format!("type {}: {:02x?} was read as {} whose encoding is {:02x?}", types[k], g, x, again)); }
                        ctx::probe("random_bytes_are_a_value");
                    }
                    if s.pos != l { return viol("desynchronised", format!("type {}: {} of {} bytes read", types[k], s.pos, l)); }
                } else { ctx::probe("random_bytes_refused") }
                account(&s);
                ctx::eval(key, true);
            }
            _ => {
                // after a transient error the caller starts over at the boundary: nothing is left behind
                if all.is_empty() { continue; }
                let at = r.usize(all.len());
                let k = (0..vals.len()).find(|&k| bounds[k] + enc[k].len() > at).unwrap();
                w.end = Some((at, 4));
                let mut s = Stream::new(all.clone(), &w);
                s.pos = bounds[k];
                if must("read", || vals[k].get_same(&mut s))?.is_ok() { return viol("value-from-broken-stream", format!("value {} read although the stream failed at {}", k, at)); }
                s.w.end = None;
                s.pos = bounds[k];
                for j in k..vals.len() {
                    match must("read", || vals[j].get_same(&mut s))? { Ok(Ok(())) => {}, Ok(Err(m)) => return viol("read-back", format!("value {} after a retry: {}", j, m)), Err(e) => return viol("read-failed", format!("value {} after a retry: {}", j, e)) }
                    if s.pos != bounds[j] + enc[j].len() { return viol("desynchronised", format!("after value {} the reader stands at byte {}", j, s.pos)); }
                }
                ctx::fault("transient_error_then_retry");
                ctx::eval(key, true);
            }
        }
        ctx::probe(&st.op);
    }
    Ok(())
}
fn reenc_f<F: Field>(g: &[u8]) -> Option<Vec<u8>> { let x = F::read(g).ok()?; let mut v = vec![]; x.write(&mut v).ok()?; Some(v) }
fn reenc_p<C: Curve>(g: &[u8]) -> Option<Vec<u8>> { let x = AffinePoint::<C>::read(g).ok()?; let mut v = vec![]; x.write(&mut v).ok()?; Some(v) }
fn reencode(ty: u64, g: &[u8]) -> Option<Vec<u8>> {
    match ty % 11 {
        0 => reenc_f::<TweedledeeBase>(g), 1 => reenc_f::<TweedledumBase>(g), 2 => reenc_f::<PallasBase>(g), 3 => reenc_f::<VestaBase>(g), 4 => reenc_f::<Bls12377Base>(g), 5 => reenc_f::<Bls12377Scalar>(g),
        6 => reenc_p::<Tweedledee>(g), 7 => reenc_p::<Tweedledum>(g), 8 => reenc_p::<Pallas>(g), 9 => reenc_p::<Vesta>(g), _ => reenc_p::<Bls12377>(g),
    }
}

pub fn scenario() -> Scenario {
    Scenario {
        id: "C06", gen, exec, self_managed: false, quick_runs: 12000, thorough_runs: 60000,
        rule: "one evaluation = one pass of a sequence of values through a simulated stream (or one piece of garbage offered to a reader); distinct by values, operation and behaviour of the stream",
        real: "ToBytes and FromBytes of all six fields and five curves",
        stub: "the byte streams (simulated); scheduler, clock and entropy source",
        assumptions: &["the encoding has a fixed length per type; a field element is encoded little-endian and a point by its x coordinate with a leading sign byte when garbage is made up"],
        required_probes: &["write", "read", "cut-read", "cut-write", "garbage_refused", "resync", "random_bytes_are_a_value"],
    }
}
