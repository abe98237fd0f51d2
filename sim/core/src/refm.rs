//! Reference arithmetic, written with big integers and independent of the code under test.
use num::bigint::BigUint;
use num::{One, Zero};
use plonky::*;

pub fn b<F: Field>(x: F) -> BigUint {
    let v = x.to_canonical_u64_vec();
    let mut r = BigUint::zero();
    for l in v.iter().rev() { r = (r << 64u32) + BigUint::from(*l); }
    r
}
pub fn f<F: Field>(x: &BigUint) -> F {
    let mut v = vec![];
    let mut y = x.clone();
    let m = BigUint::from(u64::max_value());
    for _ in 0..(F::BITS + 63) / 64 {
        let d = (&y & &m).to_u64_digits();
        v.push(d.get(0).cloned().unwrap_or(0));
        y = y >> 64u32;
    }
    F::from_canonical_u64_vec(v)
}
/// The order of a field (fixed numbers, chosen by type).
pub fn modulus<F: Field>() -> BigUint {
    use std::any::TypeId;
    let t = TypeId::of::<F>();
    let h = if t == TypeId::of::<TweedledeeBase>() { "40000000000000000000000000000000038aa127696286c9842cafd400000001" }
        else if t == TypeId::of::<TweedledumBase>() { "40000000000000000000000000000000038aa1276c3f59b9a14064e200000001" }
        else if t == TypeId::of::<PallasBase>() { "40000000000000000000000000000000224698fc094cf91b992d30ed00000001" }
        else if t == TypeId::of::<VestaBase>() { "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001" }
        else if t == TypeId::of::<Bls12377Base>() { "1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001" }
        else if t == TypeId::of::<Bls12377Scalar>() { "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001" }
        else { unreachable!() };
    BigUint::parse_bytes(h.as_bytes(), 16).unwrap()
}
#[derive(Clone)]
pub struct R { pub p: BigUint }
impl R {
    pub fn of<F: Field>() -> R { R { p: modulus::<F>() } }
    pub fn add<F: Field>(&self, x: F, y: F) -> F { f(&((b(x) + b(y)) % &self.p)) }
    pub fn sub<F: Field>(&self, x: F, y: F) -> F { f(&((b(x) + &self.p - b(y)) % &self.p)) }
    pub fn mul<F: Field>(&self, x: F, y: F) -> F { f(&((b(x) * b(y)) % &self.p)) }
    pub fn neg<F: Field>(&self, x: F) -> F { f(&((&self.p - b(x)) % &self.p)) }
    pub fn pow<F: Field>(&self, x: F, e: &BigUint) -> F { f(&b(x).modpow(e, &self.p)) }
    pub fn inv<F: Field>(&self, x: F) -> F { self.pow(x, &(&self.p - BigUint::from(2u32))) }
    /// short Weierstrass with a = 0 (all four curves)
    pub fn ec_add<F: Field>(&self, p: (F, F), q: (F, F)) -> Option<(F, F)> {
        if p.0 == q.0 {
            if p.1 != q.1 || p.1 == F::ZERO { return None; }
            let three = f::<F>(&BigUint::from(3u32));
            let l = self.mul(self.mul(three, self.mul(p.0, p.0)), self.inv(self.add(p.1, p.1)));
            return Some(self.line(p, q, l));
        }
        let l = self.mul(self.sub(q.1, p.1), self.inv(self.sub(q.0, p.0)));
        Some(self.line(p, q, l))
    }
    fn line<F: Field>(&self, p: (F, F), q: (F, F), l: F) -> (F, F) {
        let x = self.sub(self.sub(self.mul(l, l), p.0), q.0);
        let y = self.sub(self.mul(l, self.sub(p.0, x)), p.1);
        (x, y)
    }
    pub fn ec_mul<F: Field>(&self, p: (F, F), k: &BigUint) -> Option<(F, F)> {
        let mut acc: Option<(F, F)> = None;
        for i in (0..k.bits()).rev() {
            acc = match acc { None => None, Some(a) => self.ec_add(a, a) };
            if ((k >> (i as u32 as usize)) & BigUint::one()).is_one() {
                acc = match acc { None => Some(p), Some(a) => self.ec_add(a, p) };
            }
        }
        acc
    }
    /// Field element for a value code; small codes are edge values.
    pub fn val<F: Field>(&self, code: u64) -> F {
        let c = code % 1000;
        let x = match c {
            0 => BigUint::zero(),
            1 => BigUint::one(),
            2 => &self.p - BigUint::one(),
            3 => BigUint::from(2u32),
            4 => (&self.p - BigUint::one()) / BigUint::from(2u32),
            5 => (&self.p + BigUint::one()) / BigUint::from(2u32),
            6 => BigUint::from(u64::max_value()),
            7 => BigUint::one() << 64u32,
            8 => BigUint::one() << 128u32,
            9 => BigUint::one() << 254u32,
            10 => &self.p - BigUint::from(2u32),
            11..=60 => BigUint::from(c),
            61..=120 => (BigUint::one() << ((c - 61) * 4 + 7) as u32) - BigUint::one(),
            _ => {
                let mut r = crate::rng::Rng::new(code);
                let mut x = BigUint::zero();
                for _ in 0..4 { x = (x << 64u32) + BigUint::from(r.next()); }
                x
            }
        };
        f(&(x % &self.p))
    }
}
