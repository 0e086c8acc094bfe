//! Coefficient rings the checks instantiate the library with.
use num::{One, Zero};
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

macro_rules! fwd {
    ([$($g:tt)*] $t:ty, $tr:ident, $f:ident, $imp:expr) => {
        impl<$($g)*> $tr<&$t> for &$t { type Output = $t; fn $f(self, r: &$t) -> $t { $imp(self, r) } }
        impl<$($g)*> $tr<$t> for $t { type Output = $t; fn $f(self, r: $t) -> $t { $imp(&self, &r) } }
    };
}

/// Free non-commutative polynomial ring over the integers. A word is packed 12 bits per letter
/// behind a leading sentinel bit, so products of up to five letters fit.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Sym(pub Vec<(u64, i64)>);
fn wlen(w: u64) -> u32 {
    (63 - w.leading_zeros()) / 12
}
fn wcat(a: u64, b: u64) -> u64 {
    let (la, lb) = (wlen(a), wlen(b));
    assert!(la + lb <= 5, "symbolic word too long");
    (a << (12 * lb)) | (b & !(1u64 << (12 * lb)))
}
impl Sym {
    pub fn var(v: usize) -> Sym {
        assert!(v < 4096);
        Sym(vec![((1 << 12) | v as u64, 1)])
    }
    pub fn int(c: i64) -> Sym {
        if c == 0 { Sym(vec![]) } else { Sym(vec![(1, c)]) }
    }
    fn merge(&self, o: &Sym, s: i64) -> Sym {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                r.push((b[j].0, s * b[j].1));
                j += 1;
            } else {
                let c = a[i].1 + s * b[j].1;
                if c != 0 {
                    r.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Sym(r)
    }
    fn mulr(&self, o: &Sym) -> Sym {
        let mut r: Vec<(u64, i64)> = Vec::with_capacity(self.0.len() * o.0.len());
        for &(w, c) in &self.0 {
            for &(v, d) in &o.0 {
                r.push((wcat(w, v), c * d));
            }
        }
        r.sort_unstable();
        let mut q: Vec<(u64, i64)> = Vec::with_capacity(r.len());
        for (w, c) in r {
            match q.last_mut() {
                Some(l) if l.0 == w => l.1 += c,
                _ => q.push((w, c)),
            }
        }
        q.retain(|x| x.1 != 0);
        Sym(q)
    }
}
fwd!([] Sym, Add, add, |a: &Sym, b: &Sym| a.merge(b, 1));
fwd!([] Sym, Sub, sub, |a: &Sym, b: &Sym| a.merge(b, -1));
fwd!([] Sym, Mul, mul, |a: &Sym, b: &Sym| a.mulr(b));
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -&self
    }
}
impl Neg for &Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(self.0.iter().map(|&(w, c)| (w, -c)).collect())
    }
}
impl Zero for Sym {
    fn zero() -> Self {
        Sym(vec![])
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for Sym {
    fn one() -> Self {
        Sym::int(1)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

/// Integers modulo N (zero divisors when N is composite; a field when N is prime).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Zn<const N: u64>(pub u64);
impl<const N: u64> Zn<N> {
    pub fn new(x: i64) -> Self {
        Zn(x.rem_euclid(N as i64) as u64)
    }
    pub fn inv(self) -> Option<Self> {
        // extended Euclid: Some exactly for units
        let (mut r0, mut r1, mut t0, mut t1) = (N as i128, self.0 as i128, 0i128, 1i128);
        while r1 != 0 {
            let q = r0 / r1;
            (r0, r1) = (r1, r0 - q * r1);
            (t0, t1) = (t1, t0 - q * t1);
        }
        if r0 != 1 {
            return None;
        }
        Some(Zn(t0.rem_euclid(N as i128) as u64))
    }
}
fwd!([const N: u64] Zn<N>, Add, add, |a: &Zn<N>, b: &Zn<N>| Zn((a.0 + b.0) % N));
fwd!([const N: u64] Zn<N>, Sub, sub, |a: &Zn<N>, b: &Zn<N>| Zn((a.0 + N - b.0) % N));
fwd!([const N: u64] Zn<N>, Mul, mul, |a: &Zn<N>, b: &Zn<N>| Zn(((a.0 as u128 * b.0 as u128) % N as u128) as u64));
fwd!([const N: u64] Zn<N>, Div, div, |a: &Zn<N>, b: &Zn<N>| Zn(((a.0 as u128 * b.inv().expect("division by a non-unit").0 as u128) % N as u128) as u64));
impl<const N: u64> Neg for Zn<N> {
    type Output = Self;
    fn neg(self) -> Self {
        Zn((N - self.0) % N)
    }
}
impl<const N: u64> Neg for &Zn<N> {
    type Output = Zn<N>;
    fn neg(self) -> Zn<N> {
        Zn((N - self.0) % N)
    }
}
impl<const N: u64> Zero for Zn<N> {
    fn zero() -> Self {
        Zn(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const N: u64> One for Zn<N> {
    fn one() -> Self {
        Zn(1 % N)
    }
}
impl<const N: u64> fmt::Display for Zn<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub type Z3 = Zn<3>;
pub type Z4 = Zn<4>;
/// Large prime field: distinct coefficients stand in for independent unknowns.
pub type Zp = Zn<2305843009213693951>;

/// Deterministic well-spread value number `i` (splitmix64), used to fill operands with values
/// that satisfy no accidental relation.
pub fn spread(i: u64) -> u64 {
    let mut z = i.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Double-double arithmetic for reference computations.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Dd {
    pub h: f64,
    pub l: f64,
}
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let v = s - a;
    (s, (a - (s - v)) + (b - v))
}
impl Dd {
    pub fn f(x: f64) -> Dd {
        Dd { h: x, l: 0.0 }
    }
    fn norm2(h: f64, l: f64) -> Dd {
        let (h, l) = two_sum(h, l);
        Dd { h, l }
    }
}
fn dd_add(a: &Dd, b: &Dd) -> Dd {
    let (s, e) = two_sum(a.h, b.h);
    let (t, f) = two_sum(a.l, b.l);
    let r = Dd::norm2(s, e + t);
    Dd::norm2(r.h, r.l + f)
}
fn dd_mul(a: &Dd, b: &Dd) -> Dd {
    let p = a.h * b.h;
    let e = a.h.mul_add(b.h, -p);
    Dd::norm2(p, e + (a.h * b.l + a.l * b.h))
}
fn dd_div(a: &Dd, b: &Dd) -> Dd {
    let q = a.h / b.h;
    let r = dd_add(a, &-dd_mul(&Dd::f(q), b));
    let q2 = r.h / b.h;
    let r2 = dd_add(&r, &-dd_mul(&Dd::f(q2), b));
    let s = Dd::norm2(q, q2);
    Dd::norm2(s.h, s.l + r2.h / b.h)
}
fwd!([] Dd, Add, add, |a: &Dd, b: &Dd| dd_add(a, b));
fwd!([] Dd, Sub, sub, |a: &Dd, b: &Dd| dd_add(a, &-*b));
fwd!([] Dd, Mul, mul, |a: &Dd, b: &Dd| dd_mul(a, b));
fwd!([] Dd, Div, div, |a: &Dd, b: &Dd| dd_div(a, b));
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd { h: -self.h, l: -self.l }
    }
}
impl Neg for &Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        -*self
    }
}
impl Zero for Dd {
    fn zero() -> Self {
        Dd::f(0.0)
    }
    fn is_zero(&self) -> bool {
        self.h == 0.0
    }
}
impl One for Dd {
    fn one() -> Self {
        Dd::f(1.0)
    }
}
