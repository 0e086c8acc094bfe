//! Reference model: a multivector is the vector of its 2^d coefficients and products are
//! computed on words of generators.
use num::{One, Zero};
use std::fmt::Debug;
use tclifford::types::Ring;

pub trait Co: Ring + Clone + Debug + 'static {}
impl<T: Ring + Clone + Debug + 'static> Co for T {}

#[derive(Clone, Debug)]
pub struct Sig {
    pub s: String,
    pub q: Vec<i8>,
    pub d: usize,
}

/// The generators of blade `idx` in the order the index denotes (descending).
pub fn word(idx: usize) -> Vec<u8> {
    (0..64u8).rev().filter(|i| idx >> i & 1 == 1).collect()
}

/// Sort a word into descending order counting the swaps, contracting equal neighbours with
/// `sq(generator)`. Returns (sign or 0, blade index).
pub fn normalise(mut w: Vec<u8>, sq: &dyn Fn(u8) -> i8) -> (i8, usize) {
    let mut sign = 1i8;
    loop {
        let mut again = false;
        let mut i = 0;
        while i + 1 < w.len() {
            if w[i] == w[i + 1] {
                sign *= sq(w[i]);
                w.drain(i..i + 2);
                again = true;
            } else if w[i] < w[i + 1] {
                w.swap(i, i + 1);
                sign = -sign;
                again = true;
            } else {
                i += 1;
            }
        }
        if !again {
            break;
        }
    }
    let mut idx = 0usize;
    for g in w {
        idx |= 1usize << g;
    }
    (sign, idx)
}

impl Sig {
    pub fn new(s: &str) -> Sig {
        let q: Vec<i8> = s
            .chars()
            .map(|c| match c {
                '+' => 1,
                '-' => -1,
                _ => 0,
            })
            .collect();
        Sig { s: s.to_string(), d: q.len(), q }
    }
    pub fn n(&self) -> usize {
        1 << self.d
    }
    pub fn nulls(&self) -> usize {
        self.q.iter().filter(|x| **x == 0).count()
    }
    pub fn geo(&self, a: usize, b: usize) -> (i8, usize) {
        let mut w = word(a);
        w.extend(word(b));
        normalise(w, &|g| self.q[g as usize])
    }
    pub fn wedge(&self, a: usize, b: usize) -> (i8, usize) {
        let mut w = word(a);
        w.extend(word(b));
        normalise(w, &|_| 0)
    }
    /// The same as `geo` computed by counting inversions; used for long words.
    pub fn geo_fast(&self, a: usize, b: usize) -> (i8, usize) {
        // moving each generator of b leftwards past the smaller... every generator of `a`
        // smaller than it stands to its left in the concatenation
        let mut inv = 0u32;
        let mut bb = b;
        while bb != 0 {
            let g = bb.trailing_zeros();
            bb &= bb - 1;
            inv += (a & ((1usize << g) - 1)).count_ones();
        }
        let mut s = if inv % 2 == 0 { 1i8 } else { -1 };
        let mut c = a & b;
        while c != 0 {
            s *= self.q[c.trailing_zeros() as usize];
            c &= c - 1;
        }
        (s, a ^ b)
    }
    pub fn wedge_fast(&self, a: usize, b: usize) -> (i8, usize) {
        if a & b != 0 {
            return (0, a ^ b);
        }
        self.geo_fast(a, b)
    }
    /// Sign of the reversed word of blade `a`.
    pub fn rev_sign(a: usize) -> i8 {
        let mut w = word(a);
        w.reverse();
        normalise(w, &|_| 0).0
    }
    /// Sign picked up when the generators in `mask` are negated.
    pub fn flip_sign(a: usize, mask: usize) -> i8 {
        let mut s = 1;
        for g in word(a) {
            if mask >> g & 1 == 1 {
                s = -s;
            }
        }
        s
    }
}

/// Largest dimension with product tables; beyond it signs are counted when needed.
const TABLES: usize = 10;
/// One algebra, with product tables when they are small.
#[derive(Clone, Debug)]
pub struct Model {
    pub sig: Sig,
    pub d: usize,
    pub n: usize,
    geo: Vec<i8>,
    wed: Vec<i8>,
    pub revs: Vec<i8>,
}

pub fn signed<T: Co>(s: i8, c: &T) -> T {
    match s {
        0 => T::zero(),
        1 => c.clone(),
        _ => -c.clone(),
    }
}

impl Model {
    pub fn new(sig: &Sig) -> Model {
        let n = sig.n();
        if sig.d > TABLES {
            // k(k-1)/2 swaps reverse a word of k letters
            let fast = |i: usize| if i.count_ones() / 2 % 2 == 0 { 1 } else { -1 };
            (0..n).step_by(n / 512 + 1).for_each(|i| assert_eq!(fast(i), Sig::rev_sign(i)));
            return Model { sig: sig.clone(), d: sig.d, n, geo: vec![], wed: vec![], revs: (0..n).map(fast).collect() };
        }
        let mut geo = vec![0i8; n * n];
        let mut wed = vec![0i8; n * n];
        for a in 0..n {
            for b in 0..n {
                if sig.d <= 6 {
                    let (s, i) = sig.geo(a, b);
                    assert!(s == 0 || i == a ^ b);
                    assert_eq!(s, sig.geo_fast(a, b).0);
                    geo[a * n + b] = s;
                    let (s, _) = sig.wedge(a, b);
                    assert_eq!(s, sig.wedge_fast(a, b).0);
                    wed[a * n + b] = s;
                } else {
                    geo[a * n + b] = sig.geo_fast(a, b).0;
                    wed[a * n + b] = sig.wedge_fast(a, b).0;
                }
            }
        }
        let revs = (0..n).map(Sig::rev_sign).collect();
        Model { sig: sig.clone(), d: sig.d, n, geo, wed, revs }
    }
    pub fn of<A: crate::algs::Alg>() -> Model {
        Model::new(&Sig::new(&A::sig()))
    }
    pub fn g(&self, a: usize, b: usize) -> i8 {
        if self.d > TABLES { self.sig.geo_fast(a, b).0 } else { self.geo[a * self.n + b] }
    }
    pub fn w(&self, a: usize, b: usize) -> i8 {
        if self.d > TABLES { self.sig.wedge_fast(a, b).0 } else { self.wed[a * self.n + b] }
    }
    fn bil<T: Co>(&self, sign: impl Fn(usize, usize) -> i8, a: &[T], b: &[T]) -> Vec<T> {
        let mut r = vec![T::zero(); self.n];
        let terms: Vec<usize> = (0..self.n).filter(|j| !b[*j].is_zero()).collect();
        for i in 0..self.n {
            if a[i].is_zero() {
                continue;
            }
            for &j in &terms {
                match sign(i, j) {
                    0 => {}
                    1 => r[i ^ j] = r[i ^ j].clone() + a[i].clone() * b[j].clone(),
                    _ => r[i ^ j] = r[i ^ j].clone() - a[i].clone() * b[j].clone(),
                }
            }
        }
        r
    }
    pub fn mul<T: Co>(&self, a: &[T], b: &[T]) -> Vec<T> {
        self.bil(|i, j| self.g(i, j), a, b)
    }
    pub fn wedge<T: Co>(&self, a: &[T], b: &[T]) -> Vec<T> {
        self.bil(|i, j| self.w(i, j), a, b)
    }
    /// The complement of each blade, with the sign that makes dual(b) ^ b the pseudoscalar.
    pub fn dual<T: Co>(&self, a: &[T]) -> Vec<T> {
        let f = self.n - 1;
        let mut r = vec![T::zero(); self.n];
        for i in 0..self.n {
            r[f ^ i] = signed(self.w(f ^ i, i), &a[i]);
        }
        r
    }
    pub fn undual<T: Co>(&self, a: &[T]) -> Vec<T> {
        let f = self.n - 1;
        let mut r = vec![T::zero(); self.n];
        for i in 0..self.n {
            r[f ^ i] = signed(self.w(i, f ^ i), &a[i]);
        }
        r
    }
    pub fn meet<T: Co>(&self, a: &[T], b: &[T]) -> Vec<T> {
        self.undual(&self.wedge(&self.dual(a), &self.dual(b)))
    }
    pub fn rev<T: Co>(&self, a: &[T]) -> Vec<T> {
        (0..self.n).map(|i| signed(self.revs[i], &a[i])).collect()
    }
    pub fn flip<T: Co>(&self, a: &[T], mask: usize) -> Vec<T> {
        if self.d > TABLES {
            return (0..self.n).map(|i| signed(if (i & mask).count_ones() % 2 == 0 { 1 } else { -1 }, &a[i])).collect();
        }
        (0..self.n).map(|i| signed(Sig::flip_sign(i, mask), &a[i])).collect()
    }
    pub fn grade<T: Co>(&self, a: &[T], g: usize) -> Vec<T> {
        (0..self.n).map(|i| if word(i).len() == g { a[i].clone() } else { T::zero() }).collect()
    }
    pub fn vsdot<T: Co>(&self, a: &[T], b: &[T]) -> T {
        let mut r = T::zero();
        for i in 0..self.n {
            r = r + a[i].clone() * b[i].clone();
        }
        r
    }
    pub fn one<T: Co>(&self) -> Vec<T> {
        blade(self.n, 0, T::one())
    }
    pub fn zero<T: Co>(&self) -> Vec<T> {
        vec![T::zero(); self.n]
    }
    pub fn pow<T: Co>(&self, a: &[T], k: usize) -> Vec<T> {
        let mut r = self.one();
        for _ in 0..k {
            r = self.mul(&r, a);
        }
        r
    }
}

pub fn blade<T: Zero + Clone>(n: usize, i: usize, c: T) -> Vec<T> {
    let mut v = vec![T::zero(); n];
    v[i] = c;
    v
}
pub fn vadd<T: Co>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| x.clone() + y.clone()).collect()
}
pub fn vsub<T: Co>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| x.clone() - y.clone()).collect()
}
pub fn vneg<T: Co>(a: &[T]) -> Vec<T> {
    a.iter().map(|x| -x.clone()).collect()
}
pub fn vscale<T: Co>(a: &[T], c: &T) -> Vec<T> {
    a.iter().map(|x| x.clone() * c.clone()).collect()
}
pub fn is_unit_blade<T: Co + One>(a: &[T], i: usize) -> bool {
    a.iter().enumerate().all(|(j, c)| if i == j { *c == T::one() } else { c.is_zero() })
}
