//! Algebras: types declared with the library's own macro, and one type whose signature is chosen
//! at run time so that every signature can be explored without compiling a copy for each.
use crate::model::Co;
use std::cell::Cell;
use tclifford::algebra::{ClAlgebraBase, DivisionAlgebra, NonDegenerate, PGAlgebra, SplitSignature};
use tclifford::types::IndexType;
use tclifford::{declare_algebra, ClAlgebra, ClBasis, FFTRepr, Multivector, SparseMultivector};

pub trait Alg: ClAlgebra + Sized + Send + Sync + std::fmt::Debug + 'static {
    /// Select the signature on this thread (run-time algebra only).
    fn enter(sig: &str);
    fn sig() -> String;
    fn basis_dense<T: Co>() -> Vec<Multivector<T, Self>>;
    fn basis_sp<T: Co>() -> Vec<SparseMultivector<T, Self>>;
    fn basis_fft<Z: Co>() -> Vec<FFTRepr<Self>>;
    fn sig_i8() -> Vec<i8>;
    fn sig_f64() -> Vec<f64>;
}
pub trait Visitor {
    fn visit<A: Alg>(&mut self, sig: &str);
}
/// Algebras without null generators.
pub trait NdVisitor {
    fn visit<A: Alg + NonDegenerate>(&mut self, sig: &str);
}

#[macro_export]
macro_rules! alg {
    ($n:ident, $d:literal, $s:literal, [$($t:tt),+]) => {
        declare_algebra!(pub $n, [$($t),+], []);
        impl Alg for $n {
            fn enter(_: &str) {}
            fn sig() -> String { $s.to_string() }
            fn basis_dense<T: Co>() -> Vec<Multivector<T, Self>> {
                <$n as ClBasis<$d>>::basis::<T>().into_iter().collect()
            }
            fn basis_sp<T: Co>() -> Vec<SparseMultivector<T, Self>> {
                <$n as ClBasis<$d>>::basis_sparse::<T>().into_iter().collect()
            }
            fn basis_fft<Z: Co>() -> Vec<FFTRepr<Self>> {
                FFTRepr::<Self>::basis::<$d>().into_iter().collect()
            }
            fn sig_i8() -> Vec<i8> { <$n as ClBasis<$d>>::signature().to_vec() }
            fn sig_f64() -> Vec<f64> { <$n as ClBasis<$d>>::signaturef().to_vec() }
        }
    };
}

#[path = "algs_gen.rs"]
#[allow(non_snake_case, non_camel_case_types)]
mod gen;
pub use gen::*;

thread_local! {
    static CUR: Cell<(usize, usize, usize, usize)> = const { Cell::new((0, 0, 0, 0)) };
}
/// The algebra whose signature is set per thread. Its traits say about it what the macro would.
#[derive(Debug)]
pub struct Dy {}
impl ClAlgebraBase for Dy {
    fn dim() -> usize {
        CUR.with(|c| c.get().0)
    }
    fn real_mask() -> IndexType {
        CUR.with(|c| c.get().1)
    }
    fn imag_mask() -> IndexType {
        CUR.with(|c| c.get().2)
    }
    fn proj_mask() -> IndexType {
        CUR.with(|c| c.get().3)
    }
    fn axis_name(n: usize) -> String {
        format!("e{n}")
    }
}
impl<const D: usize> ClBasis<D> for Dy {}
impl NonDegenerate for Dy {}
impl SplitSignature for Dy {}
impl DivisionAlgebra for Dy {}
impl<const D: usize> PGAlgebra<D> for Dy {}
macro_rules! bydim {
    ($f:ident, $($d:literal)*) => {
        match Self::dim() { $($d => $f!($d),)* _ => panic!("no basis table for this dimension") }
    };
}
impl Alg for Dy {
    fn enter(sig: &str) {
        let m = |c: char| sig.chars().enumerate().filter(|x| x.1 == c).fold(0usize, |a, x| a | 1 << x.0);
        CUR.with(|c| c.set((sig.len(), m('+'), m('-'), m('0'))));
    }
    fn sig() -> String {
        let (d, p, m, _) = CUR.with(|c| c.get());
        (0..d).map(|i| if p >> i & 1 == 1 { '+' } else if m >> i & 1 == 1 { '-' } else { '0' }).collect()
    }
    fn basis_dense<T: Co>() -> Vec<Multivector<T, Self>> {
        macro_rules! f { ($d:literal) => { <Self as ClBasis<$d>>::basis::<T>().into_iter().collect() } }
        bydim!(f, 1 2 3 4 5 6 7 8 9 10)
    }
    fn basis_sp<T: Co>() -> Vec<SparseMultivector<T, Self>> {
        macro_rules! f { ($d:literal) => { <Self as ClBasis<$d>>::basis_sparse::<T>().into_iter().collect() } }
        bydim!(f, 1 2 3 4 5 6 7 8 9 10)
    }
    fn basis_fft<Z: Co>() -> Vec<FFTRepr<Self>> {
        macro_rules! f { ($d:literal) => { FFTRepr::<Self>::basis::<$d>().into_iter().collect() } }
        bydim!(f, 1 2 3 4 5 6 7 8 9 10)
    }
    fn sig_i8() -> Vec<i8> {
        macro_rules! f { ($d:literal) => { <Self as ClBasis<$d>>::signature().to_vec() } }
        bydim!(f, 1 2 3 4 5 6 7 8 9 10)
    }
    fn sig_f64() -> Vec<f64> {
        macro_rules! f { ($d:literal) => { <Self as ClBasis<$d>>::signaturef().to_vec() } }
        bydim!(f, 1 2 3 4 5 6 7 8 9 10)
    }
}

/// The library's own quaternion algebra.
impl Alg for tclifford::quaternion::QuaternionAlgebra {
    fn enter(_: &str) {}
    fn sig() -> String {
        "--".to_string()
    }
    fn basis_dense<T: Co>() -> Vec<Multivector<T, Self>> {
        <Self as ClBasis<2>>::basis::<T>().into_iter().collect()
    }
    fn basis_sp<T: Co>() -> Vec<SparseMultivector<T, Self>> {
        <Self as ClBasis<2>>::basis_sparse::<T>().into_iter().collect()
    }
    fn basis_fft<Z: Co>() -> Vec<FFTRepr<Self>> {
        FFTRepr::<Self>::basis::<2>().into_iter().collect()
    }
    fn sig_i8() -> Vec<i8> {
        <Self as ClBasis<2>>::signature().to_vec()
    }
    fn sig_f64() -> Vec<f64> {
        <Self as ClBasis<2>>::signaturef().to_vec()
    }
}

/// Every legal signature of dimension `d`: null generators last.
pub fn legal(d: usize) -> Vec<String> {
    let mut r = vec![];
    for z in 0..=d {
        for b in 0..1usize << (d - z) {
            let mut s: String = (0..d - z).map(|i| if b >> i & 1 == 0 { '+' } else { '-' }).collect();
            s.extend(std::iter::repeat('0').take(z));
            r.push(s);
        }
    }
    r
}
pub fn legal_upto(d: usize) -> Vec<String> {
    (1..=d).flat_map(legal).collect()
}
pub fn nondeg_upto(d: usize) -> Vec<String> {
    legal_upto(d).into_iter().filter(|s| !s.contains('0')).collect()
}
/// One signature per (plus, minus, null) count of dimension `d`, the order of signs varied.
pub fn counts(d: usize) -> Vec<String> {
    let mut r = vec![];
    for z in 0..=d {
        for q in 0..=d - z {
            let k = d - z;
            let s: String = (0..k).map(|i| if (i * q) / k.max(1) != ((i + 1) * q) / k.max(1) { '-' } else { '+' }).collect();
            r.push(s + &"0".repeat(z));
        }
    }
    r
}
pub fn mixed(d: usize) -> String {
    let mut s: String = (0..d - d / 4).map(|i| if (i * 7 / 3) % 2 == 0 { '+' } else { '-' }).collect();
    s.push_str(&"0".repeat(d / 4));
    s
}
pub fn visit_sigs<V: Visitor>(sigs: &[String], v: &mut V) {
    for s in sigs {
        v.visit::<Dy>(s);
    }
}
pub fn visit_nd_sigs<V: NdVisitor>(sigs: &[String], v: &mut V) {
    for s in sigs {
        assert!(!s.contains('0'));
        v.visit::<Dy>(s);
    }
}
