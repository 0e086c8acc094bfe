//! One interface over the library's storages.
use crate::algs::Alg;
use crate::model::Co;
use tclifford::quaternion::Quaternion;
use tclifford::types::{DivRing, WedgeProduct};
use tclifford::{Multivector, SparseMultivector};

pub trait Mv<T: Co>: Clone + PartialEq + Sized {
    const ST: &'static str;
    /// Built from the non-zero coefficients through the public constructor.
    fn new(c: &[T]) -> Self;
    fn from_pairs(c: &[(usize, T)]) -> Self;
    fn from_blade(i: usize, c: T) -> Self;
    fn get(&self, i: usize) -> T;
    fn set(self, i: usize, c: T) -> Self;
    fn entries(&self) -> Vec<(usize, T)>;
    fn grade_entries(&self, g: usize) -> Vec<(usize, T)>;
    fn zero_() -> Self;
    fn one_() -> Self;
    fn is_zero_(&self) -> bool;
    fn is_one_(&self) -> bool;
    fn scalar_(c: T) -> Self;
    fn mul_forms(&self, r: &Self) -> [Self; 4];
    fn add_forms(&self, r: &Self) -> [Self; 4];
    fn sub_forms(&self, r: &Self) -> [Self; 4];
    fn neg_forms(&self) -> [Self; 2];
    fn scale_forms(&self, c: &T) -> [Self; 4];
    fn naive_mul(&self, r: &Self) -> Self;
    fn naive_wedge(&self, r: &Self) -> Self;
    fn naive_meet(&self, r: &Self) -> Self;
    fn rev_(&self) -> Self;
    fn flip_(&self) -> Self;
    fn flip_sub(&self, m: usize) -> Self;
    fn dual_(&self) -> Self;
    fn undual_(&self) -> Self;
    fn vdot_(&self, r: &Self) -> T;
    fn vsdot_(&self, r: &Self) -> T;
    fn mag2_(&self) -> T;
    fn pow_(&self, n: usize) -> Self;
    fn grade_(&self, g: usize) -> Self;
    fn scalar_part_(&self) -> T;
    fn vector_(&self) -> Vec<T>;
    fn vals(&self, n: usize) -> Vec<T> {
        (0..n).map(|i| self.get(i)).collect()
    }
    fn wedge_(&self, r: &Self) -> Self;
    fn meet_(&self, r: &Self) -> Self;
    fn mul_(&self, r: &Self) -> Self;
    fn add_(&self, r: &Self) -> Self;
    fn sub_(&self, r: &Self) -> Self;
}
pub trait MvDiv<T: Co>: Mv<T> {
    fn div_forms(&self, c: &T) -> [Self; 4];
    fn revm_(&self) -> Self;
}

macro_rules! imp {
    ([$($g:tt)*], $ty:ty, $st:literal, $wedge:ident, $meet:ident) => {
        impl<$($g)*> Mv<T> for $ty {
            const ST: &'static str = $st;
            fn new(c: &[T]) -> Self {
                Self::from_indexed_iter_ref(c.iter().enumerate().filter(|(_, c)| !c.is_zero())).unwrap()
            }
            fn from_pairs(c: &[(usize, T)]) -> Self {
                Self::from_indexed_iter(c.iter().cloned()).unwrap()
            }
            fn from_blade(i: usize, c: T) -> Self {
                Self::from_indexed_iter(std::iter::once((i, c))).unwrap()
            }
            fn get(&self, i: usize) -> T { self.get_by_idx(i) }
            fn set(self, i: usize, c: T) -> Self { self.set_by_idx(i, c) }
            fn entries(&self) -> Vec<(usize, T)> { self.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect() }
            fn grade_entries(&self, g: usize) -> Vec<(usize, T)> { self.grade_enumerate(g).map(|(i, c)| (i, c.clone())).collect() }
            fn zero_() -> Self { num::Zero::zero() }
            fn one_() -> Self { num::One::one() }
            fn is_zero_(&self) -> bool { num::Zero::is_zero(self) }
            fn is_one_(&self) -> bool { num::One::is_one(self) }
            fn scalar_(c: T) -> Self { Self::from_scalar(c) }
            fn mul_forms(&self, r: &Self) -> [Self; 4] {
                [self * r, self.clone() * r, self * r.clone(), self.clone() * r.clone()]
            }
            fn add_forms(&self, r: &Self) -> [Self; 4] {
                [self + r, self.clone() + r, self + r.clone(), self.clone() + r.clone()]
            }
            fn sub_forms(&self, r: &Self) -> [Self; 4] {
                [self - r, self.clone() - r, self - r.clone(), self.clone() - r.clone()]
            }
            fn neg_forms(&self) -> [Self; 2] { [-self, -self.clone()] }
            fn scale_forms(&self, c: &T) -> [Self; 4] {
                [self * c, self.clone() * c, self * c.clone(), self.clone() * c.clone()]
            }
            fn naive_mul(&self, r: &Self) -> Self { self.naive_mul_impl(r) }
            fn naive_wedge(&self, r: &Self) -> Self { self.naive_wedge_impl(r) }
            fn naive_meet(&self, r: &Self) -> Self { self.naive_meet_impl(r) }
            fn rev_(&self) -> Self { self.rev() }
            fn flip_(&self) -> Self { self.flip() }
            fn flip_sub(&self, m: usize) -> Self { self.flip_subspace(m) }
            fn dual_(&self) -> Self { self.dual() }
            fn undual_(&self) -> Self { self.undual() }
            fn vdot_(&self, r: &Self) -> T { self.vdot(r) }
            fn vsdot_(&self, r: &Self) -> T { self.vsdot(r) }
            fn mag2_(&self) -> T { self.mag2() }
            fn pow_(&self, n: usize) -> Self { self.pow(n) }
            fn grade_(&self, g: usize) -> Self { self.grade_extract(g) }
            fn scalar_part_(&self) -> T { self.scalar_part() }
            fn vector_(&self) -> Vec<T> { self.extract_vector().to_vec() }
            fn wedge_(&self, r: &Self) -> Self { self.$wedge(r) }
            fn meet_(&self, r: &Self) -> Self { self.$meet(r) }
            fn mul_(&self, r: &Self) -> Self { self * r }
            fn add_(&self, r: &Self) -> Self { self + r }
            fn sub_(&self, r: &Self) -> Self { self - r }
        }
    };
}
macro_rules! impd {
    ([$($g:tt)*], $ty:ty) => {
        impl<$($g)*> MvDiv<T> for $ty {
            fn div_forms(&self, c: &T) -> [Self; 4] {
                [self / c, self.clone() / c, self / c.clone(), self.clone() / c.clone()]
            }
            fn revm_(&self) -> Self { self.revm() }
        }
    };
}
imp!([T: Co, A: Alg], Multivector<T, A>, "dense", wedge, meet);
imp!([T: Co, A: Alg], SparseMultivector<T, A>, "sparse", wedge, meet);
imp!([T: Co + DivRing + Copy], Quaternion<T>, "quat", naive_wedge_impl, naive_meet_impl);
impd!([T: Co + DivRing, A: Alg], Multivector<T, A>);
impd!([T: Co + DivRing, A: Alg], SparseMultivector<T, A>);
impd!([T: Co + DivRing + Copy], Quaternion<T>);

/// Compare a library value with the model's coefficients.
pub fn same<T: Co, M: Mv<T>>(what: &str, got: &M, want: &[T]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let g = got.get(i);
        if g != *w {
            return Err(format!("{what} [{}]: coefficient {i:#b} is {g:?}, should be {w:?}", M::ST));
        }
    }
    Ok(())
}
pub fn same_val<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, should be {want:?}"))
    }
}
pub fn ensure(what: impl FnOnce() -> String, ok: bool) -> Result<(), String> {
    if ok { Ok(()) } else { Err(what()) }
}
