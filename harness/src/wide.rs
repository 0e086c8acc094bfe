//! C24: every public operation on plain values, each in several algebras and on several operands,
//! so that whatever one of them leaves behind meets the others.
use super::{sorted, text, Fp};
use ndarray::Array1;
use num::complex::{Complex32 as C32, Complex64 as C64};
use num::{One, Zero};
use vharness::tclifford::algebra::{ClAlgebra, NonDegenerate, PGAlgebra, SplitSignature};
use vharness::tclifford::clifft;
use vharness::tclifford::pga::PGAMV;
use vharness::tclifford::quaternion::{Quaternion, QuaternionAlgebra};
use vharness::tclifford::types::DivRing;
use vharness::tclifford::{FFTRepr, Multivector, Norm, SparseMultivector};
use vharness::*;

pub struct Inst {
    pub op: &'static str,
    pub alg: String,
    pub set: usize,
    run: fn(usize, usize) -> Fp,
    k: usize,
}
impl Inst {
    pub fn run(&self) -> Fp {
        (self.run)(self.k, self.set)
    }
    pub fn name(&self) -> String {
        format!("{} in {} on operands {}", self.op, self.alg, self.set)
    }
}
/// Operand sets: two that differ in one coefficient, one with few terms.
pub const SETS: usize = 3;
fn vals(n: usize, s: usize, y: usize) -> Vec<f64> {
    (0..n)
        .map(|i| match s {
            2 if i != 0 && (i * 3 + y) % 5 != 0 => 0.,
            1 if i == n - 1 => 5. - y as f64,
            _ => ((i * 5 + y * 3 + 1) % 7) as f64 - 3.,
        })
        .collect()
}
fn d<A: Alg>(s: usize, y: usize) -> Multivector<f64, A> {
    Mv::new(&vals(1 << A::dim(), s, y))
}
fn sp<A: Alg>(s: usize, y: usize) -> SparseMultivector<f64, A> {
    Mv::new(&vals(1 << A::dim(), s, y))
}
fn cm<A: Alg>(s: usize, y: usize) -> Multivector<C64, A> {
    let v = vals(1 << A::dim(), s, y);
    Mv::new(&v.iter().map(|c| C64::new(*c, 1. - *c)).collect::<Vec<_>>())
}
fn rep<A: Alg>(r: FFTRepr<A>) -> Fp {
    text(r.view())
}
fn both<T: Co, A: Alg>(x: Multivector<T, A>, y: SparseMultivector<T, A>) -> Fp {
    sorted(&x) + &sorted(&y)
}

macro_rules! ops {
    ($names:ident, $f:ident, [$($b:tt)*], $a:ident, $s:ident, $($n:literal => $e:expr,)*) => {
        pub const $names: &[&str] = &[$($n),*];
        pub fn $f<$($b)*>(k: usize, $s: usize) -> Fp {
            match $names[k] { $($n => $e,)* _ => unreachable!() }
        }
    };
}
ops!(BASE, base, [A: Alg], A, s,
    "add" => both(d::<A>(s, 0) + d::<A>(s, 1), sp::<A>(s, 0) + sp::<A>(s, 1)),
    "add by reference" => both(&d::<A>(s, 0) + &d::<A>(s, 1), &sp::<A>(s, 0) + &sp::<A>(s, 1)),
    "subtract" => both(d::<A>(s, 0) - d::<A>(s, 1), sp::<A>(s, 0) - sp::<A>(s, 1)),
    "negate" => both(-d::<A>(s, 0), -sp::<A>(s, 0)),
    "product" => sorted(&(d::<A>(s, 0) * d::<A>(s, 1))),
    "sparse product" => sorted(&(sp::<A>(s, 0) * sp::<A>(s, 1))),
    "scale" => both(d::<A>(s, 0) * 3., sp::<A>(s, 0) * 3.),
    "divide by a scalar" => both(d::<A>(s, 0) / 4., sp::<A>(s, 0) / 4.),
    "wedge" => both(d::<A>(s, 0).wedge_(&d(s, 1)), sp::<A>(s, 0).wedge_(&sp(s, 1))),
    "meet" => both(d::<A>(s, 0).meet_(&d(s, 1)), sp::<A>(s, 0).meet_(&sp(s, 1))),
    "naive product" => sorted(&d::<A>(s, 0).naive_mul_impl(&d(s, 1))),
    "naive wedge" => sorted(&d::<A>(s, 0).naive_wedge_impl(&d(s, 1))),
    "naive meet" => sorted(&d::<A>(s, 0).naive_meet_impl(&d(s, 1))),
    "rev" => both(d::<A>(s, 0).rev(), sp::<A>(s, 0).rev()),
    "flip" => both(d::<A>(s, 0).flip(), sp::<A>(s, 0).flip()),
    "flip_subspace" => both(d::<A>(s, 0).flip_subspace(1 + s), sp::<A>(s, 0).flip_subspace(1 + s)),
    "dual" => both(d::<A>(s, 0).dual(), sp::<A>(s, 0).dual()),
    "undual" => both(d::<A>(s, 0).undual(), sp::<A>(s, 0).undual()),
    "vdot" => text((d::<A>(s, 0).vdot(&d(s, 1)), sp::<A>(s, 0).vdot(&sp(s, 1)))),
    "vsdot" => text((d::<A>(s, 0).vsdot(&d(s, 1)), sp::<A>(s, 0).vsdot(&sp(s, 1)))),
    "mag2" => text((d::<A>(s, 0).mag2(), sp::<A>(s, 0).mag2())),
    "revm" => both(d::<A>(s, 0).revm(), sp::<A>(s, 0).revm()),
    "cmag2" => text((cm::<A>(s, 0).cmag2(), cm::<A>(s, 0).mag2())),
    "revc" => sorted(&cm::<A>(s, 0).revc()),
    "revcm" => sorted(&cm::<A>(s, 0).revcm()),
    "pow" => both(d::<A>(s, 0).pow(2 + s), sp::<A>(s, 0).pow(2 + s)),
    "exp" => sorted(&(d::<A>(s, 0) / 16.).exp()),
    "complex exp" => sorted(&(cm::<A>(s, 0) / C64::new(16., 0.)).exp()),
    "equal" => text((d::<A>(s, 0) == d::<A>(s, 1), d::<A>(s, 0) == d::<A>(0, 0), sp::<A>(s, 0) == sp::<A>(s, 1), sp::<A>(s, 0) == sp::<A>(0, 0))),
    "approximately equal" => text((d::<A>(s, 0).approx_eq(&d(s, 1), 0.5), d::<A>(s, 0).approx_eq(&d(0, 0), 0.5), sp::<A>(s, 0).approx_eq(&sp(0, 0), 9.))),
    "is zero or one" => text((d::<A>(s, 0).is_zero(), d::<A>(s, 0).is_one(), (d::<A>(s, 0) * 0.).is_zero(), (sp::<A>(s, 0) * 0.).is_zero(), sp::<A>(s, 0).is_one())),
    "zero, one, default" => text((sorted(&Multivector::<f64, A>::zero()), sorted(&Multivector::<f64, A>::one()), sorted(&SparseMultivector::<f64, A>::one()), sorted(&Multivector::<f64, A>::default()))),
    "scalar" => both(Multivector::<f64, A>::from_scalar(3. + s as f64), SparseMultivector::<f64, A>::from_scalar(3. + s as f64)),
    "vector" => {
        let v = vals(A::dim(), s, 1);
        text((Multivector::<f64, A>::from_vector(v.clone()).map(|m| sorted(&m)).ok(), SparseMultivector::<f64, A>::from_vector_ref(v.iter()).map(|m| sorted(&m)).ok()))
    },
    "vector of a wrong length" => text((Multivector::<f64, A>::from_vector(vals(A::dim() + 1, s, 1)).is_ok(), SparseMultivector::<f64, A>::from_vector(vals(A::dim() - 1, s, 1)).is_ok())),
    "index out of range" => text((Multivector::<f64, A>::from_indexed_iter([(1usize << A::dim(), 1.)].into_iter()).is_ok(), SparseMultivector::<f64, A>::from_indexed_iter([(1usize << A::dim(), 1.)].into_iter()).is_ok())),
    "get and set" => both(d::<A>(s, 0).set_by_idx(1, 9.), sp::<A>(s, 0).set_by_idx(1, 9.)) + &text(d::<A>(s, 0).get_by_idx(1)),
    "grade" => both(d::<A>(s, 0).grade_extract(1), sp::<A>(s, 0).grade_extract(1)),
    "enumerate a grade" => text((d::<A>(s, 0).grade_entries(1 + s / 2), { let mut g = sp::<A>(s, 0).grade_entries(1 + s / 2); g.sort_by_key(|e| e.0); g })),
    "grade in another storage" => {
        let (x, y): (SparseMultivector<f64, A>, Multivector<f64, A>) = (d::<A>(s, 0).grade_extract_as(1), sp::<A>(s, 0).grade_extract_as(1));
        both(y, x)
    },
    "several grades" => sorted(&sp::<A>(s, 0).grades_extract(&[0, 1 + s / 2])),
    "retain grades" => { let mut m = sp::<A>(s, 0); m.retain_grades(&[1, 2]); sorted(&m) + &text(m.coeff_count()) },
    "filter" => both(d::<A>(s, 0).filter(|i, c| i % 2 == 0 || *c > 0.), sp::<A>(s, 0).filtered(|i, c| i % 2 == 0 || *c > 0.)),
    "extract the vector" => text((d::<A>(s, 0).extract_vector(), sp::<A>(s, 0).extract_vector())),
    "scalar part" => text((d::<A>(s, 0).scalar_part(), sp::<A>(s, 0).scalar_part())),
    "change storage" => both(sp::<A>(s, 0).to_dense(), d::<A>(s, 0).to_sparse()),
    "clone" => both(d::<A>(s, 0).clone(), sp::<A>(s, 0).clone()),
    "print" => format!("{} | {:.1} | {:+e} | {:E} | {:8.2}", d::<A>(s, 0), d::<A>(s, 1), d::<A>(s, 0), d::<A>(s, 0), d::<A>(s, 0)),
    "print a complex one" => format!("{}", cm::<A>(s, 0)),
    "print a sparse term" => format!("{} {}", SparseMultivector::<f64, A>::from_scalar(2. + s as f64), SparseMultivector::<f64, A>::from_blade(1, -1.)),
    "norm" => text((vals(3, s, 0)[0].norm(), C64::new(3., s as f64).norm())),
    "labels" => text((0..1usize << A::dim()).map(|i| (A::blade_label(i), A::blade_label_rev(i))).collect::<Vec<_>>()),
    "names" => text((0..A::dim()).map(A::axis_name).collect::<Vec<_>>()),
    "masks" => text([A::dim(), A::real_dim(), A::imag_dim(), A::proj_dim(), A::real_mask(), A::imag_mask(), A::proj_mask()]),
    "signs of products" => { let n = 1usize << A::dim(); text((0..n * n).map(|i| A::blade_geo_product_sign(i % n, i / n) as i8).collect::<Vec<_>>()) },
    "signs of wedges" => { let n = 1usize << A::dim(); text((0..n * n).map(|i| A::blade_wedge_product_sign(i % n, i / n) as i8).collect::<Vec<_>>()) },
    "anticommuting signs" => { let n = 1usize << A::dim(); text((0..n * n).map(|i| (A::ac_product_sign(i % n, i / n) as i8, A::ac_negated_product_sign(i % n, i / n) as i8)).collect::<Vec<_>>()) },
    "indices" => text((A::index_iter().collect::<Vec<_>>(), A::grade_index_iter(1 + s / 2).collect::<Vec<_>>())),
    "signature" => text((A::sig_i8(), A::sig_f64())),
    "basis" => A::basis_dense::<f64>().iter().map(sorted).collect::<String>() + &A::basis_sp::<f64>().iter().map(sorted).collect::<String>(),
    "basis of the representation" => A::basis_fft::<f64>().into_iter().map(rep).collect(),
    "fft" => rep(d::<A>(s, 0).fft()),
    "complex fft" => rep(cm::<A>(s, 0).fft()),
    "fft of f32" => rep(Multivector::<f32, A>::new(&vals(1 << A::dim(), s, 0).iter().map(|c| *c as f32).collect::<Vec<_>>()).fft()),
    "ifft" => sorted(&d::<A>(s, 0).fft().ifft::<f64>()),
    "complex ifft" => sorted(&cm::<A>(s, 0).fft().ifft::<C64>()) + &text(cm::<A>(s, 0).fft().ifft::<C32>().coeff_array_view()),
    "representation product" => rep(d::<A>(s, 0).fft() * d::<A>(s, 1).fft()),
    "representation sum" => rep(d::<A>(s, 0).fft() + d::<A>(s, 1).fft()),
    "representation difference" => rep(-(d::<A>(s, 0).fft() - d::<A>(s, 1).fft())),
    "representation scaled" => rep(d::<A>(s, 0).fft() * 3.) + &rep(d::<A>(s, 0).fft() / 3.) + &rep(d::<A>(s, 0).fft() * C64::new(1., 2.)) + &rep(d::<A>(s, 0).fft() / C64::new(1., 2.)),
    "representation reversed" => rep(d::<A>(s, 0).fft().rev()),
    "representation flipped" => rep(d::<A>(s, 0).fft().flip()),
    "representation power" => rep(d::<A>(s, 0).fft().pow(2 + s)),
    "representation exponential" => rep((d::<A>(s, 0) / 16.).fft().exp()),
    "representation traces" => { let f = d::<A>(s, 0).fft(); text((f.trace(), f.ntrace(), f.mag2(), f.shape())) },
    "representation compared" => { let (f, g) = (d::<A>(s, 0).fft(), d::<A>(0, 0).fft()); text((f == g, f.approx_eq(&g, 1.), f.is_zero(), f.clone() == f)) },
    "representation constants" => rep(FFTRepr::<A>::zero()) + &rep(FFTRepr::<A>::one()),
    "representation printed" => format!("{}", d::<A>(s, 0).fft()),
    "representation from an array" => {
        let a = d::<A>(s, 0).fft().into_array3();
        let wrong = ndarray::Array3::<C64>::zeros((a.shape()[0], a.shape()[1] + 1, a.shape()[2]));
        text((FFTRepr::<A>::from_array3(a).map(rep).ok(), FFTRepr::<A>::from_array3(wrong).map(rep).ok()))
    },
    "complexify" => sorted_c(&d::<A>(s, 0).complexify()),
    "decomplexify" => {
        let c: Multivector<C64, _> = cm::<A>(s, 0).complexify();
        let m: Multivector<C64, A> = c.decomplexify();
        sorted(&m)
    },
);
fn sorted_c<A: ClAlgebra>(m: &Multivector<C64, A>) -> Fp {
    text((m.coeff_array_view(), A::dim(), A::real_mask(), A::imag_mask(), A::proj_mask(), (0..A::dim()).map(A::axis_name).collect::<Vec<_>>(), format!("{m}")))
}
ops!(REGULAR, regular, [A: Alg + NonDegenerate], A, s,
    "inverse" => text(d::<A>(s, 0).fft().inv().map(rep)),
    "inverse of zero" => text((d::<A>(s, 0) * 0.).fft().inv().map(rep)),
    "matrix" => text(d::<A>(s, 0).fft().into_array2()),
    "from a matrix" => {
        let a = d::<A>(s, 0).fft().into_array2();
        let wrong = ndarray::Array2::<C64>::zeros((a.shape()[0], a.shape()[1] + 1));
        text((FFTRepr::<A>::from_array2(a).map(rep).ok(), FFTRepr::<A>::from_array2(wrong).map(rep).ok()))
    },
    "half spin" => text(d::<A>(s, 0).fft().into_half_spin_repr()),
);
ops!(SPLIT, split, [A: Alg + SplitSignature + NonDegenerate], A, s,
    "real transform" => text(d::<A>(s, 0).real_fft()),
    "real transform of f32" => text(Multivector::<f32, A>::new(&vals(1 << A::dim(), s, 0).iter().map(|c| *c as f32).collect::<Vec<_>>()).real_fft()),
);
fn coords(n: usize, s: usize) -> Vec<f64> {
    (0..n).map(|i| (i + 2 * s) as f64 - 0.5).collect()
}
ops!(PROJ, proj, [A: Alg + PGAlgebra<D>, const D: usize], A, s,
    "point" => text((Multivector::<f64, A>::pga_point(coords(D, s)).map(|m| sorted(&m)).ok(), SparseMultivector::<f64, A>::pga_point(coords(D, s)).map(|m| sorted(&m)).ok(), Multivector::<f64, A>::pga_point(coords(D + 1, s)).is_ok())),
    "hyperplane" => text((Multivector::<f64, A>::pga_hyperplane(coords(D + 1, s)).map(|m| sorted(&m)).ok(), SparseMultivector::<f64, A>::pga_hyperplane(coords(D + 1, s)).map(|m| sorted(&m)).ok(), Multivector::<f64, A>::pga_hyperplane(coords(D, s)).is_ok())),
    "translation" => text((Multivector::<f64, A>::pga_translation(coords(D, s)).map(|m| sorted(&m)).ok(), SparseMultivector::<f64, A>::pga_translation(coords(D, s)).map(|m| sorted(&m)).ok(), Multivector::<f64, A>::pga_translation(coords(D + 1, s)).is_ok())),
    "coordinates" => text((Multivector::<f64, A>::pga_point(coords(D, s)).map(|p| (p * (2. + s as f64)).pga_extract_point()).ok(), sp::<A>(s, 0).pga_extract_point())),
    "moved point" => {
        let t = Multivector::<f64, A>::pga_translation(coords(D, 1)).unwrap();
        text((t.rev() * Multivector::<f64, A>::pga_point(coords(D, s)).unwrap() * t).pga_extract_point())
    },
);
fn q<T: Co + DivRing + Copy + From<f32>>(s: usize, y: usize) -> Quaternion<T> {
    Quaternion::from_indexed_iter(vals(4, s, y).into_iter().map(|c| T::from(c as f32)).enumerate()).unwrap()
}
fn qtext<T: Co + DivRing + Copy>(q: Quaternion<T>) -> Fp {
    sorted(&q)
}
fn arr<T: Co + From<f64>>(n: usize, s: usize) -> Array1<T> {
    vals(n, s, 0).into_iter().map(T::from).collect()
}
fn m<T: Co + From<f64>>(n: usize, s: usize) -> ndarray::Array2<T> {
    arr::<T>(n * n, s).into_shape_with_order((n, n)).unwrap()
}
pub const PLAIN: &[&str] = &["clifft", "iclifft", "parity_flip", "imaginary_flip", "reversal", "rejected shape", "rejected matrix"];
pub fn plain<const N: usize>(k: usize, s: usize) -> Fp {
    match PLAIN[k] {
        "clifft" => text((clifft::clifft(arr::<f64>(N * N, s).view()).ok(), clifft::clifft(arr::<C64>(N * N, s).view()).ok())),
        "iclifft" => text(clifft::iclifft(m::<C64>(N, s).view()).ok()),
        "parity_flip" => text((clifft::parity_flip(m::<f64>(N, s).view()), clifft::parity_flip(m::<C64>(N, s).view()))),
        "imaginary_flip" => text(clifft::imaginary_flip(m::<C64>(N, s).view()).ok()),
        "reversal" => text(clifft::reversal(m::<C64>(N, s).view()).ok()),
        "rejected shape" => text(clifft::clifft(arr::<f64>(N * N + 1 + s, s).view()).is_ok()),
        "rejected matrix" => text((clifft::iclifft(ndarray::Array2::zeros((N, N + 1)).view()).is_ok(), clifft::reversal(ndarray::Array2::<C64>::zeros((N + 1, N)).view()).is_ok())),
        _ => unreachable!(),
    }
}
pub const QUAT: &[&str] = &[
    "quaternion product", "quaternion quotient", "quaternion sum", "quaternion difference", "quaternion conjugate", "quaternion magnitude", "quaternion units", "quaternion rev", "quaternion flip", "quaternion equal",
    "quaternion scaled", "quaternion negated", "quaternion power", "quaternion printed", "quaternion to dense", "quaternion constants",
];
pub fn quat<T: Co + DivRing + Copy + From<f32> + std::fmt::Display>(k: usize, s: usize) -> Fp {
    let (x, y) = (q::<T>(s, 0), q::<T>(s, 1));
    match QUAT[k] {
        "quaternion product" => qtext(x * y),
        "quaternion quotient" => qtext(x / y),
        "quaternion sum" => qtext(x + y),
        "quaternion difference" => qtext(x - y),
        "quaternion conjugate" => qtext(x.conj()),
        "quaternion magnitude" => text(x.mag2()),
        "quaternion units" => qtext(Quaternion::<T>::i()) + &qtext(Quaternion::<T>::j()) + &qtext(Quaternion::<T>::k()),
        "quaternion rev" => qtext(x.rev()) + &qtext(x.revm()),
        "quaternion flip" => qtext(x.flip()) + &qtext(x.flip_subspace(2)),
        "quaternion equal" => text((x == y, x == q::<T>(0, 0), x.is_zero(), x.is_one())),
        "quaternion scaled" => qtext(x * <T as From<f32>>::from(3.)) + &qtext(x / <T as From<f32>>::from(4.)),
        "quaternion negated" => qtext(-x),
        "quaternion power" => qtext(x.pow(2 + s)),
        "quaternion printed" => format!("{x}"),
        "quaternion to dense" => {
            let m: Multivector<T, QuaternionAlgebra> = x.to_storage_type();
            text(m.coeff_array_view())
        },
        "quaternion constants" => qtext(Quaternion::<T>::zero()) + &qtext(Quaternion::<T>::one()) + &qtext(Quaternion::<T>::default()),
        _ => unreachable!(),
    }
}
/// A few blades near both ends of a larger algebra.
fn far<A: Alg>(s: usize, y: usize) -> SparseMultivector<f64, A> {
    let (d, all) = (A::dim(), (1usize << A::dim()) - 1);
    let idx = [0, 1, 2, 1 << (d - 1), 3, 2 | 1 << (d - 1), 1 << (d - 2) | 1, all, all ^ 1, all ^ 1 << (d - 1), 0b111 << (d - 3)];
    let c = |k: usize| ((k * 5 + y * 3 + s) % 7) as f64 - 3.5;
    SparseMultivector::from_indexed_iter(idx.into_iter().enumerate().filter(|(k, _)| s < 2 || k % 3 != y).map(|(k, i)| (i, c(k)))).unwrap()
}
ops!(TALL, tall, [A: Alg], A, s,
    "tall product" => sorted(&(far::<A>(s, 0) * far::<A>(s, 1))),
    "tall wedge" => sorted(&far::<A>(s, 0).wedge_(&far(s, 1))),
    "tall meet" => sorted(&far::<A>(s, 0).meet_(&far(s, 1))),
    "tall sum" => sorted(&(far::<A>(s, 0) + far::<A>(s, 1))),
    "tall difference" => sorted(&(far::<A>(s, 0) - far::<A>(s, 1))),
    "tall dual" => sorted(&far::<A>(s, 0).dual()),
    "tall undual" => sorted(&far::<A>(s, 0).undual()),
    "tall rev" => sorted(&far::<A>(s, 0).rev()),
    "tall flip" => sorted(&far::<A>(s, 0).flip()) + &sorted(&far::<A>(s, 0).flip_subspace(5)),
    "tall scalars" => { let (x, y) = (far::<A>(s, 0), far::<A>(s, 1)); text((x.vdot(&y), x.vsdot(&y), x.mag2())) },
    "tall labels" => text([0usize, 1, 2, 3].map(|i| { let i = i << (A::dim() - 2) | i; (A::blade_label(i), A::blade_label_rev(i)) })),
    "tall signs" => text((0..A::dim()).flat_map(|i| (0..A::dim()).map(move |j| (A::blade_geo_product_sign(1 << i | 1, 1 << j) as i8, A::blade_wedge_product_sign(1 << i, 1 << j) as i8))).collect::<Vec<_>>()),
    "tall grade" => sorted(&far::<A>(s, 0).grade_(2)) + &text(A::grade_index_iter(A::dim() - 1).collect::<Vec<_>>()),
    "tall basis" => A::basis_sp::<f64>().iter().map(sorted).collect::<String>(),
);
ops!(DENSE, dense, [A: Alg], A, s,
    "tall dense product" => sorted(&(far::<A>(s, 0).to_dense() * far::<A>(s, 1).to_dense())),
    "tall dense wedge" => sorted(&far::<A>(s, 0).to_dense().wedge_(&far::<A>(s, 1).to_dense())),
    "tall dense meet" => sorted(&far::<A>(s, 0).to_dense().meet_(&far::<A>(s, 1).to_dense())),
    "tall ifft" => sorted(&far::<A>(s, 0).to_dense().fft().ifft::<f64>()),
    "tall representation" => rep((far::<A>(s, 0).to_dense().fft() * far::<A>(s, 1).to_dense().fft()).rev()),
);
// the same algebras under other names
mod named {
    use vharness::tclifford::declare_algebra;
    declare_algebra!(pub U, [+,+], ["u", "v"]);
    declare_algebra!(pub X, [+,+], ["x", "yy"]);
    declare_algebra!(pub P, [+,-,0], ["p", "q", "r"]);
    declare_algebra!(pub E, [+,-,0], []);
}
fn nm<A: ClAlgebra>(s: usize) -> Multivector<f64, A> {
    Multivector::from_indexed_iter(vals(1 << A::dim(), s, 0).into_iter().enumerate()).unwrap()
}
ops!(NAMED, named_ops, [A: ClAlgebra], A, s,
    "named print" => format!("{} | {:.1} | {:e}", nm::<A>(s), nm::<A>(s), nm::<A>(s)),
    "named reversed print" => format!("{:#} | {:#.1} | {:#E}", nm::<A>(s), nm::<A>(s), nm::<A>(s)),
    "named sparse print" => format!("{} {:#}", SparseMultivector::<f64, A>::zero().set_by_idx(3, 2. + s as f64), SparseMultivector::<f64, A>::zero().set_by_idx(3, 2. + s as f64)),
    "named labels" => text((0..1usize << A::dim()).map(|i| (A::blade_label(i), A::blade_label_rev(i))).collect::<Vec<_>>()),
    "named axes" => text((0..A::dim()).map(A::axis_name).collect::<Vec<_>>()),
    "named complexified" => sorted_c(&nm::<A>(s).complexify()),
);
pub fn list() -> Vec<Inst> {
    let mut v = vec![];
    let mut put = |names: &'static [&'static str], alg: &str, run: fn(usize, usize) -> Fp| {
        for (k, op) in names.iter().enumerate() {
            for set in 0..SETS {
                v.push(Inst { op, alg: alg.to_string(), set, run, k });
            }
        }
    };
    macro_rules! each {
        ($names:ident, $f:ident, $($a:ident)*) => { $( put($names, &format!("Cl[{}]", $a::sig()), $f::<$a>); )* };
    }
    each!(BASE, base, A_m A_pp A_mm A_pm A_mz A_pmz A_mmp A_mmpp A_pppz);
    each!(REGULAR, regular, A_m A_pp A_mm A_pm A_mmp A_mmpp);
    each!(SPLIT, split, A_pm A_pmpm A_pmpmpm);
    put(PROJ, "Cl[++0]", proj::<A_ppz, 2>);
    put(PROJ, "Cl[+++0]", proj::<A_pppz, 3>);
    put(PROJ, "Cl[++++0]", proj::<A_ppppz, 4>);
    put(PLAIN, "2x2", plain::<2>);
    put(PLAIN, "4x4", plain::<4>);
    put(PLAIN, "8x8", plain::<8>);
    each!(TALL, tall, A_7 A_8 A_9 A_12 A_40);
    each!(DENSE, dense, A_7 A_8);
    put(NAMED, "Cl[++] of u, v", named_ops::<named::U>);
    put(NAMED, "Cl[++] of x, yy", named_ops::<named::X>);
    put(NAMED, "Cl[+-0] of p, q, r", named_ops::<named::P>);
    put(NAMED, "Cl[+-0] without names", named_ops::<named::E>);
    put(QUAT, "H over f64", quat::<f64>);
    put(QUAT, "H over f32", quat::<f32>);
    v
}
use super::{A_12, A_40, A_7, A_8, A_9, A_pmpm};
