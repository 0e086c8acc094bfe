//! Helpers for the checks of the matrix representation.
use crate::algs::Alg;
use crate::mv::*;
use num::complex::Complex64 as C;
use tclifford::{FFTRepr, Multivector};

pub fn cx(a: &[i64]) -> Vec<C> {
    a.iter().map(|x| C::new(*x as f64, 0.)).collect()
}
pub fn cmax(a: &[C]) -> f64 {
    a.iter().fold(0., |m, c| m.max(c.norm()))
}
pub fn repr<A: Alg>(a: &[C]) -> FFTRepr<A> {
    Multivector::<C, A>::new(a).fft()
}
/// Largest difference between two representations of equal shape.
pub fn dist<A: Alg>(x: &FFTRepr<A>, y: &FFTRepr<A>) -> f64 {
    if x.shape() != y.shape() {
        return f64::INFINITY;
    }
    let (x, y) = (x.view(), y.view());
    x.iter().zip(y.iter()).fold(0., |m: f64, (a, b)| {
        let d = (a - b).norm();
        if d.is_nan() { f64::INFINITY } else { m.max(d) }
    })
}
pub fn near<A: Alg>(what: &str, x: &FFTRepr<A>, y: &FFTRepr<A>, tol: f64) -> Result<(), String> {
    let d = dist(x, y);
    ensure(|| format!("{what}: differs by {d:e} (allowed {tol:e})"), d <= tol)
}
pub fn near_c(what: &str, x: C, y: C, tol: f64) -> Result<(), String> {
    ensure(|| format!("{what}: got {x}, should be {y}"), (x - y).norm() <= tol)
}
pub fn near_vec(what: &str, x: &[C], y: &[C], tol: f64) -> Result<(), String> {
    for i in 0..y.len() {
        ensure(|| format!("{what}: coefficient {i:#b} is {}, should be {}", x[i], y[i]), (x[i] - y[i]).norm() <= tol)?;
    }
    Ok(())
}
/// Full-support small integer values, a different list for every salt.
pub fn ints(n: usize, salt: usize) -> Vec<i64> {
    (0..n).map(|i| ((crate::rings::spread((i + 1000 * salt) as u64 + 17) >> 20) % 15) as i64 - 7).map(|x| if x >= 0 { x + 1 } else { x }).collect()
}
/// The structured family of blades with complex coefficients: one element holding them all.
pub fn family_c(d: usize, salt: usize) -> Vec<C> {
    crate::spaces::on(C::new(0., 0.), &cints(1 << d, salt), &crate::enumr::blade_family(d))
}
pub fn tall_nd(d: usize) -> Vec<String> {
    crate::spaces::tall_sigs(d).into_iter().filter(|s| !s.contains('0')).collect()
}
/// The same operand at another scale; powers of two keep the coefficients' digits.
pub fn at_scale(a: &[C], e: i32) -> Vec<C> {
    a.iter().map(|c| c * 2f64.powi(e / 2) * 2f64.powi(e - e / 2)).collect()
}
/// Coefficients of very different sizes in one operand.
pub fn mixed_scale(a: &[C], e: i32) -> Vec<C> {
    a.iter().enumerate().map(|(i, c)| c * 2f64.powi(e * ((i * 5) % 7) as i32 - 3 * e)).collect()
}
/// Full-support complex values with small integer parts.
pub fn cints(n: usize, salt: usize) -> Vec<C> {
    ints(n, salt).iter().zip(ints(n, salt + 500)).map(|(a, b)| C::new(*a as f64, b as f64)).collect()
}
