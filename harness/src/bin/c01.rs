//! C01: a declared signature fixes the dimension, metric, basis and names.
#![recursion_limit = "512"]
use vharness::tclifford::types::Sign;
use vharness::tclifford::{ClAlgebra, Multivector, SparseMultivector};
use vharness::*;

/// Every legal signature up to dimension 6 and a spread of larger ones, each a type of its own.
#[allow(non_camel_case_types, dead_code)]
mod every {
    use vharness::tclifford::{declare_algebra, ClBasis, FFTRepr, Multivector, SparseMultivector};
    use vharness::*;
    include!("../algs_all.rs");
}
/// Declarations with the other visibility and naming forms of the macro.
mod forms {
    use vharness::tclifford::declare_algebra;
    pub mod inner {
        use vharness::tclifford::declare_algebra;
        declare_algebra!(pub Public, [+,-,0], ["x", "y", "n"]);
        declare_algebra!(pub(crate) Crate, [-,+,+,0,0], ["a", "b", "c", "d", "e"]);
        declare_algebra!(pub(super) Super, [-,-], ["I", "J"]);
        declare_algebra!(pub PublicPlain, [-,+,0], []);
        declare_algebra!(pub(crate) CratePlain, [+,-,-], []);
        declare_algebra!(pub(super) SuperPlain, [0,0], []);
    }
    declare_algebra!(Private, [+,+,-,-,0], ["e1", "e0", "long name", "z", "0"]);
    declare_algebra!(PrivatePlain, [-,+,-,0]);
    declare_algebra!(PrivateEmpty, [+,0,0], []);
    declare_algebra!(Single, [0], ["eps"]);
    declare_algebra!(SinglePlain, [-]);
    declare_algebra!(Twelve, [+,+,+,+,+,+,-,-,-,0,0,0], ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"]);
    declare_algebra!(TwelvePlain, [-,+,+,+,+,+,-,-,+,0,0,0]);
    pub fn visit(f: &mut dyn FnMut(&str, &str, &[&str], crate::Facts)) {
        use crate::facts;
        let e = |n: usize| -> Vec<&'static str> { vec!["e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11"][..n].to_vec() };
        f("pub, names", "+-0", &["x", "y", "n"], facts::<inner::Public>());
        f("pub(crate), names", "-++00", &["a", "b", "c", "d", "e"], facts::<inner::Crate>());
        f("pub(super), names", "--", &["I", "J"], facts::<inner::Super>());
        f("pub, no names", "-+0", &e(3), facts::<inner::PublicPlain>());
        f("pub(crate), no names", "+--", &e(3), facts::<inner::CratePlain>());
        f("pub(super), no names", "00", &e(2), facts::<inner::SuperPlain>());
        f("private, names", "++--0", &["e1", "e0", "long name", "z", "0"], facts::<Private>());
        f("private, names left out", "-+-0", &e(4), facts::<PrivatePlain>());
        f("private, empty names", "+00", &e(3), facts::<PrivateEmpty>());
        f("single, name", "0", &["eps"], facts::<Single>());
        f("single, names left out", "-", &e(1), facts::<SinglePlain>());
        f("twelve names", "++++++---000", &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"], facts::<Twelve>());
        f("twelve, names left out", "-+++++--+000", &e(12), facts::<TwelvePlain>());
    }
}
/// What an algebra type says about itself.
#[derive(Clone, Debug, PartialEq)]
pub struct Facts {
    dim: usize,
    dims: [usize; 3],
    masks: [usize; 3],
    names: Vec<String>,
    labels: Vec<(usize, String, String)>,
    squares: Vec<i64>,
}
pub fn facts<A: ClAlgebra>() -> Facts {
    let d = A::dim();
    let idx: Vec<usize> = if d <= 10 { (0..1usize << d).collect() } else { blade_family(d) };
    Facts {
        dim: d,
        dims: [A::real_dim(), A::imag_dim(), A::proj_dim()],
        masks: [A::real_mask(), A::imag_mask(), A::proj_mask()],
        names: (0..d).map(|i| A::axis_name(i)).collect(),
        labels: idx.iter().map(|i| (*i, A::blade_label(*i), A::blade_label_rev(*i))).collect(),
        squares: (0..d)
            .map(|k| {
                let e = SparseMultivector::<i64, A>::zero().set_by_idx(1 << k, 1);
                (&e * &e).get_by_idx(0)
            })
            .collect(),
    }
}
use num::{One, Zero};
fn judge(f: &Facts, sig: &str, names: &[String]) -> Result<(), String> {
    let s = Sig::new(sig);
    let pick = |q: i8| -> usize { s.q.iter().enumerate().filter(|(_, x)| **x == q).map(|(i, _)| 1usize << i).sum() };
    same_val("dimension", f.dim, s.d)?;
    same_val("masks", f.masks, [pick(1), pick(-1), pick(0)])?;
    same_val("dimension counts", f.dims, [1, -1, 0].map(|q| s.q.iter().filter(|x| **x == q).count()))?;
    same_val("names", f.names.clone(), names.to_vec())?;
    same_val("squares", f.squares.clone(), s.q.iter().map(|x| *x as i64).collect())?;
    for (i, down, up) in &f.labels {
        let mut w: Vec<String> = word(*i).iter().map(|g| names[*g as usize].clone()).collect();
        same_val("blade label", down.clone(), w.join("^"))?;
        w.reverse();
        same_val("ascending blade label", up.clone(), w.join("^"))?;
    }
    Ok(())
}
fn sg(s: Sign) -> i8 {
    match s {
        Sign::Plus => 1,
        Sign::Minus => -1,
        Sign::Null => 0,
    }
}
/// Multiply generators in descending order.
fn descending<T: Co, M: Mv<T>>(e: &[M], idx: usize) -> M {
    let mut r = M::one_();
    for g in word(idx) {
        r = r.mul_(&e[g as usize]);
    }
    r
}
fn run<A: Alg>(w: &W) {
    let sig = A::sig();
    let s = Sig::new(&sig);
    let d = s.d;
    let names: Vec<String> = (0..d).map(|i| format!("e{i}")).collect();
    w.case(
        || "declared facts".into(),
        || {
            let f = facts::<A>();
            w.state(&format!("{f:?}"));
            w.trans(1);
            judge(&f, &sig, &names)
        },
    );
    w.case(
        || "reported signature".into(),
        || {
            if A::basis_sp::<i64>().len() == d {
                w.state(&"signature");
                w.trans(2);
                same_val("signature()", A::sig_i8(), s.q.clone())?;
                same_val("signaturef()", A::sig_f64(), s.q.iter().map(|x| *x as f64).collect())?;
            }
            Ok(())
        },
    );
    // sparse works in every dimension
    w.case(
        || "sparse basis".into(),
        || {
            let e = A::basis_sp::<i64>();
            same_val("length of the basis", e.len(), d)?;
            for (k, x) in e.iter().enumerate() {
                same_val("entries of a basis vector", x.entries(), vec![(1 << k, 1)])?;
                w.state(&("sparse", k));
                for (l, y) in e.iter().enumerate() {
                    let p = x.mul_(y).entries();
                    w.trans(1);
                    let want = if k == l {
                        if s.q[k] == 0 { vec![] } else { vec![(0, s.q[k] as i64)] }
                    } else {
                        vec![(1 << k | 1 << l, if k > l { 1 } else { -1 })]
                    };
                    same_val(&format!("e{k}*e{l}"), p, want)?;
                }
            }
            let which: Vec<usize> = if d <= 8 { (0..1usize << d).collect() } else { blade_family(d) };
            for i in which {
                w.trans(1);
                w.state(&("blade", i));
                same_val(&format!("product of the generators of {i:#b}"), descending(&e, i).entries(), vec![(i, 1)])?;
            }
            Ok(())
        },
    );
    if d <= 10 {
        let m = Model::of::<A>();
        w.case(
            || "dense basis".into(),
            || {
                let e = A::basis_dense::<i64>();
                let g = A::basis_fft::<i64>();
                same_val("length of the basis", e.len(), d)?;
                same_val("length of the representation's basis", g.len(), d)?;
                for (k, x) in e.iter().enumerate() {
                    w.state(&("dense", k));
                    same("basis vector", x, &blade(m.n, 1 << k, 1))?;
                    near("basis vector's representation", &g[k], &repr(&blade(m.n, 1 << k, num::complex::Complex64::one())), 1e-13)?;
                    for (l, y) in e.iter().enumerate() {
                        w.trans(1);
                        let want = if k == l { blade(m.n, 0, s.q[k] as i64) } else { blade(m.n, 1 << k | 1 << l, if k > l { 1 } else { -1 }) };
                        same(&format!("e{k}*e{l}"), &x.mul_(y), &want)?;
                    }
                }
                for i in 0..m.n {
                    w.trans(1);
                    same(&format!("product of the generators of {i:#b}"), &descending(&e, i), &blade(m.n, i, 1))?;
                }
                let z = Multivector::<i64, A>::zero();
                same_val("number of dense coefficients", z.coeff_array_view().len(), m.n)
            },
        );
        w.case(
            || "sign tables".into(),
            || {
                for a in 0..m.n {
                    for b in 0..m.n {
                        w.trans(2);
                        same_val(&format!("sign of {a:#b}*{b:#b}"), sg(A::blade_geo_product_sign(a, b)), m.g(a, b))?;
                        same_val(&format!("sign of {a:#b}^{b:#b}"), sg(A::blade_wedge_product_sign(a, b)), m.w(a, b))?;
                    }
                    w.state(&("signs", a));
                }
                Ok(())
            },
        );
    } else {
        w.case(
            || "signs of blade families".into(),
            || {
                let fam = blade_family(d);
                for &a in &fam {
                    for &b in &fam {
                        w.trans(2);
                        w.state(&(a, b));
                        same_val(&format!("sign of {a:#b}*{b:#b}"), sg(A::blade_geo_product_sign(a, b)), s.geo_fast(a, b).0)?;
                        same_val(&format!("sign of {a:#b}^{b:#b}"), sg(A::blade_wedge_product_sign(a, b)), s.wedge_fast(a, b).0)?;
                    }
                }
                Ok(())
            },
        );
    }
}
struct V<'a>(&'a mut Check);
impl Visitor for V<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("declaration", sig, 1 << sig.len().min(12), run::<A>);
    }
}
fn main() {
    let mut c = Check::new("C01");
    c.bounds = "a type declared with the macro for every legal signature d<=6 (246) and 28 signatures of dimension 7..63: masks, counts, signature arrays, names, labels of all blades (families of blades above d=10), dense, sparse and matrix bases, all products of two generators, descending products of all blades, sign tables of all blade pairs (families of blades above d=10); 13 declarations covering every visibility and naming form".into();
    every::visit_all(&mut V(&mut c));
    c.task("visibility and naming forms", 1, |w| {
        forms::visit(&mut |what, sig, names, f| {
            w.case(
                || format!("{what}: [{sig}]"),
                || {
                    w.state(&format!("{f:?}"));
                    w.trans(1);
                    judge(&f, sig, &names.iter().map(|s| s.to_string()).collect::<Vec<_>>())
                },
            );
        })
    });
    c.run()
}
