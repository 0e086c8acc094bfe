//! C22: the printed form lists exactly the non-zero terms and can be read back.
use num::complex::Complex64 as C;
use num::rational::Ratio;
use num::Zero;
use std::fmt::{Display, LowerExp, UpperExp};
use vharness::tclifford::quaternion::Quaternion;
use vharness::tclifford::{declare_algebra, ClBasis, FFTRepr, Multivector, SparseMultivector};
use vharness::*;

alg!(Plain, 3, "+-0", [+,-,0]);
mod named {
    use super::*;
    declare_algebra!(pub Named, [+,+,-,0], ["x", "alpha", "t2", "n_"]);
    declare_algebra!(pub One, [-], ["i"]);
}

fn dflt(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("e{i}")).collect()
}
fn label(names: &[String], idx: usize, ascending: bool) -> String {
    let mut w = word(idx);
    if ascending {
        w.reverse();
    }
    w.iter().map(|g| names[*g as usize].clone()).collect::<Vec<_>>().join("^")
}
/// Split at " + " outside parentheses.
fn terms(s: &str) -> Vec<String> {
    let (mut r, mut depth, mut from) = (vec![], 0i32, 0);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            b'+' if depth == 0 && i > 0 && b[i - 1] == b' ' && i + 1 < b.len() && b[i + 1] == b' ' => {
                r.push(s[from..i - 1].to_string());
                from = i + 2;
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    r.push(s[from..].to_string());
    r
}
/// How one flag combination formats a coefficient and a whole multivector.
struct Flag<T, M> {
    name: &'static str,
    co: fn(&T) -> String,
    plain: fn(&T) -> String,
    mv: fn(&M) -> String,
    alt: bool,
    plus: bool,
}
macro_rules! flags {
    ($($f:literal $plain:literal $alt:literal $plus:literal),+) => { vec![$(Flag { name: $f, co: |c| format!($f, c), plain: |c| format!($plain, c), mv: |m| format!($f, m), alt: $alt, plus: $plus }),+] };
}
fn display_flags<T: Display, M: Display>() -> Vec<Flag<T, M>> {
    flags!("{}" "{}" false false, "{:#}" "{}" true false, "{:+}" "{}" false true, "{:+#}" "{}" true true, "{:.2}" "{}" false false, "{:.0}" "{}" false false, "{:7}" "{}" false false, "{:>9.3}" "{}" false false, "{:<8}" "{}" false false, "{:#.1}" "{}" true false)
}
fn exp_flags<T: LowerExp + UpperExp, M: LowerExp + UpperExp>() -> Vec<Flag<T, M>> {
    flags!("{:e}" "{:e}" false false, "{:E}" "{:E}" false false, "{:#e}" "{:e}" true false, "{:#E}" "{:E}" true false, "{:+e}" "{:e}" false true, "{:.2e}" "{:e}" false false, "{:.3E}" "{:E}" false false)
}
fn check<T: Co, M: Mv<T>>(w: &W, m: &Model, names: &[String], a: &[T], fl: &[Flag<T, M>], parse: Option<fn(&str) -> T>) {
    w.case(
        || format!("{} text of {}", M::ST, show(a)),
        || {
            let x = M::new(a);
            w.state(&(M::ST, std::any::type_name::<T>(), fp(a)));
            for f in fl {
                let text = (f.mv)(&x);
                w.state(&(f.name, &text));
                w.trans(1);
                let nz: Vec<usize> = (0..m.n).filter(|i| !a[*i].is_zero()).collect();
                if nz.is_empty() {
                    same_val(&format!("zero under {}", f.name), text.clone(), (f.co)(&T::zero()))?;
                    continue;
                }
                // expected terms, in any order
                let mut got = terms(&text);
                got.sort();
                let mut want = vec![];
                for &i in &nz {
                    let c = if f.alt { signed(m.revs[i], &a[i]) } else { a[i].clone() };
                    let (s, p) = ((f.co)(&c), (f.plain)(&c));
                    let sign = f.plus || s.contains(['+', '-']);
                    // when rounding by the flags removes a sign either form is fine
                    let either = !f.plus && (p.contains(['+', '-']) != s.contains(['+', '-']));
                    let l = label(names, i, f.alt);
                    let tail = if l.is_empty() { String::new() } else { format!(" {l}") };
                    let mut alts = vec![];
                    if sign || either {
                        alts.push(format!("({s}){tail}"));
                    }
                    if !sign || either {
                        alts.push(format!("{s}{tail}"));
                    }
                    want.push(alts);
                }
                for alts in &want {
                    let at = got.iter().position(|g| alts.contains(g));
                    match at {
                        Some(k) => {
                            got.remove(k);
                        }
                        None => return Err(format!("under {} the text is {text:?}; the term {:?} is missing", f.name, alts[0])),
                    }
                }
                ensure(|| format!("under {} the text {text:?} has extra terms {got:?}", f.name), got.is_empty())?;
                // reading it back
                if let (Some(parse), "{}" | "{:#}" | "{:+}" | "{:+#}" | "{:e}" | "{:E}" | "{:#e}" | "{:#E}" | "{:+e}") = (parse, f.name) {
                    let mut v = vec![T::zero(); m.n];
                    for t in terms(&text) {
                        let (c, l) = if let Some(rest) = t.strip_prefix('(') {
                            let k = rest.rfind(')').ok_or(format!("unbalanced term {t:?}"))?;
                            (rest[..k].to_string(), rest[k + 1..].trim().to_string())
                        } else {
                            match t.split_once(' ') {
                                Some((c, l)) => (c.to_string(), l.to_string()),
                                None => (t.clone(), String::new()),
                            }
                        };
                        // multiply the named generators in the order they are written
                        let mut wd = vec![];
                        for g in l.split('^').filter(|g| !g.is_empty()) {
                            wd.push(names.iter().position(|n| n == g).ok_or(format!("unknown generator {g:?} in {text:?}"))? as u8);
                        }
                        let (s, i) = normalise(wd, &|_| 0);
                        v[i] = v[i].clone() + signed(s, &parse(&c));
                    }
                    ensure(|| format!("under {} the text {text:?} reads back as {}", f.name, show(&v)), v == a)?;
                }
            }
            Ok(())
        },
    );
}
fn p_i64(s: &str) -> i64 {
    s.parse().unwrap_or(i64::MIN)
}
fn p_f64(s: &str) -> f64 {
    s.parse().unwrap_or(f64::INFINITY)
}
fn p_ratio(s: &str) -> Ratio<i64> {
    s.trim_start_matches('+').parse().unwrap_or(Ratio::from_integer(i64::MAX))
}
fn p_complex(s: &str) -> C {
    // num writes a negative zero real part as "+-0" under the plus flag
    s.trim_start_matches('+').parse().unwrap_or(C::new(f64::MAX, f64::MAX))
}
fn family(n: usize, d: usize) -> Vec<Vec<i64>> {
    match d {
        1 => list_vecs(&[-12, -1, 0, 1, 7], n),
        2 => list_vecs(&[-1, 0, 1, 30], n),
        3 => list_vecs(&[-1, 0, 2], n),
        _ => subsets_upto(n, if d <= 4 { 2 } else { 1 })
            .into_iter()
            .map(|s| {
                let mut v = vec![0; n];
                for (k, x) in s.iter().enumerate() {
                    v[*x] = [3, -14][k];
                }
                v
            })
            .chain((0..3).map(|s| ints(n, s)))
            .chain(structured_supports(d).iter().map(|s| on(0, &ints(n, 1), s)))
            .collect(),
    }
}
const FS: [f64; 16] = [0., 1., -1., 0.5, -0.25, 1e-7, -1e-7, 1e21, -1e21, 123456.75, 1. / 3., 0.99, -0.004, 1e-300, f64::MAX, 5e-324];
fn body<A: Alg>(w: &W, names: &[String]) {
    let m = Model::of::<A>();
    let n = m.n;
    let vs = family(n, m.d);
    for v in &vs {
        check::<i64, Multivector<i64, A>>(w, &m, names, v, &display_flags(), Some(p_i64));
        check::<i64, SparseMultivector<i64, A>>(w, &m, names, v, &display_flags(), Some(p_i64));
        check::<i64, Multivector<i64, A>>(w, &m, names, v, &exp_flags(), None);
    }
    let mut fv: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        for f in FS {
            fv.push(blade(n, i, f));
        }
    }
    for s in 0..3 {
        fv.push((0..n).map(|i| FS[(i * 5 + s * 3 + 1) % FS.len()]).collect());
    }
    if m.d == 1 {
        fv.extend(list_vecs(&FS, 2));
    }
    for v in &fv {
        check::<f64, Multivector<f64, A>>(w, &m, names, v, &display_flags(), Some(p_f64));
        check::<f64, Multivector<f64, A>>(w, &m, names, v, &exp_flags(), Some(p_f64));
        check::<f64, SparseMultivector<f64, A>>(w, &m, names, v, &display_flags(), Some(p_f64));
        check::<f64, SparseMultivector<f64, A>>(w, &m, names, v, &exp_flags(), Some(p_f64));
    }
    for (k, v) in vs.iter().enumerate().step_by(if vs.len() > 200 { 3 } else { 1 }) {
        let r: Vec<Ratio<i64>> = v.iter().enumerate().map(|(i, x)| Ratio::new(*x, 1 + ((i + k) % 4) as i64)).collect();
        check::<Ratio<i64>, Multivector<Ratio<i64>, A>>(w, &m, names, &r, &display_flags(), Some(p_ratio));
        check::<Ratio<i64>, SparseMultivector<Ratio<i64>, A>>(w, &m, names, &r, &display_flags(), Some(p_ratio));
        let c: Vec<C> = v.iter().enumerate().map(|(i, x)| if *x == 0 { C::zero() } else { C::new((*x * (i as i64 % 2)) as f64, *x as f64 / 2.) }).collect();
        check::<C, Multivector<C, A>>(w, &m, names, &c, &display_flags(), Some(p_complex));
        check::<C, SparseMultivector<C, A>>(w, &m, names, &c, &display_flags(), Some(p_complex));
        check::<C, Multivector<C, A>>(w, &m, names, &c, &exp_flags(), None);
        // multivectors inside multivectors
        type In = Multivector<i64, Plain>;
        let nest: Vec<In> = v.iter().enumerate().map(|(i, x)| In::new(&blade(8, i % 8, *x)) + In::new(&blade(8, (i + k) % 8, *x))).collect();
        check::<In, Multivector<In, A>>(w, &m, names, &nest, &display_flags(), None);
        check::<In, SparseMultivector<In, A>>(w, &m, names, &nest, &display_flags(), None);
    }
}
struct V<'a>(&'a mut Check);
impl Visitor for V<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        let names = dflt(sig.len());
        self.0.alg_task::<A>("printed form", sig, 1 << (2 * sig.len()), move |w| body::<A>(w, &names));
    }
}
macro_rules! as_alg {
    ($t:ty, $d:literal, $s:literal) => {
        impl Alg for $t {
            fn enter(_: &str) {}
            fn sig() -> String { $s.to_string() }
            fn basis_dense<T: Co>() -> Vec<Multivector<T, Self>> { <$t as ClBasis<$d>>::basis::<T>().into_iter().collect() }
            fn basis_sp<T: Co>() -> Vec<SparseMultivector<T, Self>> { <$t as ClBasis<$d>>::basis_sparse::<T>().into_iter().collect() }
            fn basis_fft<Z: Co>() -> Vec<FFTRepr<Self>> { vec![] }
            fn sig_i8() -> Vec<i8> { vec![] }
            fn sig_f64() -> Vec<f64> { vec![] }
        }
    };
}
as_alg!(named::Named, 4, "++-0");
as_alg!(named::One, 1, "-");
fn quats(w: &W) {
    let m = Model::new(&Sig::new("--"));
    let names = vec!["I".to_string(), "J".to_string()];
    all_vecs(&[-12i64, -1, 0, 1, 7], 4, |v| check::<i64, Quaternion<i64>>(w, &m, &names, v, &display_flags(), Some(p_i64)));
    all_vecs(&[0f64, -0.5, 1e-7, 3.], 4, |v| {
        check::<f64, Quaternion<f64>>(w, &m, &names, v, &display_flags(), Some(p_f64));
        check::<f64, Quaternion<f64>>(w, &m, &names, v, &exp_flags(), Some(p_f64));
    });
}
/// Many generators: names of two digits, few terms.
fn big(w: &W) {
    let d = 20;
    let names = dflt(d);
    for i in blade_family(d) {
        for j in blade_family(d).into_iter().step_by(5) {
            w.case(
                || format!("text of blades {i:#b} and {j:#b} of Cl(20)"),
                || {
                    if i == j {
                        return Ok(());
                    }
                    let x = SparseMultivector::<i64, Dy>::from_pairs(&[(i, 5), (j, -6)]);
                    let text = format!("{x}");
                    w.state(&text);
                    w.trans(2);
                    let sp = |k: usize| if k == 0 { String::new() } else { " ".to_string() };
                    let mut want = vec![format!("5{}{}", sp(i), label(&names, i, false)), format!("(-6){}{}", sp(j), label(&names, j, false))];
                    let mut got = terms(&text);
                    want.sort();
                    got.sort();
                    same_val("terms", got, want)?;
                    let (a, b) = (5 * Sig::rev_sign(i) as i64, -6 * Sig::rev_sign(j) as i64);
                    let one = |c: i64, k: usize| if c < 0 { format!("({c}){}{}", sp(k), label(&names, k, true)) } else { format!("{c}{}{}", sp(k), label(&names, k, true)) };
                    let mut want = vec![one(a, i), one(b, j)];
                    let mut got = terms(&format!("{x:#}"));
                    want.sort();
                    got.sort();
                    same_val("alternate terms", got, want)
                },
            );
        }
    }
}
fn main() {
    let mut c = Check::full("C22");
    c.bounds = "every signature d<=4 and every third (thorough: every) of d=5, 6: all small integer values (d<=3), all one- and two-term values (d=4), one-term and full values and values supported on grades or on the blades over a subset of the generators above; 16 floating values at every blade; integers, floats, rationals, complex numbers and nested multivectors; 17 flag combinations; given names; families of blades of a 20-dimensional algebra".into();
    c.assume("terms may come in any order; when rounding by a precision flag removes the sign of an exponent, parentheses may be present or not");
    visit_sigs(&legal_upto(4), &mut V(&mut c));
    let k = if c.deep { 1 } else { 3 };
    visit_sigs(&legal(5).into_iter().chain(legal(6)).step_by(k).collect::<Vec<_>>(), &mut V(&mut c));
    decl_small(&mut V(&mut c));
    c.alg_task::<named::Named>("printed form with given names", "++-0", 900, |w| body::<named::Named>(w, &["x", "alpha", "t2", "n_"].map(String::from)));
    c.alg_task::<named::One>("printed form with given names", "-", 900, |w| body::<named::One>(w, &["i"].map(String::from)));
    c.task("printed quaternions", 900, quats);
    c.alg_task::<Dy>("printed form, many generators", &"+".repeat(20), 900, big);
    c.run()
}
