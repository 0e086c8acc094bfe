//! C02: which programs the compiler accepts. Every case is a program of its own handed to rustc
//! together with the library built from /repo; the verdict is compared with the rule.
//!
//! This is a crate apart from the other checks, which declare algebras themselves and would not
//! build if the macro stopped accepting one.
#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
mod algs {
    pub trait Alg {
        fn enter(sig: &str);
    }
}
use engine::*;
use std::process::{Command, Stdio};

/// Runs rustc on one program; the lines of the program it reports errors in.
fn errors(src: &str) -> Vec<usize> {
    use std::io::Write;
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    let mut c = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "probe", "--emit", "metadata=-", "--cap-lints", "allow"])
        .args(["--error-format", "short", "-A", "warnings"])
        .arg("--extern")
        .arg(format!("tclifford={}", env("C02_RLIB")))
        .arg("-L")
        .arg(format!("dependency={}", env("C02_DEPS")))
        .arg("-")
        .current_dir(env("C02_SCRATCH"))
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustc");
    c.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr);
    let lines: Vec<usize> = e
        .lines()
        .filter(|l| l.contains(": error"))
        .filter_map(|l| l.strip_prefix("<anon>:")?.split(':').next()?.parse().ok())
        .collect();
    match o.status.code() {
        Some(0) => vec![],
        // an error of the program, not of the compiler or of its command line
        Some(1) if !lines.is_empty() => lines,
        _ => panic!("rustc: {:?} {e}", o.status),
    }
}
fn expect(w: &W, what: impl Fn() -> String, want: bool, src: String) {
    w.case(what, || {
        w.state(&src);
        w.trans(1);
        judge(w, errors(&src).is_empty(), want, &src)
    });
}
fn judge(w: &W, got: bool, want: bool, src: &str) -> Result<(), String> {
    w.count(if got { "programs_accepted" } else { "programs_rejected" }, 1);
    if got == want {
        Ok(())
    } else {
        Err(format!("the compiler {} it, but should {}: {}", if got { "accepts" } else { "rejects" }, if want { "accept it" } else { "not" }, src.replace('\n', " ")))
    }
}
/// Functions judged one by one. They are first compiled together, one to a line; one whose line
/// does not get the verdict the rule asks for is compiled again on its own.
fn expect_each(w: &W, decl: &str, fns: &[(String, bool, String)]) {
    let first = decl.lines().count() + 1;
    let all = fns.iter().enumerate().fold(decl.to_string(), |s, (i, f)| s + &f.2.replacen("fn f(", &format!("fn f{i}("), 1));
    let bad = std::cell::OnceCell::new();
    for (i, (what, want, f)) in fns.iter().enumerate() {
        w.case(
            || what.clone(),
            || {
                let src = format!("{decl}{f}");
                let bad = bad.get_or_init(|| {
                    w.state(&decl);
                    w.trans(1);
                    errors(&all)
                });
                let mut got = !bad.contains(&(first + i));
                if got != *want || bad.iter().any(|l| *l < first) {
                    w.trans(1);
                    got = errors(&src).is_empty();
                }
                judge(w, got, *want, &src)
            },
        );
    }
}
fn commas(s: &str) -> String {
    s.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}
fn names(n: usize) -> String {
    (0..n).map(|i| format!("\"n{i}\"")).collect::<Vec<_>>().join(",")
}
/// Every list over {+,-,0} of one length.
fn lists(n: usize) -> Vec<String> {
    let mut r = vec![String::new()];
    for _ in 0..n {
        r = r.iter().flat_map(|s| "+-0".chars().map(move |c| format!("{s}{c}"))).collect();
    }
    r
}
fn legal(s: &str) -> bool {
    let k = s.trim_end_matches('0');
    (1..=63).contains(&s.len()) && !k.contains('0')
}
fn legals(d: usize) -> Vec<String> {
    lists(d).into_iter().filter(|s| legal(s)).collect()
}
const FORMS: [&str; 4] = ["pub ", "pub(crate) ", "pub(super) ", ""];
/// A declaration in the given form; `n` is the number of names, None to leave the list out.
fn declare(form: &str, name: &str, sig: &str, n: Option<usize>) -> String {
    let l = match n {
        None => String::new(),
        Some(k) => format!(", [{}]", names(k)),
    };
    format!("tclifford::declare_algebra!({form}{name}, [{}]{l});\n", commas(sig))
}
fn forms(w: &W, sig: &str, deep: bool) {
    let ok = legal(sig);
    for (i, form) in FORMS.iter().enumerate() {
        if i > 0 && i < 3 && !deep {
            continue;
        }
        let mut ns: Vec<Option<usize>> = vec![Some(0)];
        if *form == "" {
            ns.push(None);
        }
        if deep {
            ns.extend((1..=sig.len() + 2).map(Some));
        } else {
            ns.push(Some(sig.len()));
        }
        for n in ns {
            let good = ok && (n.unwrap_or(0) == 0 || n == Some(sig.len()));
            let src = format!("mod m {{\n{}}}\n", declare(form, "A", sig, n));
            expect(w, || format!("{}[{sig}] {}", form, n.map_or("names left out".into(), |k| format!("{k} names"))), good, src);
        }
    }
}
const HEAD: &str = "use tclifford::*; use tclifford::types::*; use tclifford::pga::PGAMV;\n";

fn prelude() -> String {
    HEAD.to_string()
}
/// Operations available for every algebra and those restricted to some.
fn operations(w: &W, sig: &str) {
    let d = sig.len();
    let decl = prelude() + &declare("pub ", "A", sig, Some(0));
    let nondeg = !sig.contains('0');
    let split = d % 2 == 0 && sig.chars().enumerate().all(|(i, c)| c == if i % 2 == 0 { '+' } else { '-' });
    let pga = d >= 2 && sig.ends_with('0') && sig[..d - 1].chars().all(|c| c == '+');
    let div = sig == "-" || sig == "--";
    let mut t: Vec<(String, bool, String)> = vec![];
    let mut add = |what: &str, ok: bool, args: &str, body: String| t.push((what.into(), ok, format!("pub fn f({args}) {{ {body} }}\n")));
    let mv = "x: Multivector<f64, A>, y: Multivector<f64, A>";
    let sp = "x: SparseMultivector<f64, A>, y: SparseMultivector<f64, A>";
    let ff = "x: FFTRepr<A>, y: FFTRepr<A>";
    for (k, a) in [("dense", mv), ("sparse", sp)] {
        add(
            &format!("{k}: general operations"),
            true,
            a,
            format!("let _ = &x + &y; let _ = &x - &y; let _ = &x * &y; let _ = -&x; let _ = &x * 2.0; let _ = &x / 2.0; let _ = x.wedge(&y); let _ = x.meet(&y); let _ = x.dual().undual().rev().flip().exp().pow(3); let _ = x == y; let _ = x.vdot(&y) + x.vsdot(&y) + x.mag2(); let _ = format!(\"{{x}} {{x:?}} {{x:e}}\"); let _ = Multivector::<i64, A>::basis::<{d}>(); let _ = SparseMultivector::<i64, A>::basis::<{d}>();")
        );
        add(&format!("{k}: division"), div, a, "let _ = x / y;".into());
        add(&format!("{k}: division of references"), div, a, "let _ = &x / &y;".into());
        add(&format!("{k}: point"), pga, a, format!("let _ = <Multivector<f64, A> as PGAMV<{}>>::pga_point([1.0]);", d - 1));
        add(&format!("{k}: hyperplane"), pga, a, "x = { fn g<M: PGAMV<D>, const D: usize>(_: M) -> M { M::pga_hyperplane([1.0]).unwrap() } g(x) };".to_string().replace("x = ", "let _ = "));
        add(&format!("{k}: translation"), pga, a, format!("fn g<M: PGAMV<{}>>(_: M) {{ let _ = M::pga_translation([1.0]); }} g(x);", d - 1));
        add(&format!("{k}: point coordinates"), pga, a, format!("let _: [f64; {}] = x.pga_extract_point();", d - 1));
        add(&format!("{k}: point coordinates of the wrong length"), false, a, format!("let _: [f64; {d}] = x.pga_extract_point();"));
    }
    add("representation: general operations", true, &format!("m: Multivector<f64, A>, {ff}"), format!("let _ = m.fft(); let _ = &x + &y; let _ = &x - &y; let _ = &x * &y; let _ = -&x; let _ = x.exp(); let _ = x.pow(3).rev().flip(); let _ = x.ifft::<f64>(); let _ = x == y; let _ = FFTRepr::<A>::basis::<{d}>(); let _ = x.trace() + x.ntrace() + x.mag2(); let _ = x.clone().into_array3();"));
    add("matrix inverse", nondeg, mv, "let _ = x.fft().inv();".into());
    add("to a matrix", nondeg, ff, "let _ = x.into_array2();".into());
    add("from a matrix", nondeg, ff, "let _ = FFTRepr::<A>::from_array2(y.into_array2());".into());
    add("half-spin representation", nondeg, ff, "let _ = x.into_half_spin_repr();".into());
    add("real transform", split, mv, "let _ = x.real_fft();".into());
    add("matrix inverse after complexification", nondeg, mv, "let z: Multivector<_, _> = x.complexify(); let _ = z.fft().inv();".into());
    add("complexification and back", true, mv, "let z: Multivector<_, _> = x.complexify(); let v: Multivector<f64, A> = z.decomplexify(); let _ = v + y;".into());
    add("complexification mixed with the algebra", false, mv, "let z: Multivector<_, _> = x.complexify(); let v: Multivector<f64, A> = z.decomplexify(); let _ = v * z;".into());
    for e in &mut t {
        e.0 += &format!(" in Cl[{sig}]");
    }
    expect_each(w, &decl, &t);
}
/// Binary operations; `{}` in the types stands for the algebra of the right operand.
fn binaries() -> Vec<(String, String, String)> {
    let mut r = vec![];
    for (k, t) in [("dense", "Multivector<f64, #>"), ("sparse", "SparseMultivector<f64, #>"), ("representation", "FFTRepr<#>")] {
        let mut add = |what: &str, body: &str| r.push((format!("{k}: {what}"), t.to_string(), body.to_string()));
        for op in ["+", "-", "*"] {
            for (a, b) in [("", ""), ("&", ""), ("", "&"), ("&", "&")] {
                add(&format!("{a}x {op} {b}y"), &format!("let _ = {a}x {op} {b}y;"));
            }
        }
        add("x == y", "let _ = x == y;");
        add("x != y", "let _ = x != y;");
        add("approx_eq", "let _ = x.approx_eq(&y, 1.0);");
        add("assignment", "let mut x = x; x = y;");
        add("ref_add", "let _ = x.ref_add(&y);");
        add("ref_sub", "let _ = x.ref_sub(&y);");
        add("ref_mul", "let _ = x.ref_mul(&y);");
        if k != "representation" {
            for m in ["wedge", "meet", "vdot", "vsdot", "naive_mul_impl", "naive_wedge_impl", "naive_meet_impl"] {
                add(m, &format!("let _ = x.{m}(&y);"));
            }
            add("Add::add", "let _ = std::ops::Add::add(x, y);");
            add("Sub::sub", "let _ = std::ops::Sub::sub(&x, &y);");
            add("Mul::mul", "let _ = std::ops::Mul::mul(x, &y);");
            add("conversion to the other storage", if k == "dense" { "let _ = x.to_sparse() + y.to_sparse();" } else { "let _ = x.to_dense() + y.to_dense();" });
            add("storage conversion", "let z: Multivector<f64, _> = x.to_storage_type(); let v: Multivector<f64, _> = y.to_storage_type(); let _ = z * v;");
        } else {
            add("inverse transforms", "let _ = x.ifft::<f64>() + y.ifft::<f64>();");
        }
    }
    r
}
fn mixed(w: &W, decl: &str, a: &str, b: &str) {
    let mut t = vec![];
    for (what, ty, body) in binaries() {
        for (l, r) in [(a, b), (b, a)] {
            let f = format!("pub fn f(x: {}, y: {}) {{ {body} }}\n", ty.replace('#', l), ty.replace('#', r));
            t.push((format!("{what} with x in {l} and y in {r}"), a == b, f));
            if a == b {
                break;
            }
        }
    }
    expect_each(w, &(prelude() + decl), &t);
}
fn divisions(w: &W, decl: &str, a: &str, b: &str) {
    let mut t = vec![];
    for ty in ["Multivector<f64, #>", "SparseMultivector<f64, #>"] {
        for body in ["let _ = x / y;", "let _ = &x / &y;", "let _ = &x / y;", "let _ = x / &y;"] {
            let f = format!("pub fn f(x: {}, y: {}) {{ {body} }}\n", ty.replace('#', a), ty.replace('#', b));
            t.push((format!("{ty} {body} with x in {a} and y in {b}"), a == b, f));
        }
    }
    expect_each(w, &(prelude() + decl), &t);
}
fn main() {
    let mut c = Check::new("C02");
    let quick = c.quick;
    let (all, deep, ops, pairs) = if quick { (5, 3, 6, 2) } else { (7, 5, 7, 3) };
    c.bounds = format!(
        "one program per case, judged by rustc (operations compiled together one to a line, disagreements alone): declarations for every list over {{+,-,0}} of length 0..{all} (without and with names; length <={deep}: every visibility form and every number of names up to two too many), lists of 62..65 generators, 11 lists with other tokens; every restricted operation (13 kinds, dense and sparse) and every general one for every legal signature d<={ops} and 12 larger ones; every binary operation ({}) across every unordered pair of algebras d<={pairs} in both orders, including two types of the same signature and the library's quaternion algebra",
        binaries().len()
    );
    c.assume("states are the sets of declarations a program is compiled against, transitions the runs of rustc, traces the programs judged");
    c.assume("rustc's verdict stands for what any build accepts; every rejected program has an accepted counterpart differing in the judged aspect only");
    for n in 0..=all {
        for s in lists(n) {
            let deep = n <= deep;
            c.task(format!("declaration [{s}]"), 1 + n as u64 * if deep { 20 } else { 1 }, move |w| forms(w, &s, deep));
        }
    }
    for d in [40, 62, 63, 64, 65] {
        let zeros = format!("{}{}", "+".repeat(d - 20), "0".repeat(20));
        let late = format!("{}0{}", "-".repeat(d - 2), "+");
        let mix: String = (0..d).map(|i| if i % 3 == 0 { '-' } else { '+' }).collect();
        for s in ["+".repeat(d), "-".repeat(d), "0".repeat(d), zeros, late, mix] {
            c.task(format!("declaration of {d} generators [{s}]"), 1000, move |w| {
                for (form, n) in [("pub ", Some(0)), ("", None)] {
                    if w.quick && n.is_none() && s.contains('0') {
                        continue;
                    }
                    let src = format!("#![recursion_limit=\"{}\"]\nmod m {{\n{}}}\n", if d <= 63 { 128 } else { 1024 }, declare(form, "A", &s, n));
                    expect(w, || format!("{form}[{s}] {n:?}"), legal(&s), src);
                }
                if !w.quick || s.starts_with("-+") {
                    for n in [d - 1, d, d + 1] {
                        let src = format!("#![recursion_limit=\"1024\"]\nmod m {{\n{}}}\n", declare("pub ", "A", &s, Some(n)));
                        expect(w, || format!("[{s}] with {n} names"), legal(&s) && n == d, src);
                    }
                }
            });
        }
    }
    c.task("declarations with other tokens", 60, |w| {
        for s in ["1", "x", "+,1", "1,+", "-,x,+", "0,1", "*", "+,*", "\"+\"", "-,-,2", "++"] {
            for (form, l) in [("pub ", ", []"), ("", "")] {
                expect(w, || format!("{form}[{s}]"), false, format!("mod m {{ tclifford::declare_algebra!({form}A, [{s}]{l}); }}\n"));
            }
        }
    });
    for n in 1..=ops {
        for s in legals(n) {
            c.task(format!("operations in Cl[{s}]"), 300, move |w| operations(w, &s));
        }
    }
    for s in ["+-+-+-+-", "+-+-+-++", "-+-+-+-+", "+-+-+-+-+-", "+++++++0", "++++++00", "+++-+++0", "--------", "-+++++++", "+++++++++0", "+-+-+-+0", "00000000"] {
        c.task(format!("operations in Cl[{s}]"), 300, move |w| operations(w, s));
    }
    let sigs: Vec<String> = (1..=pairs).flat_map(legals).collect();
    for (i, a) in sigs.iter().enumerate() {
        let (da, db) = (declare("pub ", "A", a, Some(0)), |s: &str| declare("pub ", "B", s, Some(0)));
        let d = da.clone();
        c.task(format!("binary operations within Cl[{a}]"), 500, move |w| mixed(w, &d, "A", "A"));
        for b in &sigs[i..] {
            let d = format!("{da}{}", db(b));
            c.task(format!("operations across Cl[{a}] and Cl[{b}]"), 900, move |w| mixed(w, &d, "A", "B"));
        }
    }
    let q = declare("pub ", "A", "--", Some(0));
    c.task("operations across Cl[--] and the library's quaternion algebra", 900, move |w| mixed(w, &q, "A", "tclifford::quaternion::QuaternionAlgebra"));
    c.task("division within and across the division algebras", 300, |w| {
        for (a, b) in [("-", "-"), ("--", "--"), ("-", "--"), ("--", "-")] {
            let d = declare("pub ", "A", a, Some(0)) + &declare("pub ", "B", b, Some(0));
            divisions(w, &d, "A", "B");
            divisions(w, &d, "A", "A");
            divisions(w, &d, "B", "tclifford::quaternion::QuaternionAlgebra");
        }
    });
    c.run()
}
