//! C05: dual, undual and the regressive product obey the duality laws.
use vharness::tclifford::{Multivector, SparseMultivector};
use vharness::*;

#[derive(Clone, Copy)]
struct Meet;
impl Bin for Meet {
    fn pair<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, b: &M, ra: &[T], rb: &[T]) -> Result<(), String> {
        let want = m.meet(ra, rb);
        w.reach(&want);
        same("a.meet(b)", &a.meet_(b), &want)?;
        if m.d <= 8 {
            w.trans(1);
            same("a.naive_meet_impl(b)", &a.naive_meet(b), &want)?;
        }
        Ok(())
    }
}
#[derive(Clone, Copy)]
struct Dual;
impl Un for Dual {
    fn one<T: Co, M: Mv<T>>(&self, w: &W, m: &Model, a: &M, ra: &[T]) -> Result<(), String> {
        let (d, u) = (m.dual(ra), m.undual(ra));
        w.reach(&d);
        w.reach(&u);
        let (id, iu) = (a.dual_(), a.undual_());
        same("a.dual()", &id, &d)?;
        same("a.undual()", &iu, &u)?;
        w.trans(2);
        same("a.dual().undual()", &id.undual_(), ra)?;
        same("a.undual().dual()", &iu.dual_(), ra)
    }
}

/// The defining laws on every basis blade, stated with the library's own products.
fn blades<A: Alg, M: Mv<Sym>>(w: &W, m: &Model) {
    let n = m.n;
    let ps = M::from_blade(n - 1, Sym::int(1));
    for i in 0..n {
        w.case(
            || format!("blade {i:#b}, {}", M::ST),
            || {
                let b = M::from_blade(i, Sym::int(1));
                w.state(&(M::ST, i));
                w.trans(6);
                ensure(|| "dual(b) ^ b is not the unit pseudoscalar".into(), b.dual_().wedge_(&b) == ps)?;
                ensure(|| "b ^ undual(b) is not the unit pseudoscalar".into(), b.wedge_(&b.undual_()) == ps)?;
                ensure(|| "dual(b)*b is not the pseudoscalar".into(), b.dual_().mul_(&b) == ps)?;
                ensure(|| "b*undual(b) is not the pseudoscalar".into(), b.mul_(&b.undual_()) == ps)?;
                ensure(|| "I v b != b".into(), ps.meet_(&b) == b)?;
                ensure(|| "b v I != b".into(), b.meet_(&ps) == b)
            },
        );
    }
    if m.d <= if w.quick { 4 } else { 6 } {
        w.case(
            || format!("associativity of generic a, b, c, {}", M::ST),
            || {
                let (a, b, c) = (syms(n, 0), syms(n, n), syms(n, 2 * n));
                let (ia, ib, ic) = (M::new(&a), M::new(&b), M::new(&c));
                let want = m.meet(&m.meet(&a, &b), &c);
                w.reach(&want);
                w.trans(3);
                let l = ia.meet_(&ib).meet_(&ic);
                same("(avb)vc", &l, &want)?;
                ensure(|| "(avb)vc != av(bvc)".into(), l == ia.meet_(&ib.meet_(&ic)))?;
                w.trans(4);
                ensure(|| "meet is not undual(dual ^ dual)".into(), ia.meet_(&ib) == ia.dual_().wedge_(&ib.dual_()).undual_())
            },
        );
    }
}
struct Blades<'a>(&'a mut Check);
impl Visitor for Blades<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("laws", sig, 1 << (3 * sig.len()), |w| {
            let m = Model::of::<A>();
            blades::<A, Multivector<Sym, A>>(w, &m);
            blades::<A, SparseMultivector<Sym, A>>(w, &m);
        });
    }
}
struct Big<'a>(&'a mut Check);
impl Visitor for Big<'_> {
    fn visit<A: Alg>(&mut self, sig: &str) {
        self.0.alg_task::<A>("structured blades", sig, 1 << 22, |w| {
            let sig = Sig::new(&A::sig());
            let full = (1usize << sig.d) - 1;
            let f = blade_family(sig.d);
            type S<A> = SparseMultivector<i64, A>;
            let dual = |i: usize| sig.wedge_fast(full ^ i, i).0 as i64;
            let undual = |i: usize| sig.wedge_fast(i, full ^ i).0 as i64;
            for &i in &f {
                w.case(
                    || format!("dual of {i:#b}"),
                    || {
                        w.state(&i);
                        w.trans(2);
                        let x = S::<A>::from_blade(i, 5);
                        same_val("dual", x.dual_().entries(), vec![(full ^ i, 5 * dual(i))])?;
                        same_val("undual", x.undual_().entries(), vec![(full ^ i, 5 * undual(i))])
                    },
                );
                for &j in &f {
                    w.case(
                        || format!("blades {i:#b} v {j:#b}"),
                        || {
                            w.state(&(i, j));
                            w.trans(1);
                            let x = S::<A>::from_blade(i, 3);
                            let y = S::<A>::from_blade(j, -7);
                            let (s, k) = sig.wedge_fast(full ^ i, full ^ j);
                            let s = s as i64 * dual(i) * dual(j) * undual(k);
                            let want: Vec<(usize, i64)> = if s == 0 { vec![] } else { vec![(full ^ k, -21 * s)] };
                            same_val("terms of the product", x.meet_(&y).entries(), want)
                        },
                    );
                    if w.stopped() {
                        return;
                    }
                }
            }
        });
    }
}

fn main() {
    let mut c = Check::new("C05");
    c.bounds = "every signature with d<=6: symbolic generic operands, all blades and pairs of blades, one-hole operands, all supports (d<=3) and support pairs (d<=2 quick, d<=3 thorough), value pairs over Z/4 and small integers (d<=2); d=7..10 full operands over a 61-bit prime field, all blades; d up to 63 structured blades; seven signatures each of d=11..14 (thorough 16): full operands (d<=12), families of blades, vectors with full operands".into();
    c.assume("the symbolic coefficients form a free ring, so agreement on generic operands covers all coefficient values except code that branches on particular values; those are covered by the value alphabets");
    add_pairs(&mut c, Meet);
    add_ones(&mut c, Dual);
    visit_sigs(&legal_upto(6), &mut Blades(&mut c));
    decl_small(&mut Blades(&mut c));
    decl_large(&mut PairTasks { check: &mut c, c: Meet, kind: Kind::Mid });
    visit_sigs(&big_sigs(), &mut Big(&mut c));
    decl_big(&mut Big(&mut c));
    c.run()
}
