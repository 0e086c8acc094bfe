// Generated by tools/gen_algs.py
use super::*;

alg!(A_p, 1, "+", [+]);
alg!(A_m, 1, "-", [-]);
alg!(A_z, 1, "0", [0]);
alg!(A_pp, 2, "++", [+,+]);
alg!(A_pm, 2, "+-", [+,-]);
alg!(A_mp, 2, "-+", [-,+]);
alg!(A_mm, 2, "--", [-,-]);
alg!(A_pz, 2, "+0", [+,0]);
alg!(A_mz, 2, "-0", [-,0]);
alg!(A_zz, 2, "00", [0,0]);
alg!(A_ppp, 3, "+++", [+,+,+]);
alg!(A_ppm, 3, "++-", [+,+,-]);
alg!(A_pmp, 3, "+-+", [+,-,+]);
alg!(A_pmm, 3, "+--", [+,-,-]);
alg!(A_mpp, 3, "-++", [-,+,+]);
alg!(A_mpm, 3, "-+-", [-,+,-]);
alg!(A_mmp, 3, "--+", [-,-,+]);
alg!(A_mmm, 3, "---", [-,-,-]);
alg!(A_ppz, 3, "++0", [+,+,0]);
alg!(A_pmz, 3, "+-0", [+,-,0]);
alg!(A_mpz, 3, "-+0", [-,+,0]);
alg!(A_mmz, 3, "--0", [-,-,0]);
alg!(A_pzz, 3, "+00", [+,0,0]);
alg!(A_mzz, 3, "-00", [-,0,0]);
alg!(A_zzz, 3, "000", [0,0,0]);
alg!(A_pppp, 4, "++++", [+,+,+,+]);
alg!(A_pmmm, 4, "+---", [+,-,-,-]);
alg!(A_mmpp, 4, "--++", [-,-,+,+]);
alg!(A_pppz, 4, "+++0", [+,+,+,0]);
alg!(A_pmzz, 4, "+-00", [+,-,0,0]);
alg!(A_zzzz, 4, "0000", [0,0,0,0]);
alg!(A_ppppp, 5, "+++++", [+,+,+,+,+]);
alg!(A_mpmpm, 5, "-+-+-", [-,+,-,+,-]);
alg!(A_ppppz, 5, "++++0", [+,+,+,+,0]);
alg!(A_pmzzz, 5, "+-000", [+,-,0,0,0]);
alg!(A_pppppp, 6, "++++++", [+,+,+,+,+,+]);
alg!(A_pmpmpm, 6, "+-+-+-", [+,-,+,-,+,-]);
alg!(A_pppppz, 6, "+++++0", [+,+,+,+,+,0]);
alg!(A_mppmzz, 6, "-++-00", [-,+,+,-,0,0]);
alg!(A_ppzzzz, 6, "++0000", [+,+,0,0,0,0]);
alg!(A_zzzzzz, 6, "000000", [0,0,0,0,0,0]);
alg!(A_ppppppp, 7, "+++++++", [+,+,+,+,+,+,+]);
alg!(A_mpmpmzz, 7, "-+-+-00", [-,+,-,+,-,0,0]);
alg!(A_pppppppp, 8, "++++++++", [+,+,+,+,+,+,+,+]);
alg!(A_pmpmzzzz, 8, "+-+-0000", [+,-,+,-,0,0,0,0]);
alg!(A_pppmmmpppzzz, 12, "+++---+++000", [+,+,+,-,-,-,+,+,+,0,0,0]);
alg!(A_pppmmmpppmmmpzzzz, 17, "+++---+++---+0000", [+,+,+,-,-,-,+,+,+,-,-,-,+,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmzzzzzzz, 31, "+++---+++---+++---+++---0000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmzzzzzzzz, 32, "+++---+++---+++---+++---00000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpzzzzzzzz, 33, "+++---+++---+++---+++---+00000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzzzzz, 63, "+++---+++---+++---+++---+++---+++---+++---+++---000000000000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]);
pub fn decl_small<V: Visitor>(v: &mut V) {
    v.visit::<A_p>("+");
    v.visit::<A_m>("-");
    v.visit::<A_z>("0");
    v.visit::<A_pp>("++");
    v.visit::<A_pm>("+-");
    v.visit::<A_mp>("-+");
    v.visit::<A_mm>("--");
    v.visit::<A_pz>("+0");
    v.visit::<A_mz>("-0");
    v.visit::<A_zz>("00");
    v.visit::<A_ppp>("+++");
    v.visit::<A_ppm>("++-");
    v.visit::<A_pmp>("+-+");
    v.visit::<A_pmm>("+--");
    v.visit::<A_mpp>("-++");
    v.visit::<A_mpm>("-+-");
    v.visit::<A_mmp>("--+");
    v.visit::<A_mmm>("---");
    v.visit::<A_ppz>("++0");
    v.visit::<A_pmz>("+-0");
    v.visit::<A_mpz>("-+0");
    v.visit::<A_mmz>("--0");
    v.visit::<A_pzz>("+00");
    v.visit::<A_mzz>("-00");
    v.visit::<A_zzz>("000");
}
pub fn decl_nd_small<V: NdVisitor>(v: &mut V) {
    v.visit::<A_p>("+");
    v.visit::<A_m>("-");
    v.visit::<A_pp>("++");
    v.visit::<A_pm>("+-");
    v.visit::<A_mp>("-+");
    v.visit::<A_mm>("--");
    v.visit::<A_ppp>("+++");
    v.visit::<A_ppm>("++-");
    v.visit::<A_pmp>("+-+");
    v.visit::<A_pmm>("+--");
    v.visit::<A_mpp>("-++");
    v.visit::<A_mpm>("-+-");
    v.visit::<A_mmp>("--+");
    v.visit::<A_mmm>("---");
}
pub fn decl_mid<V: Visitor>(v: &mut V) {
    v.visit::<A_pppp>("++++");
    v.visit::<A_pmmm>("+---");
    v.visit::<A_mmpp>("--++");
    v.visit::<A_pppz>("+++0");
    v.visit::<A_pmzz>("+-00");
    v.visit::<A_zzzz>("0000");
    v.visit::<A_ppppp>("+++++");
    v.visit::<A_mpmpm>("-+-+-");
    v.visit::<A_ppppz>("++++0");
    v.visit::<A_pmzzz>("+-000");
    v.visit::<A_pppppp>("++++++");
    v.visit::<A_pmpmpm>("+-+-+-");
    v.visit::<A_pppppz>("+++++0");
    v.visit::<A_mppmzz>("-++-00");
    v.visit::<A_ppzzzz>("++0000");
    v.visit::<A_zzzzzz>("000000");
}
pub fn decl_nd_mid<V: NdVisitor>(v: &mut V) {
    v.visit::<A_pppp>("++++");
    v.visit::<A_pmmm>("+---");
    v.visit::<A_mmpp>("--++");
    v.visit::<A_ppppp>("+++++");
    v.visit::<A_mpmpm>("-+-+-");
    v.visit::<A_pppppp>("++++++");
    v.visit::<A_pmpmpm>("+-+-+-");
}
pub fn decl_large<V: Visitor>(v: &mut V) {
    v.visit::<A_ppppppp>("+++++++");
    v.visit::<A_mpmpmzz>("-+-+-00");
    v.visit::<A_pppppppp>("++++++++");
    v.visit::<A_pmpmzzzz>("+-+-0000");
}
pub fn decl_nd_large<V: NdVisitor>(v: &mut V) {
    v.visit::<A_ppppppp>("+++++++");
    v.visit::<A_pppppppp>("++++++++");
}
pub fn decl_big<V: Visitor>(v: &mut V) {
    v.visit::<A_pppmmmpppzzz>("+++---+++000");
    v.visit::<A_pppmmmpppmmmpzzzz>("+++---+++---+0000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmzzzzzzz>("+++---+++---+++---+++---0000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmzzzzzzzz>("+++---+++---+++---+++---00000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpzzzzzzzz>("+++---+++---+++---+++---+00000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzzzzz>("+++---+++---+++---+++---+++---+++---+++---+++---000000000000000");
}
