// Generated by tools/gen_algs.py
alg!(A_p, 1, "+", [+]);
alg!(A_m, 1, "-", [-]);
alg!(A_z, 1, "0", [0]);
alg!(A_pp, 2, "++", [+,+]);
alg!(A_pm, 2, "+-", [+,-]);
alg!(A_mp, 2, "-+", [-,+]);
alg!(A_mm, 2, "--", [-,-]);
alg!(A_pz, 2, "+0", [+,0]);
alg!(A_mz, 2, "-0", [-,0]);
alg!(A_zz, 2, "00", [0,0]);
alg!(A_ppp, 3, "+++", [+,+,+]);
alg!(A_ppm, 3, "++-", [+,+,-]);
alg!(A_pmp, 3, "+-+", [+,-,+]);
alg!(A_pmm, 3, "+--", [+,-,-]);
alg!(A_mpp, 3, "-++", [-,+,+]);
alg!(A_mpm, 3, "-+-", [-,+,-]);
alg!(A_mmp, 3, "--+", [-,-,+]);
alg!(A_mmm, 3, "---", [-,-,-]);
alg!(A_ppz, 3, "++0", [+,+,0]);
alg!(A_pmz, 3, "+-0", [+,-,0]);
alg!(A_mpz, 3, "-+0", [-,+,0]);
alg!(A_mmz, 3, "--0", [-,-,0]);
alg!(A_pzz, 3, "+00", [+,0,0]);
alg!(A_mzz, 3, "-00", [-,0,0]);
alg!(A_zzz, 3, "000", [0,0,0]);
alg!(A_pppp, 4, "++++", [+,+,+,+]);
alg!(A_pppm, 4, "+++-", [+,+,+,-]);
alg!(A_ppmp, 4, "++-+", [+,+,-,+]);
alg!(A_ppmm, 4, "++--", [+,+,-,-]);
alg!(A_pmpp, 4, "+-++", [+,-,+,+]);
alg!(A_pmpm, 4, "+-+-", [+,-,+,-]);
alg!(A_pmmp, 4, "+--+", [+,-,-,+]);
alg!(A_pmmm, 4, "+---", [+,-,-,-]);
alg!(A_mppp, 4, "-+++", [-,+,+,+]);
alg!(A_mppm, 4, "-++-", [-,+,+,-]);
alg!(A_mpmp, 4, "-+-+", [-,+,-,+]);
alg!(A_mpmm, 4, "-+--", [-,+,-,-]);
alg!(A_mmpp, 4, "--++", [-,-,+,+]);
alg!(A_mmpm, 4, "--+-", [-,-,+,-]);
alg!(A_mmmp, 4, "---+", [-,-,-,+]);
alg!(A_mmmm, 4, "----", [-,-,-,-]);
alg!(A_pppz, 4, "+++0", [+,+,+,0]);
alg!(A_ppmz, 4, "++-0", [+,+,-,0]);
alg!(A_pmpz, 4, "+-+0", [+,-,+,0]);
alg!(A_pmmz, 4, "+--0", [+,-,-,0]);
alg!(A_mppz, 4, "-++0", [-,+,+,0]);
alg!(A_mpmz, 4, "-+-0", [-,+,-,0]);
alg!(A_mmpz, 4, "--+0", [-,-,+,0]);
alg!(A_mmmz, 4, "---0", [-,-,-,0]);
alg!(A_ppzz, 4, "++00", [+,+,0,0]);
alg!(A_pmzz, 4, "+-00", [+,-,0,0]);
alg!(A_mpzz, 4, "-+00", [-,+,0,0]);
alg!(A_mmzz, 4, "--00", [-,-,0,0]);
alg!(A_pzzz, 4, "+000", [+,0,0,0]);
alg!(A_mzzz, 4, "-000", [-,0,0,0]);
alg!(A_zzzz, 4, "0000", [0,0,0,0]);
alg!(A_ppppp, 5, "+++++", [+,+,+,+,+]);
alg!(A_ppppm, 5, "++++-", [+,+,+,+,-]);
alg!(A_pppmp, 5, "+++-+", [+,+,+,-,+]);
alg!(A_pppmm, 5, "+++--", [+,+,+,-,-]);
alg!(A_ppmpp, 5, "++-++", [+,+,-,+,+]);
alg!(A_ppmpm, 5, "++-+-", [+,+,-,+,-]);
alg!(A_ppmmp, 5, "++--+", [+,+,-,-,+]);
alg!(A_ppmmm, 5, "++---", [+,+,-,-,-]);
alg!(A_pmppp, 5, "+-+++", [+,-,+,+,+]);
alg!(A_pmppm, 5, "+-++-", [+,-,+,+,-]);
alg!(A_pmpmp, 5, "+-+-+", [+,-,+,-,+]);
alg!(A_pmpmm, 5, "+-+--", [+,-,+,-,-]);
alg!(A_pmmpp, 5, "+--++", [+,-,-,+,+]);
alg!(A_pmmpm, 5, "+--+-", [+,-,-,+,-]);
alg!(A_pmmmp, 5, "+---+", [+,-,-,-,+]);
alg!(A_pmmmm, 5, "+----", [+,-,-,-,-]);
alg!(A_mpppp, 5, "-++++", [-,+,+,+,+]);
alg!(A_mpppm, 5, "-+++-", [-,+,+,+,-]);
alg!(A_mppmp, 5, "-++-+", [-,+,+,-,+]);
alg!(A_mppmm, 5, "-++--", [-,+,+,-,-]);
alg!(A_mpmpp, 5, "-+-++", [-,+,-,+,+]);
alg!(A_mpmpm, 5, "-+-+-", [-,+,-,+,-]);
alg!(A_mpmmp, 5, "-+--+", [-,+,-,-,+]);
alg!(A_mpmmm, 5, "-+---", [-,+,-,-,-]);
alg!(A_mmppp, 5, "--+++", [-,-,+,+,+]);
alg!(A_mmppm, 5, "--++-", [-,-,+,+,-]);
alg!(A_mmpmp, 5, "--+-+", [-,-,+,-,+]);
alg!(A_mmpmm, 5, "--+--", [-,-,+,-,-]);
alg!(A_mmmpp, 5, "---++", [-,-,-,+,+]);
alg!(A_mmmpm, 5, "---+-", [-,-,-,+,-]);
alg!(A_mmmmp, 5, "----+", [-,-,-,-,+]);
alg!(A_mmmmm, 5, "-----", [-,-,-,-,-]);
alg!(A_ppppz, 5, "++++0", [+,+,+,+,0]);
alg!(A_pppmz, 5, "+++-0", [+,+,+,-,0]);
alg!(A_ppmpz, 5, "++-+0", [+,+,-,+,0]);
alg!(A_ppmmz, 5, "++--0", [+,+,-,-,0]);
alg!(A_pmppz, 5, "+-++0", [+,-,+,+,0]);
alg!(A_pmpmz, 5, "+-+-0", [+,-,+,-,0]);
alg!(A_pmmpz, 5, "+--+0", [+,-,-,+,0]);
alg!(A_pmmmz, 5, "+---0", [+,-,-,-,0]);
alg!(A_mpppz, 5, "-+++0", [-,+,+,+,0]);
alg!(A_mppmz, 5, "-++-0", [-,+,+,-,0]);
alg!(A_mpmpz, 5, "-+-+0", [-,+,-,+,0]);
alg!(A_mpmmz, 5, "-+--0", [-,+,-,-,0]);
alg!(A_mmppz, 5, "--++0", [-,-,+,+,0]);
alg!(A_mmpmz, 5, "--+-0", [-,-,+,-,0]);
alg!(A_mmmpz, 5, "---+0", [-,-,-,+,0]);
alg!(A_mmmmz, 5, "----0", [-,-,-,-,0]);
alg!(A_pppzz, 5, "+++00", [+,+,+,0,0]);
alg!(A_ppmzz, 5, "++-00", [+,+,-,0,0]);
alg!(A_pmpzz, 5, "+-+00", [+,-,+,0,0]);
alg!(A_pmmzz, 5, "+--00", [+,-,-,0,0]);
alg!(A_mppzz, 5, "-++00", [-,+,+,0,0]);
alg!(A_mpmzz, 5, "-+-00", [-,+,-,0,0]);
alg!(A_mmpzz, 5, "--+00", [-,-,+,0,0]);
alg!(A_mmmzz, 5, "---00", [-,-,-,0,0]);
alg!(A_ppzzz, 5, "++000", [+,+,0,0,0]);
alg!(A_pmzzz, 5, "+-000", [+,-,0,0,0]);
alg!(A_mpzzz, 5, "-+000", [-,+,0,0,0]);
alg!(A_mmzzz, 5, "--000", [-,-,0,0,0]);
alg!(A_pzzzz, 5, "+0000", [+,0,0,0,0]);
alg!(A_mzzzz, 5, "-0000", [-,0,0,0,0]);
alg!(A_zzzzz, 5, "00000", [0,0,0,0,0]);
alg!(A_pppppp, 6, "++++++", [+,+,+,+,+,+]);
alg!(A_pppppm, 6, "+++++-", [+,+,+,+,+,-]);
alg!(A_ppppmp, 6, "++++-+", [+,+,+,+,-,+]);
alg!(A_ppppmm, 6, "++++--", [+,+,+,+,-,-]);
alg!(A_pppmpp, 6, "+++-++", [+,+,+,-,+,+]);
alg!(A_pppmpm, 6, "+++-+-", [+,+,+,-,+,-]);
alg!(A_pppmmp, 6, "+++--+", [+,+,+,-,-,+]);
alg!(A_pppmmm, 6, "+++---", [+,+,+,-,-,-]);
alg!(A_ppmppp, 6, "++-+++", [+,+,-,+,+,+]);
alg!(A_ppmppm, 6, "++-++-", [+,+,-,+,+,-]);
alg!(A_ppmpmp, 6, "++-+-+", [+,+,-,+,-,+]);
alg!(A_ppmpmm, 6, "++-+--", [+,+,-,+,-,-]);
alg!(A_ppmmpp, 6, "++--++", [+,+,-,-,+,+]);
alg!(A_ppmmpm, 6, "++--+-", [+,+,-,-,+,-]);
alg!(A_ppmmmp, 6, "++---+", [+,+,-,-,-,+]);
alg!(A_ppmmmm, 6, "++----", [+,+,-,-,-,-]);
alg!(A_pmpppp, 6, "+-++++", [+,-,+,+,+,+]);
alg!(A_pmpppm, 6, "+-+++-", [+,-,+,+,+,-]);
alg!(A_pmppmp, 6, "+-++-+", [+,-,+,+,-,+]);
alg!(A_pmppmm, 6, "+-++--", [+,-,+,+,-,-]);
alg!(A_pmpmpp, 6, "+-+-++", [+,-,+,-,+,+]);
alg!(A_pmpmpm, 6, "+-+-+-", [+,-,+,-,+,-]);
alg!(A_pmpmmp, 6, "+-+--+", [+,-,+,-,-,+]);
alg!(A_pmpmmm, 6, "+-+---", [+,-,+,-,-,-]);
alg!(A_pmmppp, 6, "+--+++", [+,-,-,+,+,+]);
alg!(A_pmmppm, 6, "+--++-", [+,-,-,+,+,-]);
alg!(A_pmmpmp, 6, "+--+-+", [+,-,-,+,-,+]);
alg!(A_pmmpmm, 6, "+--+--", [+,-,-,+,-,-]);
alg!(A_pmmmpp, 6, "+---++", [+,-,-,-,+,+]);
alg!(A_pmmmpm, 6, "+---+-", [+,-,-,-,+,-]);
alg!(A_pmmmmp, 6, "+----+", [+,-,-,-,-,+]);
alg!(A_pmmmmm, 6, "+-----", [+,-,-,-,-,-]);
alg!(A_mppppp, 6, "-+++++", [-,+,+,+,+,+]);
alg!(A_mppppm, 6, "-++++-", [-,+,+,+,+,-]);
alg!(A_mpppmp, 6, "-+++-+", [-,+,+,+,-,+]);
alg!(A_mpppmm, 6, "-+++--", [-,+,+,+,-,-]);
alg!(A_mppmpp, 6, "-++-++", [-,+,+,-,+,+]);
alg!(A_mppmpm, 6, "-++-+-", [-,+,+,-,+,-]);
alg!(A_mppmmp, 6, "-++--+", [-,+,+,-,-,+]);
alg!(A_mppmmm, 6, "-++---", [-,+,+,-,-,-]);
alg!(A_mpmppp, 6, "-+-+++", [-,+,-,+,+,+]);
alg!(A_mpmppm, 6, "-+-++-", [-,+,-,+,+,-]);
alg!(A_mpmpmp, 6, "-+-+-+", [-,+,-,+,-,+]);
alg!(A_mpmpmm, 6, "-+-+--", [-,+,-,+,-,-]);
alg!(A_mpmmpp, 6, "-+--++", [-,+,-,-,+,+]);
alg!(A_mpmmpm, 6, "-+--+-", [-,+,-,-,+,-]);
alg!(A_mpmmmp, 6, "-+---+", [-,+,-,-,-,+]);
alg!(A_mpmmmm, 6, "-+----", [-,+,-,-,-,-]);
alg!(A_mmpppp, 6, "--++++", [-,-,+,+,+,+]);
alg!(A_mmpppm, 6, "--+++-", [-,-,+,+,+,-]);
alg!(A_mmppmp, 6, "--++-+", [-,-,+,+,-,+]);
alg!(A_mmppmm, 6, "--++--", [-,-,+,+,-,-]);
alg!(A_mmpmpp, 6, "--+-++", [-,-,+,-,+,+]);
alg!(A_mmpmpm, 6, "--+-+-", [-,-,+,-,+,-]);
alg!(A_mmpmmp, 6, "--+--+", [-,-,+,-,-,+]);
alg!(A_mmpmmm, 6, "--+---", [-,-,+,-,-,-]);
alg!(A_mmmppp, 6, "---+++", [-,-,-,+,+,+]);
alg!(A_mmmppm, 6, "---++-", [-,-,-,+,+,-]);
alg!(A_mmmpmp, 6, "---+-+", [-,-,-,+,-,+]);
alg!(A_mmmpmm, 6, "---+--", [-,-,-,+,-,-]);
alg!(A_mmmmpp, 6, "----++", [-,-,-,-,+,+]);
alg!(A_mmmmpm, 6, "----+-", [-,-,-,-,+,-]);
alg!(A_mmmmmp, 6, "-----+", [-,-,-,-,-,+]);
alg!(A_mmmmmm, 6, "------", [-,-,-,-,-,-]);
alg!(A_pppppz, 6, "+++++0", [+,+,+,+,+,0]);
alg!(A_ppppmz, 6, "++++-0", [+,+,+,+,-,0]);
alg!(A_pppmpz, 6, "+++-+0", [+,+,+,-,+,0]);
alg!(A_pppmmz, 6, "+++--0", [+,+,+,-,-,0]);
alg!(A_ppmppz, 6, "++-++0", [+,+,-,+,+,0]);
alg!(A_ppmpmz, 6, "++-+-0", [+,+,-,+,-,0]);
alg!(A_ppmmpz, 6, "++--+0", [+,+,-,-,+,0]);
alg!(A_ppmmmz, 6, "++---0", [+,+,-,-,-,0]);
alg!(A_pmpppz, 6, "+-+++0", [+,-,+,+,+,0]);
alg!(A_pmppmz, 6, "+-++-0", [+,-,+,+,-,0]);
alg!(A_pmpmpz, 6, "+-+-+0", [+,-,+,-,+,0]);
alg!(A_pmpmmz, 6, "+-+--0", [+,-,+,-,-,0]);
alg!(A_pmmppz, 6, "+--++0", [+,-,-,+,+,0]);
alg!(A_pmmpmz, 6, "+--+-0", [+,-,-,+,-,0]);
alg!(A_pmmmpz, 6, "+---+0", [+,-,-,-,+,0]);
alg!(A_pmmmmz, 6, "+----0", [+,-,-,-,-,0]);
alg!(A_mppppz, 6, "-++++0", [-,+,+,+,+,0]);
alg!(A_mpppmz, 6, "-+++-0", [-,+,+,+,-,0]);
alg!(A_mppmpz, 6, "-++-+0", [-,+,+,-,+,0]);
alg!(A_mppmmz, 6, "-++--0", [-,+,+,-,-,0]);
alg!(A_mpmppz, 6, "-+-++0", [-,+,-,+,+,0]);
alg!(A_mpmpmz, 6, "-+-+-0", [-,+,-,+,-,0]);
alg!(A_mpmmpz, 6, "-+--+0", [-,+,-,-,+,0]);
alg!(A_mpmmmz, 6, "-+---0", [-,+,-,-,-,0]);
alg!(A_mmpppz, 6, "--+++0", [-,-,+,+,+,0]);
alg!(A_mmppmz, 6, "--++-0", [-,-,+,+,-,0]);
alg!(A_mmpmpz, 6, "--+-+0", [-,-,+,-,+,0]);
alg!(A_mmpmmz, 6, "--+--0", [-,-,+,-,-,0]);
alg!(A_mmmppz, 6, "---++0", [-,-,-,+,+,0]);
alg!(A_mmmpmz, 6, "---+-0", [-,-,-,+,-,0]);
alg!(A_mmmmpz, 6, "----+0", [-,-,-,-,+,0]);
alg!(A_mmmmmz, 6, "-----0", [-,-,-,-,-,0]);
alg!(A_ppppzz, 6, "++++00", [+,+,+,+,0,0]);
alg!(A_pppmzz, 6, "+++-00", [+,+,+,-,0,0]);
alg!(A_ppmpzz, 6, "++-+00", [+,+,-,+,0,0]);
alg!(A_ppmmzz, 6, "++--00", [+,+,-,-,0,0]);
alg!(A_pmppzz, 6, "+-++00", [+,-,+,+,0,0]);
alg!(A_pmpmzz, 6, "+-+-00", [+,-,+,-,0,0]);
alg!(A_pmmpzz, 6, "+--+00", [+,-,-,+,0,0]);
alg!(A_pmmmzz, 6, "+---00", [+,-,-,-,0,0]);
alg!(A_mpppzz, 6, "-+++00", [-,+,+,+,0,0]);
alg!(A_mppmzz, 6, "-++-00", [-,+,+,-,0,0]);
alg!(A_mpmpzz, 6, "-+-+00", [-,+,-,+,0,0]);
alg!(A_mpmmzz, 6, "-+--00", [-,+,-,-,0,0]);
alg!(A_mmppzz, 6, "--++00", [-,-,+,+,0,0]);
alg!(A_mmpmzz, 6, "--+-00", [-,-,+,-,0,0]);
alg!(A_mmmpzz, 6, "---+00", [-,-,-,+,0,0]);
alg!(A_mmmmzz, 6, "----00", [-,-,-,-,0,0]);
alg!(A_pppzzz, 6, "+++000", [+,+,+,0,0,0]);
alg!(A_ppmzzz, 6, "++-000", [+,+,-,0,0,0]);
alg!(A_pmpzzz, 6, "+-+000", [+,-,+,0,0,0]);
alg!(A_pmmzzz, 6, "+--000", [+,-,-,0,0,0]);
alg!(A_mppzzz, 6, "-++000", [-,+,+,0,0,0]);
alg!(A_mpmzzz, 6, "-+-000", [-,+,-,0,0,0]);
alg!(A_mmpzzz, 6, "--+000", [-,-,+,0,0,0]);
alg!(A_mmmzzz, 6, "---000", [-,-,-,0,0,0]);
alg!(A_ppzzzz, 6, "++0000", [+,+,0,0,0,0]);
alg!(A_pmzzzz, 6, "+-0000", [+,-,0,0,0,0]);
alg!(A_mpzzzz, 6, "-+0000", [-,+,0,0,0,0]);
alg!(A_mmzzzz, 6, "--0000", [-,-,0,0,0,0]);
alg!(A_pzzzzz, 6, "+00000", [+,0,0,0,0,0]);
alg!(A_mzzzzz, 6, "-00000", [-,0,0,0,0,0]);
alg!(A_zzzzzz, 6, "000000", [0,0,0,0,0,0]);
alg!(A_ppppppp, 7, "+++++++", [+,+,+,+,+,+,+]);
alg!(A_mmmmmmm, 7, "-------", [-,-,-,-,-,-,-]);
alg!(A_pmpmpmp, 7, "+-+-+-+", [+,-,+,-,+,-,+]);
alg!(A_mpmpmzz, 7, "-+-+-00", [-,+,-,+,-,0,0]);
alg!(A_pzzzzzz, 7, "+000000", [+,0,0,0,0,0,0]);
alg!(A_zzzzzzz, 7, "0000000", [0,0,0,0,0,0,0]);
alg!(A_pppppppp, 8, "++++++++", [+,+,+,+,+,+,+,+]);
alg!(A_mmmmmmmm, 8, "--------", [-,-,-,-,-,-,-,-]);
alg!(A_pmpmpmpm, 8, "+-+-+-+-", [+,-,+,-,+,-,+,-]);
alg!(A_pmppmzzz, 8, "+-++-000", [+,-,+,+,-,0,0,0]);
alg!(A_zzzzzzzz, 8, "00000000", [0,0,0,0,0,0,0,0]);
alg!(A_ppppppppp, 9, "+++++++++", [+,+,+,+,+,+,+,+,+]);
alg!(A_mpmpmpzzz, 9, "-+-+-+000", [-,+,-,+,-,+,0,0,0]);
alg!(A_pmpmpmpmpm, 10, "+-+-+-+-+-", [+,-,+,-,+,-,+,-,+,-]);
alg!(A_ppppzzzzzz, 10, "++++000000", [+,+,+,+,0,0,0,0,0,0]);
alg!(A_pppmmmpppzz, 11, "+++---+++00", [+,+,+,-,-,-,+,+,+,0,0]);
alg!(A_pppmmmpppmzzz, 13, "+++---+++-000", [+,+,+,-,-,-,+,+,+,-,0,0,0]);
alg!(A_pppmmmpppmmmzzzz, 16, "+++---+++---0000", [+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0]);
alg!(A_pppmmmpppmmmpppzzzzz, 20, "+++---+++---+++00000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmzzzzzz, 24, "+++---+++---+++---000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmzzzzzzzz, 32, "+++---+++---+++---+++---00000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzz, 40, "+++---+++---+++---+++---+++---0000000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzz, 48, "+++---+++---+++---+++---+++---+++---000000000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmzzzzzzzzzzzzzzz, 62, "+++---+++---+++---+++---+++---+++---+++---+++--000000000000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]);
alg!(A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzzzzz, 63, "+++---+++---+++---+++---+++---+++---+++---+++---000000000000000", [+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,+,+,+,-,-,-,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]);
alg!(A_ppppppppppppppppppppppppppppppp, 31, "+++++++++++++++++++++++++++++++", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+]);
alg!(A_mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm, 33, "---------------------------------", [-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-]);
alg!(A_ppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppp, 63, "+++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++", [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+]);
pub fn visit_all<V: Visitor>(v: &mut V) {
    v.visit::<A_p>("+");
    v.visit::<A_m>("-");
    v.visit::<A_z>("0");
    v.visit::<A_pp>("++");
    v.visit::<A_pm>("+-");
    v.visit::<A_mp>("-+");
    v.visit::<A_mm>("--");
    v.visit::<A_pz>("+0");
    v.visit::<A_mz>("-0");
    v.visit::<A_zz>("00");
    v.visit::<A_ppp>("+++");
    v.visit::<A_ppm>("++-");
    v.visit::<A_pmp>("+-+");
    v.visit::<A_pmm>("+--");
    v.visit::<A_mpp>("-++");
    v.visit::<A_mpm>("-+-");
    v.visit::<A_mmp>("--+");
    v.visit::<A_mmm>("---");
    v.visit::<A_ppz>("++0");
    v.visit::<A_pmz>("+-0");
    v.visit::<A_mpz>("-+0");
    v.visit::<A_mmz>("--0");
    v.visit::<A_pzz>("+00");
    v.visit::<A_mzz>("-00");
    v.visit::<A_zzz>("000");
    v.visit::<A_pppp>("++++");
    v.visit::<A_pppm>("+++-");
    v.visit::<A_ppmp>("++-+");
    v.visit::<A_ppmm>("++--");
    v.visit::<A_pmpp>("+-++");
    v.visit::<A_pmpm>("+-+-");
    v.visit::<A_pmmp>("+--+");
    v.visit::<A_pmmm>("+---");
    v.visit::<A_mppp>("-+++");
    v.visit::<A_mppm>("-++-");
    v.visit::<A_mpmp>("-+-+");
    v.visit::<A_mpmm>("-+--");
    v.visit::<A_mmpp>("--++");
    v.visit::<A_mmpm>("--+-");
    v.visit::<A_mmmp>("---+");
    v.visit::<A_mmmm>("----");
    v.visit::<A_pppz>("+++0");
    v.visit::<A_ppmz>("++-0");
    v.visit::<A_pmpz>("+-+0");
    v.visit::<A_pmmz>("+--0");
    v.visit::<A_mppz>("-++0");
    v.visit::<A_mpmz>("-+-0");
    v.visit::<A_mmpz>("--+0");
    v.visit::<A_mmmz>("---0");
    v.visit::<A_ppzz>("++00");
    v.visit::<A_pmzz>("+-00");
    v.visit::<A_mpzz>("-+00");
    v.visit::<A_mmzz>("--00");
    v.visit::<A_pzzz>("+000");
    v.visit::<A_mzzz>("-000");
    v.visit::<A_zzzz>("0000");
    v.visit::<A_ppppp>("+++++");
    v.visit::<A_ppppm>("++++-");
    v.visit::<A_pppmp>("+++-+");
    v.visit::<A_pppmm>("+++--");
    v.visit::<A_ppmpp>("++-++");
    v.visit::<A_ppmpm>("++-+-");
    v.visit::<A_ppmmp>("++--+");
    v.visit::<A_ppmmm>("++---");
    v.visit::<A_pmppp>("+-+++");
    v.visit::<A_pmppm>("+-++-");
    v.visit::<A_pmpmp>("+-+-+");
    v.visit::<A_pmpmm>("+-+--");
    v.visit::<A_pmmpp>("+--++");
    v.visit::<A_pmmpm>("+--+-");
    v.visit::<A_pmmmp>("+---+");
    v.visit::<A_pmmmm>("+----");
    v.visit::<A_mpppp>("-++++");
    v.visit::<A_mpppm>("-+++-");
    v.visit::<A_mppmp>("-++-+");
    v.visit::<A_mppmm>("-++--");
    v.visit::<A_mpmpp>("-+-++");
    v.visit::<A_mpmpm>("-+-+-");
    v.visit::<A_mpmmp>("-+--+");
    v.visit::<A_mpmmm>("-+---");
    v.visit::<A_mmppp>("--+++");
    v.visit::<A_mmppm>("--++-");
    v.visit::<A_mmpmp>("--+-+");
    v.visit::<A_mmpmm>("--+--");
    v.visit::<A_mmmpp>("---++");
    v.visit::<A_mmmpm>("---+-");
    v.visit::<A_mmmmp>("----+");
    v.visit::<A_mmmmm>("-----");
    v.visit::<A_ppppz>("++++0");
    v.visit::<A_pppmz>("+++-0");
    v.visit::<A_ppmpz>("++-+0");
    v.visit::<A_ppmmz>("++--0");
    v.visit::<A_pmppz>("+-++0");
    v.visit::<A_pmpmz>("+-+-0");
    v.visit::<A_pmmpz>("+--+0");
    v.visit::<A_pmmmz>("+---0");
    v.visit::<A_mpppz>("-+++0");
    v.visit::<A_mppmz>("-++-0");
    v.visit::<A_mpmpz>("-+-+0");
    v.visit::<A_mpmmz>("-+--0");
    v.visit::<A_mmppz>("--++0");
    v.visit::<A_mmpmz>("--+-0");
    v.visit::<A_mmmpz>("---+0");
    v.visit::<A_mmmmz>("----0");
    v.visit::<A_pppzz>("+++00");
    v.visit::<A_ppmzz>("++-00");
    v.visit::<A_pmpzz>("+-+00");
    v.visit::<A_pmmzz>("+--00");
    v.visit::<A_mppzz>("-++00");
    v.visit::<A_mpmzz>("-+-00");
    v.visit::<A_mmpzz>("--+00");
    v.visit::<A_mmmzz>("---00");
    v.visit::<A_ppzzz>("++000");
    v.visit::<A_pmzzz>("+-000");
    v.visit::<A_mpzzz>("-+000");
    v.visit::<A_mmzzz>("--000");
    v.visit::<A_pzzzz>("+0000");
    v.visit::<A_mzzzz>("-0000");
    v.visit::<A_zzzzz>("00000");
    v.visit::<A_pppppp>("++++++");
    v.visit::<A_pppppm>("+++++-");
    v.visit::<A_ppppmp>("++++-+");
    v.visit::<A_ppppmm>("++++--");
    v.visit::<A_pppmpp>("+++-++");
    v.visit::<A_pppmpm>("+++-+-");
    v.visit::<A_pppmmp>("+++--+");
    v.visit::<A_pppmmm>("+++---");
    v.visit::<A_ppmppp>("++-+++");
    v.visit::<A_ppmppm>("++-++-");
    v.visit::<A_ppmpmp>("++-+-+");
    v.visit::<A_ppmpmm>("++-+--");
    v.visit::<A_ppmmpp>("++--++");
    v.visit::<A_ppmmpm>("++--+-");
    v.visit::<A_ppmmmp>("++---+");
    v.visit::<A_ppmmmm>("++----");
    v.visit::<A_pmpppp>("+-++++");
    v.visit::<A_pmpppm>("+-+++-");
    v.visit::<A_pmppmp>("+-++-+");
    v.visit::<A_pmppmm>("+-++--");
    v.visit::<A_pmpmpp>("+-+-++");
    v.visit::<A_pmpmpm>("+-+-+-");
    v.visit::<A_pmpmmp>("+-+--+");
    v.visit::<A_pmpmmm>("+-+---");
    v.visit::<A_pmmppp>("+--+++");
    v.visit::<A_pmmppm>("+--++-");
    v.visit::<A_pmmpmp>("+--+-+");
    v.visit::<A_pmmpmm>("+--+--");
    v.visit::<A_pmmmpp>("+---++");
    v.visit::<A_pmmmpm>("+---+-");
    v.visit::<A_pmmmmp>("+----+");
    v.visit::<A_pmmmmm>("+-----");
    v.visit::<A_mppppp>("-+++++");
    v.visit::<A_mppppm>("-++++-");
    v.visit::<A_mpppmp>("-+++-+");
    v.visit::<A_mpppmm>("-+++--");
    v.visit::<A_mppmpp>("-++-++");
    v.visit::<A_mppmpm>("-++-+-");
    v.visit::<A_mppmmp>("-++--+");
    v.visit::<A_mppmmm>("-++---");
    v.visit::<A_mpmppp>("-+-+++");
    v.visit::<A_mpmppm>("-+-++-");
    v.visit::<A_mpmpmp>("-+-+-+");
    v.visit::<A_mpmpmm>("-+-+--");
    v.visit::<A_mpmmpp>("-+--++");
    v.visit::<A_mpmmpm>("-+--+-");
    v.visit::<A_mpmmmp>("-+---+");
    v.visit::<A_mpmmmm>("-+----");
    v.visit::<A_mmpppp>("--++++");
    v.visit::<A_mmpppm>("--+++-");
    v.visit::<A_mmppmp>("--++-+");
    v.visit::<A_mmppmm>("--++--");
    v.visit::<A_mmpmpp>("--+-++");
    v.visit::<A_mmpmpm>("--+-+-");
    v.visit::<A_mmpmmp>("--+--+");
    v.visit::<A_mmpmmm>("--+---");
    v.visit::<A_mmmppp>("---+++");
    v.visit::<A_mmmppm>("---++-");
    v.visit::<A_mmmpmp>("---+-+");
    v.visit::<A_mmmpmm>("---+--");
    v.visit::<A_mmmmpp>("----++");
    v.visit::<A_mmmmpm>("----+-");
    v.visit::<A_mmmmmp>("-----+");
    v.visit::<A_mmmmmm>("------");
    v.visit::<A_pppppz>("+++++0");
    v.visit::<A_ppppmz>("++++-0");
    v.visit::<A_pppmpz>("+++-+0");
    v.visit::<A_pppmmz>("+++--0");
    v.visit::<A_ppmppz>("++-++0");
    v.visit::<A_ppmpmz>("++-+-0");
    v.visit::<A_ppmmpz>("++--+0");
    v.visit::<A_ppmmmz>("++---0");
    v.visit::<A_pmpppz>("+-+++0");
    v.visit::<A_pmppmz>("+-++-0");
    v.visit::<A_pmpmpz>("+-+-+0");
    v.visit::<A_pmpmmz>("+-+--0");
    v.visit::<A_pmmppz>("+--++0");
    v.visit::<A_pmmpmz>("+--+-0");
    v.visit::<A_pmmmpz>("+---+0");
    v.visit::<A_pmmmmz>("+----0");
    v.visit::<A_mppppz>("-++++0");
    v.visit::<A_mpppmz>("-+++-0");
    v.visit::<A_mppmpz>("-++-+0");
    v.visit::<A_mppmmz>("-++--0");
    v.visit::<A_mpmppz>("-+-++0");
    v.visit::<A_mpmpmz>("-+-+-0");
    v.visit::<A_mpmmpz>("-+--+0");
    v.visit::<A_mpmmmz>("-+---0");
    v.visit::<A_mmpppz>("--+++0");
    v.visit::<A_mmppmz>("--++-0");
    v.visit::<A_mmpmpz>("--+-+0");
    v.visit::<A_mmpmmz>("--+--0");
    v.visit::<A_mmmppz>("---++0");
    v.visit::<A_mmmpmz>("---+-0");
    v.visit::<A_mmmmpz>("----+0");
    v.visit::<A_mmmmmz>("-----0");
    v.visit::<A_ppppzz>("++++00");
    v.visit::<A_pppmzz>("+++-00");
    v.visit::<A_ppmpzz>("++-+00");
    v.visit::<A_ppmmzz>("++--00");
    v.visit::<A_pmppzz>("+-++00");
    v.visit::<A_pmpmzz>("+-+-00");
    v.visit::<A_pmmpzz>("+--+00");
    v.visit::<A_pmmmzz>("+---00");
    v.visit::<A_mpppzz>("-+++00");
    v.visit::<A_mppmzz>("-++-00");
    v.visit::<A_mpmpzz>("-+-+00");
    v.visit::<A_mpmmzz>("-+--00");
    v.visit::<A_mmppzz>("--++00");
    v.visit::<A_mmpmzz>("--+-00");
    v.visit::<A_mmmpzz>("---+00");
    v.visit::<A_mmmmzz>("----00");
    v.visit::<A_pppzzz>("+++000");
    v.visit::<A_ppmzzz>("++-000");
    v.visit::<A_pmpzzz>("+-+000");
    v.visit::<A_pmmzzz>("+--000");
    v.visit::<A_mppzzz>("-++000");
    v.visit::<A_mpmzzz>("-+-000");
    v.visit::<A_mmpzzz>("--+000");
    v.visit::<A_mmmzzz>("---000");
    v.visit::<A_ppzzzz>("++0000");
    v.visit::<A_pmzzzz>("+-0000");
    v.visit::<A_mpzzzz>("-+0000");
    v.visit::<A_mmzzzz>("--0000");
    v.visit::<A_pzzzzz>("+00000");
    v.visit::<A_mzzzzz>("-00000");
    v.visit::<A_zzzzzz>("000000");
    v.visit::<A_ppppppp>("+++++++");
    v.visit::<A_mmmmmmm>("-------");
    v.visit::<A_pmpmpmp>("+-+-+-+");
    v.visit::<A_mpmpmzz>("-+-+-00");
    v.visit::<A_pzzzzzz>("+000000");
    v.visit::<A_zzzzzzz>("0000000");
    v.visit::<A_pppppppp>("++++++++");
    v.visit::<A_mmmmmmmm>("--------");
    v.visit::<A_pmpmpmpm>("+-+-+-+-");
    v.visit::<A_pmppmzzz>("+-++-000");
    v.visit::<A_zzzzzzzz>("00000000");
    v.visit::<A_ppppppppp>("+++++++++");
    v.visit::<A_mpmpmpzzz>("-+-+-+000");
    v.visit::<A_pmpmpmpmpm>("+-+-+-+-+-");
    v.visit::<A_ppppzzzzzz>("++++000000");
    v.visit::<A_pppmmmpppzz>("+++---+++00");
    v.visit::<A_pppmmmpppmzzz>("+++---+++-000");
    v.visit::<A_pppmmmpppmmmzzzz>("+++---+++---0000");
    v.visit::<A_pppmmmpppmmmpppzzzzz>("+++---+++---+++00000");
    v.visit::<A_pppmmmpppmmmpppmmmzzzzzz>("+++---+++---+++---000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmzzzzzzzz>("+++---+++---+++---+++---00000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzz>("+++---+++---+++---+++---+++---0000000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzz>("+++---+++---+++---+++---+++---+++---000000000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmzzzzzzzzzzzzzzz>("+++---+++---+++---+++---+++---+++---+++---+++--000000000000000");
    v.visit::<A_pppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmpppmmmzzzzzzzzzzzzzzz>("+++---+++---+++---+++---+++---+++---+++---+++---000000000000000");
    v.visit::<A_ppppppppppppppppppppppppppppppp>("+++++++++++++++++++++++++++++++");
    v.visit::<A_mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm>("---------------------------------");
    v.visit::<A_ppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppp>("+++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++");
}
