#!/usr/bin/env python3
"""Writes the tables of algebras declared with the library's macro.

harness/src/algs_gen.rs: the algebras most checks use next to the run-time signature.
harness/src/algs_all.rs: every legal signature up to dimension 6 and a spread of larger ones.
"""
import itertools, os
def name(s): return "A_" + "".join({'+': 'p', '-': 'm', '0': 'z'}[c] for c in s)
def legal(d):
    return ["".join(t) + "0" * z for z in range(d + 1) for t in itertools.product("+-", repeat=d - z)]
def mixed(d): return "".join("+-"[(i * 7 // 3) % 2] for i in range(d - d // 4)) + "0" * (d // 4)
def alg(s): return 'alg!(%s, %d, "%s", [%s]);' % (name(s), len(s), s, ",".join(s))
here = os.path.dirname(os.path.abspath(__file__)) + "/../harness/src/"

small = [s for d in (1, 2, 3) for s in legal(d)]
mid = ["++++", "+---", "--++", "+++0", "+-00", "0000", "+++++", "-+-+-", "++++0", "+-000",
       "++++++", "+-+-+-", "+++++0", "-++-00", "++0000", "000000"]
large = ["+++++++", "-+-+-00", "++++++++", "+-+-0000"]
big = [mixed(d) for d in (12, 17, 31, 32, 33, 63)]
o = ["// Generated by tools/gen_algs.py", "use super::*;", ""]
o += [alg(s) for s in small + mid + large + big]
for g, sigs in (("small", small), ("mid", mid), ("large", large), ("big", big)):
    o.append("pub fn decl_%s<V: Visitor>(v: &mut V) {" % g)
    o += ['    v.visit::<%s>("%s");' % (name(s), s) for s in sigs] + ["}"]
    if g != "big":
        o.append("pub fn decl_nd_%s<V: NdVisitor>(v: &mut V) {" % g)
        o += ['    v.visit::<%s>("%s");' % (name(s), s) for s in sigs if "0" not in s] + ["}"]
open(here + "algs_gen.rs", "w").write("\n".join(o) + "\n")

every = [s for d in range(1, 7) for s in legal(d)]
every += ["+++++++", "-------", "+-+-+-+", "-+-+-00", "+000000", "0000000", "++++++++", "--------", "+-+-+-+-", "+-++-000", "00000000",
          "+++++++++", "-+-+-+000", "+-+-+-+-+-", "++++000000"]
every += [mixed(d) for d in (11, 13, 16, 20, 24, 32, 40, 48, 62, 63)] + ["+" * 31, "-" * 33, "+" * 63]
o = ["// Generated by tools/gen_algs.py"] + [alg(s) for s in every]
o.append("pub fn visit_all<V: Visitor>(v: &mut V) {")
o += ['    v.visit::<%s>("%s");' % (name(s), s) for s in every] + ["}"]
open(here + "algs_all.rs", "w").write("\n".join(o) + "\n")
print(len(small + mid + large + big), len(every))
