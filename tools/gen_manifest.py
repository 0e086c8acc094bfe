#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
MC = "Exhaustive within the stated bounds (see coverage.bounds of the evidence). "
TRUST = "Trusts the reference model in harness/src/model.rs, the enumeration engine and rustc."
T = {
 "C01": ("exhaustive enumeration of declared signatures against a word-rewriting model",
         "Every legal signature up to 6 dimensions is a declared type of its own, so the run-time-signature algebra the other checks use is tied to the macro here."),
 "C02": ("exhaustive enumeration of programs, compiler verdict against the rule",
         "Each program is really compiled; covers lists up to length 5 (7 thorough), not arbitrary source text."),
 "C03": ("exhaustive operand enumeration with symbolic coefficients against a word-rewriting model",
         "Free-ring coefficients make one run per support stand for all coefficient values; value alphabets cover value-dependent branches."),
 "C04": ("exhaustive operand enumeration with symbolic coefficients against a word-rewriting model",
         "As C03, both algorithms and operand preservation."),
 "C05": ("exhaustive blade and operand enumeration against the duality laws", "As C03."),
 "C06": ("exhaustive blade, mask and operand enumeration against word reversal", "As C03."),
 "C07": ("exhaustive operand enumeration against the defining expressions", "Exact rings except the complex reversals."),
 "C08": ("exhaustive operand enumeration, all operator forms", "As C03; thresholds of approximate equality enumerated around each precision."),
 "C09": ("explicit-state search of the lock-step product of storages", "Complete reachable state spaces over small finite rings, bounded-depth prefixes beyond."),
 "C10": ("exhaustive enumeration of indices, supports, grades and predicates", "Complete listings where they fit, prefixes for very high grades and dimensions."),
 "C11": ("exhaustive enumeration of out-of-range arguments", "Panics, crashes and hangs are observed in a supervised process."),
 "C12": ("exhaustive basis and small-value enumeration, linear maps decided on bases", "Floating-point tolerance relative to operand size."),
 "C13": ("exhaustive pair enumeration of blades and small values", "Bilinear maps decided on pairs of blades; floating-point tolerance."),
 "C14": ("exhaustive basis and small-value enumeration", "Floating-point tolerance."),
 "C15": ("exhaustive basis enumeration of the raw transforms", "Floating-point tolerance; the real transform is exact."),
 "C16": ("exhaustive element enumeration against an exact determinant oracle", "Residual bound 1e-7; ill-conditioned elements outside the enumerated families are not judged."),
 "C17": ("exhaustive element and exponent enumeration", "Exact rings for multivectors, tolerance for representations."),
 "C18": ("exhaustive element enumeration against double-double series and closed forms", "Moderate sizes only, tolerance relative to e^s."),
 "C19": ("exhaustive basis and pair enumeration", "Floating-point tolerance."),
 "C20": ("exhaustive enumeration of integer configurations", "Incidence decided by exact integer ranks; ideal points excluded."),
 "C21": ("exhaustive pair enumeration over finite rings and rationals", "Commuting coefficients, divisors with unit norm."),
 "C22": ("exhaustive value enumeration through an independent parser", "Term order left free."),
 "C23": ("exhaustive basis, pair and value enumeration", "Conversions exact, products within 1e-12."),
 "C24": ("stateless model checking: controlled scheduler, fresh-process histories, nesting", "Preemption-bounded schedules at coefficient-operation granularity."),
}
checks = []
for k, (tech, note) in T.items():
    checks.append({
        "property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"./run.sh {k}",
        "evidence_file": f"evidence/{k}.json", "technique": tech, "level": "model_checking",
        "level_note": MC + note + " " + TRUST,
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every property is observed through the public interface. The tier is taken from VERIF_TIER; enumeration is deterministic, so VERIF_SEED is recorded but does not influence it. ./replay.sh FILE re-runs the case of a violation."}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
