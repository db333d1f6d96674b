#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/tlapack/"
P = []


def prop(id, title, statement, text, tests, files, mech, level, note, over=("inputs",), technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests,
                  files=[I + f for f in files], mech=mech, level=level, note=note,
                  technique=technique or "contract-based deductive verification of the extracted template code (inferred-then-proved loop invariants, Z3 + sum/field normaliser), failed obligations replayed by concrete evaluation"))


def b(*n):
    return ["blas/%s.hpp" % x for x in n]


def l(*n):
    return ["lapack/%s.hpp" % x for x in n]


NOTE = ("Every obligation is discharged for all sizes, all loop iterations and all element values over an exact field with conjugation; "
        "floating-point rounding is not modelled. Trusted: the verifier's executor and normaliser, Z3, clang's IR generation, harness/vt.hpp. ")

prop("P01", "Level-3 BLAS products compute their documented formulas",
     "For every matrix shape (including zero sizes), side, uplo, transposition and diagonal flag and all scalars, gemm, hemm, symm, herk, syrk, her2k, syr2k and trmm leave in the output operand exactly the documented combination of the entry values, up to rounding. "
     "The versions without beta give the product alone, whatever the output held before. Only the documented triangle defines a Hermitian, symmetric or triangular operand.",
     "all shapes m,n,k >= 0, all flags, all scalars and element values, any matrix class",
     "the tests exercise the products only indirectly, in factorizations at a few sizes; a wrong term for one flag combination, a rectangular shape or a zero size is never reached",
     b("gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm"),
     [("per-flag loop nests", I + "blas/gemm.hpp"), ("alias/triangle-aware update order", I + "blas/trmm.hpp")], "proof", NOTE)
prop("P02", "Triangular solves satisfy the equation they are documented to solve",
     "After trsv, trsm or trsm_tri, the output X satisfies op(A) X = alpha B (or X op(A) = alpha B) for the triangular matrix that uplo and diag designate in A, for every shape including empty ones, provided the diagonal is nonzero or unit. "
     "potrs and getrs-style compositions built from them solve A X = B for the factored matrix.",
     "all sizes, side/uplo/trans/diag combinations, scalars and right-hand sides",
     "only a few combinations at fixed sizes are reached through factorization tests",
     b("trsm", "trsv") + l("trsm_tri", "potrs"),
     [("substitution order per flag", I + "blas/trsm.hpp")], "proof", NOTE + "Diagonal entries are assumed nonzero.")
prop("P03", "Level-1/2 BLAS operations compute their documented formulas",
     "For every length, shape, flag and scalar, axpy, copy, swap, scal, dot, dotu, rot, asum, nrm2, iamax, gemv, ger, geru, hemv, symv, her, her2, syr, syr2 and trmv produce the documented result from the entry values, up to rounding. "
     "iamax returns the first index of largest |re|+|im| (first NaN, else first infinity, if any).",
     "all lengths and shapes including zero, all flags, scalars, strides and values",
     "unit tests cover a handful of vectors; these routines are otherwise used only in the flag combinations that the factorizations need",
     b("axpy", "copy", "swap", "scal", "dot", "dotu", "rot", "asum", "nrm2", "iamax", "gemv", "ger", "geru", "hemv", "symv", "her", "her2", "syr", "syr2", "trmv"),
     [("loop nests per flag", I + "blas/gemv.hpp")], "proof", NOTE + "nrm2 and iamax are decided by the bounded evaluation only.")
prop("P04", "BLAS routines touch only the documented part of their operands",
     "A BLAS routine never writes an element outside its documented output operand or triangle and never modifies an input operand. "
     "It never reads or writes outside the given dimensions, and its result does not depend on the unreferenced triangle (or on the diagonal of a unit-triangular operand).",
     "all shapes including empty ones, all flags, all element values including NaN in unreferenced positions",
     "tests use full square well-filled matrices, so a stray read of the other triangle or an off-by-one at the border goes unseen",
     b("gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm", "trsm", "trsv", "trmv", "gemv", "ger", "geru", "hemv", "symv", "her", "her2", "syr", "syr2", "axpy", "copy", "swap", "scal", "dot", "dotu", "rot", "asum"),
     [("loop bounds and triangle conditions", I + "blas/herk.hpp")], "proof", NOTE)
prop("P05", "BLAS results never hide NaN/Inf through value-dependent shortcuts",
     "No BLAS routine skips or alters work depending on the value of a matrix or vector element, so a NaN or infinity in any referenced element of an input (with nonzero scalars) reaches every output element whose formula contains it. "
     "The overloads without beta overwrite the output without reading it, so NaN already stored there disappears.",
     "all inputs, with NaN/Inf in any position, all flags and shapes",
     "no test passes non-finite data to the BLAS level",
     b("gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm", "trsm", "trsv", "trmv", "gemv", "ger", "geru", "hemv", "symv", "her", "her2", "syr", "syr2") + ["base/StrongZero.hpp"],
     [("StrongZero beta", I + "base/StrongZero.hpp")], "proof",
     NOTE + "The obligation is syntactic over the extracted IR: no branch or select on an element value, no product of an element with a literal zero.")
from props2 import *   # noqa
add(prop, b, l, NOTE)

na = {}
NA(na)
os.chdir(H)
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": w} for a, w in p["mech"]], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
       "notes": "Own deductive verifier over LLVM IR extracted from the templates on every run; see DESIGN.md."}
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    if p["id"] in na:
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(man, open("MANIFEST.json", "w"), indent=1)
