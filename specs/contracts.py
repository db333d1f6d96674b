"""Call-site bindings of the BLAS contracts (shared by every caller)."""
from calls import *
import blas


def _beta(args):
    return "b" if any(True for _ in ()) else None


def _three(name, nflags):
    # f(flags..., alpha, A, B, [beta,] C)
    def roles(args):
        return ["f"] * nflags + (["alpha", "A", "B", "beta", "C"] if len(args) == nflags + 5 else ["alpha", "A", "B", "C"])
    return roles


def _two(nflags):
    def roles(args):
        return ["f"] * nflags + (["alpha", "A", "beta", "C"] if len(args) == nflags + 4 else ["alpha", "A", "C"])
    return roles


def _gemv(args):
    return ["f", "alpha", "A", "x"] + (["beta", "y"] if len(args) == 6 else ["y"])


def bz(n, full):
    return "b" if n == full else "z"


BLAS = {
    "gemm": Callee(_three("gemm", 2), lambda f, n, v: "gemm_%s%s%sC" % (f[0], f[1], bz(n, 7)), [blas.gemm_tasks]),
    "hemm": Callee(_three("hemm", 2), lambda f, n, v: "hemm_%s%s%s" % (f[0], f[1], bz(n, 7)), [blas.symm_tasks]),
    "symm": Callee(_three("symm", 2), lambda f, n, v: "symm_%s%s%s" % (f[0], f[1], bz(n, 7)), [blas.symm_tasks]),
    "herk": Callee(_two(2), lambda f, n, v: "herk_%s%s%s" % (f[0], f[1], bz(n, 6)), [blas.rk_tasks]),
    "syrk": Callee(_two(2), lambda f, n, v: "syrk_%s%s%s" % (f[0], f[1], bz(n, 6)), [blas.rk_tasks]),
    "her2k": Callee(_three("her2k", 2), lambda f, n, v: "her2k_%s%s%s" % (f[0], f[1], bz(n, 7)), [blas.rk_tasks]),
    "syr2k": Callee(_three("syr2k", 2), lambda f, n, v: "syr2k_%s%s%s" % (f[0], f[1], bz(n, 7)), [blas.rk_tasks]),
    "trmm": Callee(["f", "f", "f", "f", "alpha", "A", "B"], lambda f, n, v: "trmm_" + "".join(f), [blas.trmm_tasks]),
    "trsm": Callee(["f", "f", "f", "f", "alpha", "A", "B"], lambda f, n, v: "trsm_" + "".join(f), [blas.trsm_tasks]),
    "trmv": Callee(["f", "f", "f", "A", "x"], lambda f, n, v: "trmv_" + "".join(f), [blas.trv_tasks]),
    "trsv": Callee(["f", "f", "f", "A", "x"], lambda f, n, v: "trsv_" + "".join(f), [blas.trv_tasks]),
    "gemv": Callee(_gemv, lambda f, n, v: "gemv_%s%s" % (f[0], bz(n, 6)), [blas.blas2_tasks]),
    "ger": Callee(["alpha", "x", "y", "A"], lambda f, n, v: "ger", [blas.blas2_tasks]),
    "geru": Callee(["alpha", "x", "y", "A"], lambda f, n, v: "geru", [blas.blas2_tasks]),
    "axpy": Callee(["alpha", "x", "y"], lambda f, n, v: "axpy", [blas.blas1_tasks]),
    "scal": Callee(["alpha", "x"], lambda f, n, v: "scalv", [blas.blas1_tasks]),
    "copy": Callee(["x", "y"], lambda f, n, v: "copyv", [blas.blas1_tasks]),
    "dot": Callee(["x", "y"], lambda f, n, v: "dotc", [blas.blas1_tasks]),
    "dotu": Callee(["x", "y"], lambda f, n, v: "dotu", [blas.blas1_tasks]),
}
KEEPB = tuple(BLAS)
