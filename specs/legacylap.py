"""Contracts of the LAPACK half of the pointer interface (legacy_api/lapack.hpp)."""
from legacy import *


def llap_tasks():
    import lap1
    r = []
    for t in lap1.copy_tasks():
        u = {"U": "Uplo::Upper", "L": "Uplo::Lower", "G": "Uplo::General"}.get(t.name[-1])
        if t.fn == "lacpy":
            r += conv(t, "%s,m,n,{A},{B}" % u, lays="c")
        elif t.fn == "laset":
            r += conv(t, "%s,m,n,al,be,{A}" % u, lays="c")
    return r


def lnorm_tasks():
    import norms
    LN = {"M": "Norm::Max", "I": "Norm::Inf", "O": "Norm::One"}
    r = []
    for g in (norms.lange_tasks, norms.sym_tasks, norms.lantr_tasks):
        for t in g():
            if t.name[6:7] not in "MIO" or not t.name[5] == "_":
                continue
            u = {"U": "Uplo::Upper,", "L": "Uplo::Lower,"}.get(t.name[7:8], "")
            d = {"u": "Diag::Unit,", "n": "Diag::NonUnit,"}.get(t.name[8:9], "")
            a = "%s,%s%s%s,{A}" % (LN[t.name[6]], u, d, "m,n" if t.fn in ("lange", "lantr") else "n")
            r += conv(t, a, lays="c", given=t.given, loops=t.loops, setup=t.setup)
    return r


INC = ["legacy_api/blas.hpp", "legacy_api/lapack.hpp"]
