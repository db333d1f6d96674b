"""Triangular-by-triangular solves and inverses."""
from contracts import *
from blas import *
import lap1
import chol

INC0 = INC
UPL, SDE, OPE, DGE = lap1.UPL, lap1.SDE, lap1.OPE, lap1.DGE


def trsmtri_tasks():
    r = []
    for sd in "LR":
        for u in "UL":
            for o in "NTC":
                for d in "NU":
                    ua = u if o == "N" else ("L" if u == "U" else "U")

                    def eqs(v, i, j, sd=sd, u=u, o=o, d=d, ua=ua):
                        if i is None:
                            return ["B"]
                        A = op(tri(v.A, ua, d), o)
                        X = tri(v.B1, u, "N")
                        lo, hi = (i, j + 1) if u == "U" else (j, i + 1)
                        s = nsum(lo, hi, (lambda l: nmul(A(i, l), X(l, j))) if sd == "L" else (lambda l: nmul(X(i, l), A(l, j))))
                        return [("op(A) X = alpha B", band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.n), tri_in(u)(i, j)), s, nmul(v.alpha, v.B(i, j)), [(i, j)])]
                    r.append(Task("trsm_tri_%s%s%s%s" % (sd, u, o, d), "n", [("alpha", "C")],
                                  [("A", "M", ("n", "n"), "C"), ("B", "M", ("n", "n"), "C")],
                                  "trsm_tri(%s,%s,%s,%s,alpha,A,B);" % (SDE[sd], UPL[u], OPE[o], DGE[d]),
                                  eqs=eqs, access={"A": tri_acc(ua, d), "B": tri_acc(u)}, waccess={"B": tri_acc(u)}, fn="trsm_tri",
                                  measure=lambda v: v.n, contracts=CON))
    return r


def seq(u, i, j):
    """index range of the inner sum of a product of two triangular matrices"""
    return (i, j + 1) if u == "U" else (j, i + 1)


def trtri_tasks():
    r = []
    for u in "LU":
        for d in "NU":
            def eqs(v, i, j, u=u, d=d):
                if i is None:
                    return ["C"]
                T_, X = tri(v.C, u, d), tri(v.C1, u, d)
                lo, hi = seq(u, i, j)
                dom = band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.n), tri_in(u)(i, j), beq(v.ret, ZERO))
                dl = nite(beq(i, j), NONE_, NZERO)
                return [("T X = I", dom, nsum(lo, hi, lambda l: nmul(T_(i, l), X(l, j))), dl, [(i, j)]),
                        ("X T = I", dom, nsum(lo, hi, lambda l: nmul(X(i, l), T_(l, j))), dl, [(i, j)])]

            def lemmas(v, i, j, u=u, d=d):
                t, rec = v.call("trsm"), v.call("trtri_recursive")
                if len(t) != 2 or len(rec) != 2:
                    return []
                n0 = rec[0].n
                X, T_ = tri(v.C1, u, d), tri(v.C, u, d)
                if u == "L":
                    I_ = i - n0
                    k0, p0 = [lambda *_: (j, n0)], [lambda *_: (n0, i + 1)]
                    W = lambda i, k: t[0].B1(i - n0, k)
                    return [SumEq(v, t[1], lambda: (I_, j)),
                            SumEq(v, rec[0], lambda k: (k, j), k0, lambda k: W(i, k)),
                            SumEq(v, t[0], lambda l: (I_, l), k0, lambda l: X(l, j)),
                            SumEq(v, t[0], lambda p: (p - n0, j), p0, lambda p: X(i, p)),
                            SumEq(v, t[1], lambda k, p: (p - n0, k), k0 + p0, lambda k, p: nmul(T_(k, j), X(i, p))),
                            SumEq(v, rec[1], lambda k, q: (i - n0, q - n0), k0 + p0, lambda k, q: nmul(T_(k, j), X(q, k)), 1)]
                J_ = j - n0
                k0, p0 = [lambda *_: (i, n0)], [lambda *_: (n0, j + 1)]
                W = lambda i, k: t[0].B1(i, k - n0)
                return [SumEq(v, t[1], lambda: (i, J_)),
                        SumEq(v, t[0], lambda k: (k, J_), k0, lambda k: X(i, k)),
                        SumEq(v, rec[0], lambda l: (i, l), k0, lambda l: W(l, j), 1),
                        SumEq(v, t[0], lambda p: (i, p - n0), p0, lambda p: X(p, j)),
                        SumEq(v, t[1], lambda k, p: (k, p - n0), k0 + p0, lambda k, p: nmul(T_(i, k), X(p, j))),
                        SumEq(v, rec[1], lambda k, q: (q - n0, J_), k0 + p0, lambda k, q: nmul(T_(i, k), X(k, q)))]
            r.append(Task("trtri_%s%s" % (u, d), "n", [], [("C", "M", ("n", "n"), "C")], "return trtri_recursive(%s, %s, C);" % (UPL[u], DGE[d]),
                          ret="int", retpost=(lambda d: lambda v, x, i: [("0 <= info <= n", band(ble(ZERO, x), ble(x, ZERO if d == "U" else v.n)))])(d),
                          eqs=eqs, lemmas=lemmas, access={"C": tri_acc(u, d)}, waccess={"C": tri_acc(u, d)}, fn="trtri_recursive",
                          measure=lambda v: v.n, contracts=CON))
    return r


def uili_tasks():
    def eqs(v, i, j):
        if i is None:
            return ["A"]
        L, U = tri(v.A, "L", "U"), tri(v.A, "U", "N")
        s = nsum(0, i + 1, lambda k: nmul(L(i, k), nsum(k, v.n, lambda l: nmul(U(k, l), v.A1(l, j)))))
        return [("L U X = I", band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.n), beq(v.ret, ZERO)), s, nite(beq(i, j), NONE_, NZERO), [(i, j)])]

    def lemmas(v, i, j):
        t = v.call("trtri_recursive")
        if len(t) != 2:
            return []
        L, Li = tri(v.A, "L", "U"), tri(t[1].C1, "L", "U")
        return [SumEq(v, t[1], lambda: (i, j)),
                SumEq(v, t[0], lambda k, p: (k, p), [lambda: (ZERO, i + 1), lambda k: (k, v.n)], lambda k, p: nmul(L(i, k), Li(p, j)))]
    return [Task("getri_uili", "n", [], [("A", "M", ("n", "n"), "C")], "return getri_uili(A);", ret="int",
                 retpost=lambda v, x, i: [("0 <= info <= n", band(ble(ZERO, x), ble(x, v.n)))],
                 eqs=eqs, lemmas=lemmas, fn="getri_uili", contracts=CON)]


def potri_tasks():
    r = []
    for u in "LU":
        F = (lambda u: lambda f: f if u == "L" else (lambda i, j: nconj(f(j, i))))(u)

        def eqs(v, i, j, u=u):
            if i is None:
                return ["A"]
            p = v.call("potrf2")
            ok = band(*[beq(c.ret, ZERO) for c in p + v.call("trtri_recursive")]) if p else FALSE
            A, X = herm(v.A, u, "H"), herm(v.A1, u, "H")
            s = nsum(0, v.n, lambda k: nmul(A(i, k), X(k, j)))
            return [("A X = I (when the factorization succeeds)", band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.n), ok), s, nite(beq(i, j), NONE_, NZERO), [(i, j)])]

        def lemmas(v, i, j, u=u, F=F):
            p, t = v.call("potrf2"), v.call("trtri_recursive")
            if len(p) != 1 or len(t) != 1:
                return []
            p, t = p[0], t[0]
            X = herm(v.A1, u, "H")
            sw = (lambda i, j: (i, j)) if u == "L" else (lambda i, j: (j, i))
            L, Li = F(tri(p.A1, u, "N")), F(tri(t.C1, u, "N"))
            c = u == "U"
            return [SumEq(v, p, lambda k: sw(i, k), [lambda: (ZERO, i + 1)], lambda k: X(k, j)),
                    SumEq(v, p, lambda k: sw(k, i), [lambda: (i + 1, v.n)], lambda k: X(k, j), conj=True),
                    SumEq(v, t, lambda l, q: sw(q, l), [lambda: (ZERO, i + 1), lambda l: (l, v.n)], lambda l, q: nmul(L(i, l), Li(q, j)), which=0 if c else 1, conj=not c),
                    SumEq(v, t, lambda: sw(i, j), which=1 if c else 0, conj=c)]
        r.append(Task("potri_" + u, "n", [], [("A", "M", ("n", "n"), "C")], "potri(%s, A);" % {"L": "LOWER_TRIANGLE", "U": "UPPER_TRIANGLE"}[u],
                      eqs=eqs, lemmas=lemmas, access={"A": tri_acc(u)}, waccess={"A": tri_acc(u)}, fn="potri", contracts=CON))
    return r


CON = dict(lap1.CON)
CON["potrf2"] = chol.CON["potrf2"]
CON["trtri_recursive"] = recursive(["f", "f", "C", "_"], lambda f, n, v: "trtri_" + f[0] + f[1], [trtri_tasks], lambda v: v["C"].m)
CON["trsm_tri"] = recursive(["f", "f", "f", "f", "alpha", "A", "B"], lambda f, n, v: "trsm_tri_" + "".join(f[:4]), [trsmtri_tasks], lambda v: v["A"].m)
KEEP = lap1.KEEP + ("trsm_tri", "trtri_recursive", "potrf2")
INC = lap1.INC + ["lapack/trsm_tri.hpp", "lapack/trtri_recursive.hpp", "lapack/getri_uili.hpp", "lapack/potrf2.hpp", "lapack/potri.hpp"]
