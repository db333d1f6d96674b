"""In-place triangular products, Hermitian and triangular products out of
place, copies: recursive LAPACK routines against the contracts of what they
call (a recursive call is checked against the function's own contract, on a
strictly smaller problem)."""
from contracts import *
from blas import *

INC0 = INC
UPL = {"U": "Uplo::Upper", "L": "Uplo::Lower", "G": "Uplo::General"}
SDE = {"L": "Side::Left", "R": "Side::Right"}
OPE = {"N": "Op::NoTrans", "T": "Op::Trans", "C": "Op::ConjTrans"}
DGE = {"N": "Diag::NonUnit", "U": "Diag::Unit"}


def lauum_tasks():
    r = []
    for u in "LU":
        def post(v, i, j, u=u):
            T_ = tri(v.C, u, "N")
            if u == "L":       # L^H L
                s = nsum(0, v.n, lambda l: nmul(nconj(T_(l, i)), T_(l, j)))
            else:              # U U^H
                s = nsum(0, v.n, lambda l: nmul(T_(i, l), nconj(T_(j, l))))
            return nite(tri_in(u)(i, j), s, v.C(i, j))
        r.append(Task("lauum_%s" % u, "n", [], [("C", "M", ("n", "n"), "C")], "lauum_recursive(%s, C);" % UPL[u],
                      post={"C": post}, access={"C": tri_acc(u)}, waccess={"C": tri_acc(u)}, fn="lauum_recursive",
                      measure=lambda v: v.n, contracts=CON))
    return r


def mult_tasks():
    r = []
    for f, u, o in (("mult_llh", "L", "mult_llh_Opts"), ("mult_uhu", "U", "mult_uhu_Opts")):
        def post(v, i, j, u=u):
            T_ = tri(v.C, u, "N")
            if u == "L":
                s = nsum(0, v.n, lambda l: nmul(T_(i, l), nconj(T_(j, l))))
            else:
                s = nsum(0, v.n, lambda l: nmul(nconj(T_(l, i)), T_(l, j)))
            return nite(tri_in(u)(i, j), s, v.C(i, j))
        r.append(Task(f, "n", [], [("C", "M", ("n", "n"), "C")], "%s o; o.nx = nx; %s(C, o);" % (o, f), ints="nx",
                      pre=lambda v: [ble(ONE, v.nx)],
                      post={"C": post}, access={"C": tri_acc(u)}, waccess={"C": tri_acc(u)}, fn=f, measure=lambda v: v.n, contracts=CON))

    def lu(v, i, j):
        L, U = tri(v.A, "L", "U"), tri(v.A, "U", "N")
        return nsum(0, v.n, lambda l: nmul(L(i, l), U(l, j)))

    def ul(v, i, j):
        L, U = tri(v.A, "L", "U"), tri(v.A, "U", "N")
        return nsum(0, v.n, lambda l: nmul(U(i, l), L(l, j)))
    A = [("A", "M", ("n", "n"), "C")]
    r.append(Task("lu_mult", "n", [], A, "LuMultOpts o; o.nx = nx; lu_mult(A, o);", ints="nx", pre=lambda v: [ble(ONE, v.nx)],
                  post={"A": lu}, fn="lu_mult", measure=lambda v: v.n, contracts=CON))
    r.append(Task("ul_mult", "n", [], A, "return ul_mult(A);", ret="int", retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))],
                  post={"A": ul}, fn="ul_mult", measure=lambda v: v.n, contracts=CON))
    return r


def hemm2_tasks():
    r = []
    for sd in "LR":
        for u in "UL":
            for o in "NTC":
                for be in (1,):
                    d = "m" if (sd == "L") == (o == "N") else "n"
                    def post(v, i, j, sd=sd, u=u, o=o, be=be, d=d):
                        A, B_ = herm(v.A, u, "H"), op(v.B, o)
                        if sd == "L":
                            s = nsum(0, getattr(v, d), lambda l: nmul(A(i, l), B_(l, j)))
                        else:
                            s = nsum(0, getattr(v, d), lambda l: nmul(B_(i, l), A(l, j)))
                        s = nmul(v.alpha, s)
                        return nadd(nmul(v.beta, v.C(i, j)), s) if be else s
                    CD = ("m", "n") if o == "N" else ("n", "m")
                    r.append(Task("hemm2_%s%s%s%s" % (sd, u, o, "b" if be else "z"), "m n", [("alpha", "C")] + ([("beta", "C")] if be else []),
                                  [("A", "M", (d, d), "C"), ("B", "M", ("m", "n"), "C"), ("C", "M", CD, "C")],
                                  "hemm2(%s,%s,%s,alpha,A,B,%sC);" % (SDE[sd], UPL[u], OPE[o], "beta," if be else ""),
                                  post={"C": post}, access={"A": tri_acc(u)}, fn="hemm2", nobranch=True))
    return r


def hehe_tasks():
    r = []
    for u in "UL":
        for be in (1,):
            def post(v, i, j, u=u, be=be):
                A, B_ = herm(v.A, u, "H"), herm(v.B, u, "H")
                s = nmul(v.alpha, nsum(0, v.n, lambda l: nmul(A(i, l), B_(l, j))))
                return nadd(nmul(v.beta, v.C(i, j)), s) if be else s
            r.append(Task("mult_hehe_%s%s" % (u, "b" if be else "z"), "n", [("alpha", "C")] + ([("beta", "C")] if be else []),
                          [("A", "M", ("n", "n"), "C"), ("B", "M", ("n", "n"), "C"), ("C", "M", ("n", "n"), "C")],
                          "mult_hehe(%s,alpha,A,B,%sC);" % (UPL[u], "beta," if be else ""),
                          post={"C": post}, access={"A": tri_acc(u), "B": tri_acc(u)}, fn="mult_hehe", measure=lambda v: v.n, contracts=CON))
    return r


def gemmtr_tasks():
    r = []
    for u in "UL":
        for a in "NTC":
            for b in "NTC":
                AD = ("n", "k") if a == "N" else ("k", "n")
                BD = ("k", "n") if b == "N" else ("n", "k")
                def post(v, i, j, a=a, b=b, u=u):
                    s = nmul(v.alpha, nsum(0, v.k, lambda l: nmul(op(v.A, a)(i, l), op(v.B, b)(l, j))))
                    return nite(tri_in(u)(i, j), nadd(nmul(v.beta, v.C(i, j)), s), v.C(i, j))
                r.append(Task("gemmtr_%s%s%s" % (u, a, b), "n k", [("alpha", "C"), ("beta", "C")],
                              [("A", "M", AD, "C"), ("B", "M", BD, "C"), ("C", "M", ("n", "n"), "C")],
                              "gemmtr(%s,%s,%s,alpha,A,B,beta,C);" % (UPL[u], OPE[a], OPE[b]),
                              post={"C": post}, access={"C": tri_acc(u)}, waccess={"C": tri_acc(u)}, fn="gemmtr", nobranch=True))
    return r


def trmm_out_tasks():
    r = []
    for sd in "LR":
        for u in "UL":
            for d in "NU":
                for o in "NTC":
                    k = "m" if sd == "L" else "n"
                    BD = ("m", "n") if o == "N" else ("n", "m")
                    def post(v, i, j, sd=sd, u=u, o=o, d=d):
                        A, B_ = tri(v.A, u, d), op(v.B, o)
                        if sd == "L":
                            s = nsum(0, v.m, lambda l: nmul(A(i, l), B_(l, j)))
                        else:
                            s = nsum(0, v.n, lambda l: nmul(B_(i, l), A(l, j)))
                        return nadd(nmul(v.beta, v.C(i, j)), nmul(v.alpha, s))
                    r.append(Task("trmm_out_%s%s%s%s" % (sd, u, d, o), "m n", [("alpha", "C"), ("beta", "C")],
                                  [("A", "M", (k, k), "C"), ("B", "M", BD, "C"), ("C", "M", ("m", "n"), "C")],
                                  "trmm_out(%s,%s,Op::NoTrans,%s,%s,alpha,A,B,beta,C);" % (SDE[sd], UPL[u], DGE[d], OPE[o]),
                                  post={"C": post}, access={"A": tri_acc(u, d)}, fn="trmm_out",
                                  measure=(lambda v: v.m) if sd == "L" else (lambda v: v.n), contracts=CON))
    return r


def copy_tasks():
    r = []
    AB = [("A", "M", ("m", "n"), "C"), ("B", "M", ("m", "n"), "C")]
    for u in "UGL":
        inn = {"U": lambda i, j: ble(i, j), "L": lambda i, j: ble(j, i), "G": lambda i, j: TRUE}[u]
        acc = (lambda inn: lambda v, i, j: inn(i, j))(inn)
        r.append(Task("lacpy_" + u, "m n", [], AB, "lacpy(%s, A, B);" % UPL[u],
                      post={"B": (lambda inn: lambda v, i, j: nite(inn(i, j), v.A(i, j), v.B(i, j)))(inn)},
                      access={"A": acc, "B": acc}, waccess={"B": acc}, fn="lacpy", nobranch=True))
        inn2 = {"U": lambda i, j: blt(i, j), "L": lambda i, j: blt(j, i), "G": lambda i, j: TRUE}[u]
        r.append(Task("laset_" + u, "m n", [("al", "C"), ("be", "C")], AB[:1], "laset(%s, al, be, A);" % UPL[u],
                      post={"A": (lambda inn: lambda v, i, j: nite(beq(i, j), v.be, nite(inn(i, j), v.al, v.A(i, j))))(inn2)},
                      access={"A": acc}, waccess={"A": acc}, fn="laset", nobranch=True))
    r.append(Task("conjugatev", "n", [], [("x", "V", ("n",), "C")], "conjugate(x);", post={"x": lambda v, i, j: nconj(v.x(i))}, fn="conjugate", nobranch=True))
    for f, c in (("transpose", 0), ("conjtranspose", 1)):
        r.append(Task(f, "m n", [], [("A", "M", ("m", "n"), "C"), ("B", "M", ("n", "m"), "C")], "TransposeOpts o; o.nx = nx; tlapack::%s(A, B, o);" % f, ints="nx",
                      pre=lambda v: [ble(IP.const(2), v.nx)],
                      post={"B": lambda v, i, j, c=c: nconj(v.A(j, i)) if c else v.A(j, i)}, fn=f, measure=lambda v: v.m + v.n, contracts=CON))
    return r


def trmm_blocked_tasks():
    r = []
    for d in "NU":
        def part(v, t, i, j, d=d):
            A = tri(v.A, "U", d)
            return nmul(v.alpha, nsum(0, v.m, lambda l: nite(blt(l, t), nmul(A(i, l), v.B(l, j)), NZERO)))
        inv = LoopInv(facts=lambda v, t: [ble(ZERO, t)],
                      posts={"B": (lambda part: lambda v, ts, i, j: nite(blt(i, ts[0]), part(v, ts[0], i, j), v.B(i, j)))(part)},
                      variant=lambda v, t: v.m + v.nb - t)
        r.append(Task("trmm_blocked_mixed_" + d, "m n", [("alpha", "C")],
                      [("A", "M", ("m", "m"), "C"), ("B", "M", ("m", "n"), "C"), ("W", "M", ("nb", "n"), "C")],
                      "TrmmBlockedOpts o; o.nb = nb; trmm_blocked_mixed(LEFT_SIDE, UPPER_TRIANGLE, NO_TRANS, %s, alpha, A, B, W, o);" % DGE[d],
                      ints="nb", pre=lambda v: [ble(ONE, v.nb)],
                      post={"B": (lambda part: lambda v, i, j: part(v, v.m, i, j))(part)}, access={"A": tri_acc("U", d)}, fn="trmm_blocked_mixed",
                      loops=[inv], contracts=CON))
    return r


CON = dict(BLAS)
CON["lacpy"] = Callee(["f", "A", "B"], lambda f, n, v: "lacpy_" + f[0], [copy_tasks])
CON["laset"] = Callee(["f", "al", "be", "A"], lambda f, n, v: "laset_" + f[0], [copy_tasks])
CON["lauum_recursive"] = recursive(["f", "C"], lambda f, n, v: "lauum_" + f[0], [lauum_tasks], lambda v: v["C"].m)
CON["mult_llh"] = recursive(["C", "o:nx"], lambda f, n, v: "mult_llh", [mult_tasks], lambda v: v["C"].m)
CON["mult_uhu"] = recursive(["C", "o:nx"], lambda f, n, v: "mult_uhu", [mult_tasks], lambda v: v["C"].m)
CON["lu_mult"] = recursive(["A", "o:nx"], lambda f, n, v: "lu_mult", [mult_tasks], lambda v: v["A"].m)
CON["ul_mult"] = recursive(["A"], lambda f, n, v: "ul_mult", [mult_tasks], lambda v: v["A"].m)
CON["hemm2"] = Callee(["f", "f", "f", "alpha", "A", "B", "beta", "C"], lambda f, n, v: "hemm2_" + "".join(f[:3]) + ("z" if "z" in f else "b"), [hemm2_tasks])
CON["mult_hehe"] = recursive(["f", "alpha", "A", "B", "beta", "C"], lambda f, n, v: "mult_hehe_" + f[0] + ("z" if "z" in f else "b"), [hehe_tasks], lambda v: v["A"].m)
CON["trmm_out"] = recursive(["f", "f", "f", "f", "f", "alpha", "A", "B", "beta", "C"], lambda f, n, v: "trmm_out_" + f[0] + f[1] + f[3] + f[4], [trmm_out_tasks],
                            lambda v: v["A"].m)
CON["transpose"] = recursive(["A", "B", "o:nx"], lambda f, n, v: "transpose", [copy_tasks], lambda v: v["A"].m + v["A"].n)
CON["conjtranspose"] = recursive(["A", "B", "o:nx"], lambda f, n, v: "conjtranspose", [copy_tasks], lambda v: v["A"].m + v["A"].n)
KEEP = KEEPB + ("lauum_recursive", "mult_llh", "mult_uhu", "lu_mult", "ul_mult", "hemm2", "mult_hehe", "trmm_out", "transpose", "conjtranspose")
INC = INC0 + ["lapack/%s.hpp" % x for x in "trmm_blocked_mixed lauum_recursive mult_llh mult_uhu lu_mult ul_mult hemm2 mult_hehe gemmtr trmm_out lacpy laset conjugate transpose".split()]
