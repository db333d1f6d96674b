"""Contracts of the scaling routines and of robust scalar arithmetic (exact arithmetic: no overflow, underflow or rounding)."""
from blas import *

I = IP.const


def rscl_tasks():
    r = []
    for ty in "RC":
        for tx in "RC":
            if ty == "C" and tx == "R":
                continue

            def eqs(v, i, j):
                if i is None:
                    return ["x"]
                return [("alpha x' = x", band(ble(ZERO, i), blt(i, v.n), beq(j, ZERO)), nmul(v.alpha, v.x1(i)), v.x(i), [(i, j)])]
            r.append(Task("rscl_%s%s" % (ty, tx), "n", [("alpha", ty)], [("x", "V", ("n",), tx)], "rscl(alpha, x);", eqs=eqs, fn="rscl"))
    return r


def ladiv_tasks():
    def eqs(v, i, j):
        if i is None:
            return ["x"]
        p, s = v.x1(ZERO), v.x1(I(1))
        D = band(beq(i, ZERO), beq(j, ZERO))
        cs = [(ZERO, ZERO), (I(1), ZERO)]
        return [("real part of (p + i q)(c + i d) is a", D, nsub(nmul(p, v.c), nmul(s, v.d)), v.a, cs),
                ("imaginary part of (p + i q)(c + i d) is b", D, nadd(nmul(p, v.d), nmul(s, v.c)), v.b, cs)]
    return [Task("ladiv_R", "k", [(x, "R") for x in "abcd"], [("x", "V", ("k",), "R")], "ladiv(a, b, c, d, x[0], x[1]);",
                 pre=lambda v: [beq(v.k, I(2))], eqs=eqs, fn="ladiv"),
            Task("ladiv_C", "k", [(x, "C") for x in "ab"], [("x", "V", ("k",), "C")], "x[0] = ladiv(a, b);",
                 pre=lambda v: [beq(v.k, I(1))], fn="ladiv",
                 eqs=lambda v, i, j: ["x"] if i is None else [("quotient times divisor", band(beq(i, ZERO), beq(j, ZERO)), nmul(v.x1(ZERO), v.b), v.a, [(ZERO, ZERO)])])]


INC = ["lapack/%s.hpp" % x for x in "rscl ladiv lascl".split()]
KEEP = ()


REG = {"General": lambda i, j: TRUE, "Upper": lambda i, j: ble(i, j), "Lower": lambda i, j: ble(j, i), "StrictUpper": lambda i, j: blt(i, j), "StrictLower": lambda i, j: blt(j, i),
       "UpperHessenberg": lambda i, j: ble(i, j + 1), "LowerHessenberg": lambda i, j: ble(j, i + 1)}


def seq(x, y):
    return B("scmp", ("eq", x, y))


def lascl_tasks():
    r = []
    for u in list(REG) + ["Band"]:
        if u == "Band":
            reg = lambda v: lambda i, j: band(ble(i, j + v.kl), ble(j, i + v.ku))
            call = "lascl(BandAccess{kl, ku}, b, a, A)"
        else:
            reg = (lambda f: lambda v: f)(REG[u])
            call = "lascl(Uplo::%s, b, a, A)" % u
        small = N("app", ("pow", q(2), q(-1022)))

        def post(v, i, j, num, den, reg=reg):
            return nite(reg(v)(i, j), nmul(v.A(i, j), v.a, num, ninv(v.b), ninv(den)), v.A(i, j))
        for zero in (False, True):
            if zero:
                inv = LoopInv(bysteps=True, nscal=3, sinit=lambda v: [v.b, v.a, None], facts=lambda v, t: [seq(v.ss[1], q(0)), seq(v.ss[0], v.b)], posts={"A": lambda v, ts, i, j, post=post: nite(v.ss[2], post(v, i, j, q(1), q(1)), v.A(i, j))})
            else:
                inv = LoopInv(bysteps=True, nscal=3, sinit=lambda v: [v.b, v.a, None], facts=lambda v, t: [ble(ZERO, t), bnot(seq(v.ss[1], q(0))), bor(seq(v.ss[0], v.b), seq(v.ss[0], nmul(v.b, small)))],
                              posts={"A": lambda v, ts, i, j, post=post: nite(v.ss[2], post(v, i, j, q(1), q(1)), post(v, i, j, v.ss[0], v.ss[1]))})
            r.append(Task("lascl_" + u + "_0" * zero, "m n kl ku" if u == "Band" else "m n", [("a", "R"), ("b", "R")], [("A", "M", ("m", "n"), "C")], "return %s;" % call, ret="int",
                          pre=lambda v, u=u, zero=zero: [bnot(seq(v.b, q(0))), seq(v.a, q(0)) if zero else bnot(seq(v.a, q(0)))] + ([blt(v.kl, v.m), blt(v.ku, v.n)] if u == "Band" else []),
                          retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], post={"A": lambda v, i, j, post=post: post(v, i, j, q(1), q(1))},
                          fn="lascl", loops=[inv]))
    return r
