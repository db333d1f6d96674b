"""Contracts of the kernels of the QR algorithm."""
from blas import *
from norms import nimag



def shift_tasks():
    r = []
    for ty in "CR":
        for n in (2, 3):
            def eqs(v, i, j, ty=ty, n=n):
                if i is None:
                    return ["x"]
                I = IP.const
                H = lambda a, b: v.H(I(a), I(b))
                if ty == "C":
                    p, m = nadd(v.s1, v.s2), nmul(v.s1, v.s2)
                else:
                    # s1, s2 are a conjugate pair or both real: s1+s2 and s1*s2 are the real numbers below
                    p = nadd(nreal(v.s1), nreal(v.s2))
                    m = nsub(nmul(nreal(v.s1), nreal(v.s2)), nmul(nimag(v.s1), nimag(v.s2)))
                w = []
                for a in range(n):
                    e = q(0)
                    for l in range(n):
                        e = nadd(e, nmul(H(a, l), H(l, 0)))
                    e = nsub(e, nmul(p, H(a, 0)))
                    if a == 0:
                        e = nadd(e, m)
                    w.append(e)
                out = []
                for a in range(n):
                    for b in range(a):
                        out.append(("v parallel to (H - s1)(H - s2) e1: components %d,%d" % (b, a), band(beq(i, I(a)), beq(j, ZERO)),
                                    nmul(v.x1(I(a)), w[b]), nmul(v.x1(I(b)), w[a]), [(I(a), ZERO), (I(b), ZERO)]))
                return out
            r.append(Task("shiftcolumn_%s%d" % (ty, n), "n k", [("s1", "C"), ("s2", "C")], [("H", "M", ("n", "n"), ty), ("x", "V", ("k",), ty)],
                          "return lahqr_shiftcolumn(H, x, s1, s2);", ret="int", pre=lambda v, n=n: [beq(v.n, IP.const(n)), beq(v.k, IP.const(n))],
                          retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs, fn="lahqr_shiftcolumn"))
    return r


def qzshift_tasks():
    """lahqz_shiftcolumn: v is parallel to (beta2 A - s2 B) B^-1 (beta1 A - s1 B) e1; real pencils take s1, s2 as a
    conjugate pair with equal betas or as two real shifts"""
    r = []
    for ty in "CR":
        for n in (2, 3):
            def eqs(v, i, j, ty=ty, n=n):
                if i is None:
                    return ["x"]
                I = IP.const
                A = lambda a, b: v.A(I(a), I(b))
                B = lambda a, b: v.B(I(a), I(b))
                re = (lambda z: z) if ty == "C" else nreal
                w = [nsub(nmul(v.be1, A(a, 0)), nmul(re(v.s1), B(a, 0))) for a in (0, 1)]
                if n == 2:
                    U = w
                else:
                    y2 = nmul(B(0, 0), w[1])
                    y1 = nsub(nmul(w[0], B(1, 1)), nmul(B(0, 1), w[1]))
                    U = [nsub(nmul(v.be2, nadd(nmul(A(a, 0), y1), nmul(A(a, 1), y2))), nmul(re(v.s2), nadd(nmul(B(a, 0), y1), nmul(B(a, 1), y2)))) for a in range(3)]
                    if ty == "R":
                        m = nimag(v.s1)
                        U[0] = nadd(U[0], nmul(nmul(m, m), nmul(nmul(B(0, 0), B(0, 0)), B(1, 1))))
                out = []
                for a in range(n):
                    for b in range(a):
                        out.append(("v parallel to the shifted product: components %d,%d" % (b, a), band(beq(i, I(a)), beq(j, ZERO)),
                                    nmul(v.x1(I(a)), U[b]), nmul(v.x1(I(b)), U[a]), [(I(a), ZERO), (I(b), ZERO)]))
                return out
            r.append(Task("qzshift_%s%d" % (ty, n), "n k", [("s1", "C"), ("s2", "C"), ("be1", ty), ("be2", ty)],
                          [("A", "M", ("n", "n"), ty), ("B", "M", ("n", "n"), ty), ("x", "V", ("k",), ty)],
                          "return lahqz_shiftcolumn(A, B, x, s1, s2, be1, be2);", ret="int",
                          pre=lambda v, n=n: [beq(v.n, IP.const(n)), beq(v.k, IP.const(n))],
                          retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs, fn="lahqz_shiftcolumn"))
    return r


def eig22_tasks():
    r = []
    for ty in "CR":
        def eqs(v, i, j):
            if i is None:
                return ["x"]
            x0, x1 = v.x1(ZERO), v.x1(IP.const(1))
            cs = [(ZERO, ZERO), (IP.const(1), ZERO)]
            return [("sum of the eigenvalues is the trace", band(beq(i, ZERO), beq(j, ZERO)), nadd(x0, x1), nadd(v.a, v.d), cs),
                    ("product of the eigenvalues is the determinant", band(beq(i, ZERO), beq(j, ZERO)), nmul(x0, x1), nsub(nmul(v.a, v.d), nmul(v.b, v.c)), cs)]
        r.append(Task("eig22_" + ty, "k", [(x, ty) for x in "abcd"], [("x", "V", ("k",), "C")], "lahqr_eig22(a, b, c, d, x[0], x[1]);",
                      pre=lambda v: [beq(v.k, IP.const(2))], eqs=eqs, fn="lahqr_eig22"))
    return r


INC = ["base/constants.hpp", "lapack/lahqr_eig22.hpp", "lapack/lahqr_shiftcolumn.hpp", "lapack/lahqz_shiftcolumn.hpp"]
KEEP = ()
