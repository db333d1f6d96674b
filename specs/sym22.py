"""Contracts of scalar kernels: norms of two and three numbers, 2-by-2 symmetric eigenvalues, 2-by-2 singular values (exact arithmetic)."""
from blas import *

I = IP.const
V4 = lambda n: [beq(n, I(4))]
D0 = lambda i, j: band(beq(i, ZERO), beq(j, ZERO))


def sq(x):
    return nmul(x, x)


def lapy_tasks():
    r = []
    for nm, vs in (("lapy2", "ab"), ("lapy3", "abc")):
        def eqs(v, i, j, vs=vs):
            if i is None:
                return ["x"]
            s = q(0)
            for x in vs:
                s = nadd(s, sq(getattr(v, x)))
            return [("square is the sum of squares", D0(i, j), sq(v.x1(ZERO)), s, [(ZERO, ZERO)])]
        r.append(Task(nm, "k", [(x, "R") for x in vs], [("x", "V", ("k",), "R")], "x[0] = %s(%s);" % (nm, ", ".join(vs)), pre=lambda v: [beq(v.k, I(1))], eqs=eqs, fn=nm))
    return r


def lae2_tasks():
    cs = [(I(k), ZERO) for k in range(4)]

    def eqs(v, i, j, vec=False):
        if i is None:
            return ["x"]
        s1, s2, c, s = [v.x1(I(k)) for k in range(4)]
        out = [("sum of the eigenvalues is the trace", D0(i, j), nadd(s1, s2), nadd(v.a, v.c), cs),
               ("product of the eigenvalues is the determinant", D0(i, j), nmul(s1, s2), nsub(nmul(v.a, v.c), sq(v.b)), cs)]
        if vec:
            out += [("unit eigenvector", D0(i, j), nadd(sq(c), sq(s)), q(1), cs),
                    ("eigenvector, first row", D0(i, j), nadd(nmul(v.a, c), nmul(v.b, s)), nmul(s1, c), cs),
                    ("eigenvector, second row", D0(i, j), nadd(nmul(v.b, c), nmul(v.c, s)), nmul(s1, s), cs)]
        return out
    X = [("x", "V", ("k",), "R")]
    A = [(x, "R") for x in "abc"]
    return [Task("lae2", "k", A, X, "lae2(a, b, c, x[0], x[1]);", pre=lambda v: V4(v.k), eqs=eqs, fn="lae2"),
            Task("laev2", "k", A, X, "laev2(a, b, c, x[0], x[1], x[2], x[3]);", pre=lambda v: V4(v.k), eqs=lambda v, i, j: eqs(v, i, j, True), fn="laev2")]


def sv22_tasks():
    cs = [(I(k), ZERO) for k in range(2)]

    def eqs(v, i, j):
        if i is None:
            return ["x"]
        mn, mx = v.x1(ZERO), v.x1(I(1))
        return [("squares sum to the squared Frobenius norm", D0(i, j), nadd(sq(mn), sq(mx)), nadd(nadd(sq(v.f), sq(v.g)), sq(v.h)), cs),
                ("squared product is the squared determinant", D0(i, j), sq(nmul(mn, mx)), sq(nmul(v.f, v.h)), cs)]
    return [Task("singularvalues22", "k", [(x, "R") for x in "fgh"], [("x", "V", ("k",), "R")], "singularvalues22(f, g, h, x[0], x[1]);", pre=lambda v: V4(v.k), eqs=eqs, fn="singularvalues22")]


INC = ["lapack/%s.hpp" % x for x in "lapy2 lapy3 lae2 laev2 singularvalues22 svd22".split()]
KEEP = ()
