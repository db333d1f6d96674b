"""Contracts of the BLAS templates (specs are functions of the entry contents)."""
from task import *

OPS = {"J": "CONJUGATE", "N": "NO_TRANS", "T": "TRANSPOSE", "C": "CONJ_TRANS"}
UP = {"U": "UPPER_TRIANGLE", "L": "LOWER_TRIANGLE"}
SD = {"L": "LEFT_SIDE", "R": "RIGHT_SIDE"}
DG = {"N": "NON_UNIT_DIAG", "U": "UNIT_DIAG"}


def op(f, o):
    if o == "N":
        return f
    if o == "T":
        return lambda i, j: f(j, i)
    if o == "J":
        return lambda i, j: nconj(f(i, j))
    return lambda i, j: nconj(f(j, i))


def tri_in(u, strict=False):
    """condition: (i,j) belongs to the stored triangle"""
    if u == "U":
        return (lambda i, j: blt(i, j)) if strict else (lambda i, j: ble(i, j))
    return (lambda i, j: blt(j, i)) if strict else (lambda i, j: ble(j, i))


def tri(f, u, d):
    """the triangular matrix stored in f"""
    st = tri_in(u, True)
    return lambda i, j: nite(beq(i, j), NONE_ if d == "U" else f(i, j), nite(st(i, j), f(i, j), NZERO))


def herm(f, u, kind):
    """the Hermitian/symmetric matrix stored in triangle u of f (kind 'H'/'S')"""
    st = tri_in(u, True)
    c = nconj if kind == "H" else (lambda x: x)
    dia = (lambda i: nreal(f(i, i))) if kind == "H" else (lambda i: f(i, i))
    return lambda i, j: nite(beq(i, j), dia(i), nite(st(i, j), f(i, j), c(f(j, i))))


def tri_acc(u, d="N"):
    t = tri_in(u, d == "U")
    return lambda v, i, j: t(i, j)


def gemm_tasks(types=("C",)):
    r = []
    for a in "NTC":
        for b in "NTC":
            for be in (1, 0):
                for t in types:
                    AD = ("m", "k") if a == "N" else ("k", "m")
                    BD = ("k", "n") if b == "N" else ("n", "k")
                    def post(v, i, j, a=a, b=b, be=be):
                        s = nmul(v.alpha, nsum(0, v.k, lambda l: nmul(op(v.A, a)(i, l), op(v.B, b)(l, j))))
                        return nadd(nmul(v.beta, v.C(i, j)), s) if be else s
                    r.append(Task("gemm_%s%s%s%s" % (a, b, "b" if be else "z", t), "m n k", [("alpha", t)] + ([("beta", t)] if be else []),
                                  [("A", "M", AD, t), ("B", "M", BD, t), ("C", "M", ("m", "n"), t)],
                                  "gemm(%s,%s,alpha,A,B,%sC);" % (OPS[a], OPS[b], "beta," if be else ""),
                                  post={"C": post}, fn="gemm", nobranch=True))
    return r


def symm_tasks():
    r = []
    for k, f in (("H", "hemm"), ("S", "symm")):
        for sd in "LR":
            for u in "UL":
                for be in (1, 0):
                    d = "m" if sd == "L" else "n"
                    def post(v, i, j, k=k, sd=sd, u=u, be=be):
                        A = herm(v.A, u, k)
                        if sd == "L":
                            s = nsum(0, v.m, lambda l: nmul(A(i, l), v.B(l, j)))
                        else:
                            s = nsum(0, v.n, lambda l: nmul(v.B(i, l), A(l, j)))
                        s = nmul(v.alpha, s)
                        return nadd(nmul(v.beta, v.C(i, j)), s) if be else s
                    r.append(Task("%s_%s%s%s" % (f, sd, u, "b" if be else "z"), "m n", [("alpha", "C")] + ([("beta", "C")] if be else []),
                                  [("A", "M", (d, d), "C"), ("B", "M", ("m", "n"), "C"), ("C", "M", ("m", "n"), "C")],
                                  "%s(%s,%s,alpha,A,B,%sC);" % (f, SD[sd], UP[u], "beta," if be else ""),
                                  post={"C": post}, access={"A": tri_acc(u)}, fn=f, nobranch=True))
    return r


def rk_tasks():
    r = []
    for k, f in (("H", "herk"), ("S", "syrk")):
        for u in "UL":
            for o in ("NC" if k == "H" else "NT"):
                for be in (1, 0):
                    AD = ("n", "k") if o == "N" else ("k", "n")
                    def post(v, i, j, k=k, u=u, o=o, be=be):
                        A = op(v.A, o)
                        c = nconj if k == "H" else (lambda x: x)
                        s = nmul(v.alpha, nsum(0, v.k, lambda l: nmul(A(i, l), c(A(j, l)))))
                        if be:
                            old = v.C(i, j)
                            if k == "H":
                                old = nite(beq(i, j), nreal(old), old)
                            s = nadd(nmul(v.beta, old), s)
                        return nite(tri_in(u)(i, j), s, v.C(i, j))
                    t = "R" if k == "H" else "C"
                    r.append(Task("%s_%s%s%s" % (f, u, o, "b" if be else "z"), "n k", [("alpha", t)] + ([("beta", t)] if be else []),
                                  [("A", "M", AD, "C"), ("C", "M", ("n", "n"), "C")],
                                  "%s(%s,%s,alpha,A,%sC);" % (f, UP[u], OPS[o], "beta," if be else ""),
                                  post={"C": post}, access={"C": tri_acc(u)}, waccess={"C": tri_acc(u)}, fn=f, nobranch=True))
    for k, f in (("H", "her2k"), ("S", "syr2k")):
        for u in "UL":
            for o in ("NC" if k == "H" else "NT"):
                for be in (1, 0):
                    AD = ("n", "k") if o == "N" else ("k", "n")
                    def post(v, i, j, k=k, u=u, o=o, be=be):
                        A, B_ = op(v.A, o), op(v.B, o)
                        c = nconj if k == "H" else (lambda x: x)
                        s = nadd(nmul(v.alpha, nsum(0, v.k, lambda l: nmul(A(i, l), c(B_(j, l))))),
                                 nmul(c(v.alpha), nsum(0, v.k, lambda l: nmul(B_(i, l), c(A(j, l))))))
                        if be:
                            old = v.C(i, j)
                            if k == "H":
                                old = nite(beq(i, j), nreal(old), old)
                            s = nadd(nmul(v.beta, old), s)
                        return nite(tri_in(u)(i, j), s, v.C(i, j))
                    t = "R" if k == "H" else "C"
                    r.append(Task("%s_%s%s%s" % (f, u, o, "b" if be else "z"), "n k", [("alpha", "C")] + ([("beta", t)] if be else []),
                                  [("A", "M", AD, "C"), ("B", "M", AD, "C"), ("C", "M", ("n", "n"), "C")],
                                  "%s(%s,%s,alpha,A,B,%sC);" % (f, UP[u], OPS[o], "beta," if be else ""),
                                  post={"C": post}, access={"C": tri_acc(u)}, waccess={"C": tri_acc(u)}, fn=f, nobranch=True))
    return r


def trmm_tasks():
    r = []
    for sd in "LR":
        for u in "UL":
            for o in "NTC":
                for d in "NU":
                    n = "m" if sd == "L" else "n"
                    def post(v, i, j, sd=sd, u=u, o=o, d=d):
                        A = op(tri(v.A, u, d), o)
                        if sd == "L":
                            s = nsum(0, v.m, lambda l: nmul(A(i, l), v.B(l, j)))
                        else:
                            s = nsum(0, v.n, lambda l: nmul(v.B(i, l), A(l, j)))
                        return nmul(v.alpha, s)
                    r.append(Task("trmm_%s%s%s%s" % (sd, u, o, d), "m n", [("alpha", "C")],
                                  [("A", "M", (n, n), "C"), ("B", "M", ("m", "n"), "C")],
                                  "trmm(%s,%s,%s,%s,alpha,A,B);" % (SD[sd], UP[u], OPS[o], DG[d]),
                                  post={"B": post}, access={"A": tri_acc(u, d)}, fn="trmm", nobranch=True))
    return r


def trsm_tasks():
    r = []
    for sd in "LR":
        for u in "UL":
            for o in "NTC":
                for d in "NU":
                    n = "m" if sd == "L" else "n"
                    def eqs(v, i, j, sd=sd, u=u, o=o, d=d):
                        if i is None:
                            return ["B"]
                        A = op(tri(v.A, u, d), o)
                        if sd == "L":
                            s = nsum(0, v.m, lambda l: nmul(A(i, l), v.B1(l, j)))
                        else:
                            s = nsum(0, v.n, lambda l: nmul(v.B1(i, l), A(l, j)))
                        return [("op(A) X = alpha B", band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n)), s, nmul(v.alpha, v.B(i, j)), [(i, j)])]
                    def back(v, eqs=eqs):
                        return (lambda i, j: eqs(v, i, j)[0][2]) if v.alpha is NONE_ else None
                    r.append(Task("trsm_%s%s%s%s" % (sd, u, o, d), "m n", [("alpha", "C")],
                                  [("A", "M", (n, n), "C"), ("B", "M", ("m", "n"), "C")],
                                  "trsm(%s,%s,%s,%s,alpha,A,B);" % (SD[sd], UP[u], OPS[o], DG[d]),
                                  eqs=eqs, back=back, access={"A": tri_acc(u, d)}, fn="trsm", nobranch=True))
    return r


def trv_tasks():
    r = []
    for u in "UL":
        for o in "NTCJ":
            for d in "NU":
                def post(v, i, j, u=u, o=o, d=d):
                    A = op(tri(v.A, u, d), o)
                    return nsum(0, v.n, lambda l: nmul(A(i, l), v.x(l)))
                def eqs(v, i, j, u=u, o=o, d=d):
                    if i is None:
                        return ["x"]
                    A = op(tri(v.A, u, d), o)
                    return [("op(A) x = b", band(ble(ZERO, i), blt(i, v.n)), nsum(0, v.n, lambda l: nmul(A(i, l), v.x1(l))), v.x(i), [(i, ZERO)])]
                ar = [("A", "M", ("n", "n"), "C"), ("x", "V", ("n",), "C")]
                r.append(Task("trmv_%s%s%s" % (u, o, d), "n", [], ar, "trmv(%s,%s,%s,A,x);" % (UP[u], OPS[o], DG[d]),
                              post={"x": post}, access={"A": tri_acc(u, d)}, fn="trmv", nobranch=True))
                r.append(Task("trsv_%s%s%s" % (u, o, d), "n", [], ar, "trsv(%s,%s,%s,A,x);" % (UP[u], OPS[o], DG[d]),
                              eqs=eqs, access={"A": tri_acc(u, d)}, fn="trsv", nobranch=True))
    return r


def blas2_tasks():
    r = []
    for o in ("N", "T", "C", "J"):
        for be in (1, 0):
            opn = {"J": "CONJUGATE"}.get(o) or OPS[o]
            xd, yd = ("n", "m") if o in "NJ" else ("m", "n")
            def post(v, i, j, o=o, be=be):
                A = (lambda a, b: nconj(v.A(a, b))) if o == "J" else op(v.A, o)
                s = nmul(v.alpha, nsum(0, v.n if o in "NJ" else v.m, lambda l: nmul(A(i, l), v.x(l))))
                return nadd(nmul(v.beta, v.y(i)), s) if be else s
            r.append(Task("gemv_%s%s" % (o, "b" if be else "z"), "m n", [("alpha", "C")] + ([("beta", "C")] if be else []),
                          [("A", "M", ("m", "n"), "C"), ("x", "V", (xd,), "C"), ("y", "V", (yd,), "C")],
                          "gemv(%s,alpha,A,x,%sy);" % (opn, "beta," if be else ""), post={"y": post}, fn="gemv", nobranch=True))
    for f, c in (("ger", 1), ("geru", 0)):
        r.append(Task(f, "m n", [("alpha", "C")], [("A", "M", ("m", "n"), "C"), ("x", "V", ("m",), "C"), ("y", "V", ("n",), "C")],
                      f + "(alpha,x,y,A);", post={"A": lambda v, i, j, c=c: nadd(v.A(i, j), nmul(v.alpha, v.x(i), nconj(v.y(j)) if c else v.y(j)))},
                      fn=f, nobranch=True))
    for k, f in (("H", "hemv"), ("S", "symv")):
        for u in "UL":
            for be in (1, 0):
                def post(v, i, j, k=k, u=u, be=be):
                    A = herm(v.A, u, k)
                    s = nmul(v.alpha, nsum(0, v.n, lambda l: nmul(A(i, l), v.x(l))))
                    return nadd(nmul(v.beta, v.y(i)), s) if be else s
                r.append(Task("%s_%s%s" % (f, u, "b" if be else "z"), "n", [("alpha", "C")] + ([("beta", "C")] if be else []),
                              [("A", "M", ("n", "n"), "C"), ("x", "V", ("n",), "C"), ("y", "V", ("n",), "C")],
                              "%s(%s,alpha,A,x,%sy);" % (f, UP[u], "beta," if be else ""), post={"y": post}, access={"A": tri_acc(u)}, fn=f, nobranch=True))
    for k, f in (("H", "her"), ("S", "syr")):
        for u in "UL":
            c = nconj if k == "H" else (lambda x: x)
            def post(v, i, j, k=k, u=u, c=c):
                old = v.A(i, j)
                if k == "H":
                    old = nite(beq(i, j), nreal(old), old)
                return nite(tri_in(u)(i, j), nadd(old, nmul(v.alpha, v.x(i), c(v.x(j)))), v.A(i, j))
            r.append(Task("%s_%s" % (f, u), "n", [("alpha", "R" if k == "H" else "C")], [("A", "M", ("n", "n"), "C"), ("x", "V", ("n",), "C")],
                          "%s(%s,alpha,x,A);" % (f, UP[u]), post={"A": post}, access={"A": tri_acc(u)}, waccess={"A": tri_acc(u)}, fn=f, nobranch=True))
            def post2(v, i, j, k=k, u=u, c=c):
                old = v.A(i, j)
                if k == "H":
                    old = nite(beq(i, j), nreal(old), old)
                return nite(tri_in(u)(i, j), nadd(old, nmul(v.alpha, v.x(i), c(v.y(j))), nmul(c(v.alpha), v.y(i), c(v.x(j)))), v.A(i, j))
            r.append(Task("%s2_%s" % (f, u), "n", [("alpha", "C")], [("A", "M", ("n", "n"), "C"), ("x", "V", ("n",), "C"), ("y", "V", ("n",), "C")],
                          "%s2(%s,alpha,x,y,A);" % (f, UP[u]), post={"A": post2}, access={"A": tri_acc(u)}, waccess={"A": tri_acc(u)}, fn=f + "2", nobranch=True))
    return r


def blas1_tasks():
    XY = [("x", "V", ("n",), "C"), ("y", "V", ("n",), "C")]
    r = [
        Task("axpy", "n", [("alpha", "C")], XY, "axpy(alpha,x,y);", post={"y": lambda v, i, j: nadd(v.y(i), nmul(v.alpha, v.x(i)))}, fn="axpy", nobranch=True),
        Task("copyv", "n", [], XY, "copy(x,y);", post={"y": lambda v, i, j: v.x(i)}, fn="copy", nobranch=True),
        Task("swapv", "n", [], XY, "tlapack::swap(x,y);", post={"y": lambda v, i, j: v.x(i), "x": lambda v, i, j: v.y(i)}, fn="swap", nobranch=True),
        Task("scalv", "n", [("alpha", "C")], XY[:1], "scal(alpha,x);", post={"x": lambda v, i, j: nmul(v.alpha, v.x(i))}, fn="scal", nobranch=True),
        Task("dotc", "n", [], XY, "return dot(x,y).h;", ret="H", retval=lambda v: nsum(0, v.n, lambda l: nmul(nconj(v.x(l)), v.y(l))), fn="dot", nobranch=True),
        Task("dotu", "n", [], XY, "return dotu(x,y).h;", ret="H", retval=lambda v: nsum(0, v.n, lambda l: nmul(v.x(l), v.y(l))), fn="dotu", nobranch=True),
        Task("rotv", "n", [("c", "R"), ("s", "C")], XY, "rot(x,y,c,s);", post={
            "x": lambda v, i, j: nadd(nmul(v.c, v.x(i)), nmul(v.s, v.y(i))),
            "y": lambda v, i, j: nsub(nmul(v.c, v.y(i)), nmul(nconj(v.s), v.x(i)))}, fn="rot", nobranch=True),
        Task("asum", "n", [], XY[:1], "return asum(x).h;", ret="H", retpost=lambda v, rv, i: [("result", (rv, nsum(0, v.n, lambda l: nadd(N("app", ("abs", nreal(v.x(l)))), N("app", ("abs", nmul(q(Fraction(-1, 2)), NI, nsub(v.x(l), nconj(v.x(l))))))))))], fn="asum", nobranch=True),
    ]
    return r


INC = ["blas/%s.hpp" % x for x in "gemm hemm symm herk syrk her2k syr2k trmm trsm trmv trsv gemv ger geru hemv symv her syr her2 syr2 axpy copy swap scal dot dotu rot asum".split()]
