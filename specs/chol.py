"""Cholesky factorizations: on success the stored factor multiplies back to
the matrix; a positive return value k identifies the order of the leading
minor that is not positive definite (the pivot that was rejected is the Schur
complement of the leading block)."""
from contracts import *
from blas import *

INC0 = INC
UPL = {"U": "Uplo::Upper", "L": "Uplo::Lower"}


def chol_task(name, u, code, fn, **kw):
    def F(f, u=u):             # lower factor L of A = L L^H read from the storage
        return f if u == "L" else (lambda i, j: nconj(f(j, i)))

    def dom(v, i, j):
        return band(ble(ZERO, j), ble(j, i), blt(i, v.n), bor(beq(v.ret, ZERO), band(blt(i, v.ret), blt(j, v.ret - 1))))

    def eqs(v, a, b, u=u):
        if a is None:
            return ["A"]
        i, j = (a, b) if u == "L" else (b, a)
        L, A0 = F(v.A1), herm(v.A, u, "H")
        s = nsum(0, j + 1, lambda l: nmul(L(i, l), nconj(L(j, l))))
        return [("L L^H = A", dom(v, i, j), s, A0(i, j), [(a, b)])]

    def ghost(v, u=u):
        L, A0 = F(v.A1), herm(v.A, u, "H")
        k = v.ret - 1
        return [("rejected pivot is the Schur complement of the leading block", ble(ONE, v.ret), v.ghost,
                 nsub(A0(k, k), nsum(0, k, lambda l: nmul(L(k, l), nconj(L(k, l))))))]
    return Task(name, "n", [], [("A", "M", ("n", "n"), "C")], code, ret="int",
                retpost=lambda v, r, i: [("0 <= info <= n", band(ble(ZERO, r), ble(r, v.n)))],
                eqs=eqs, ghost=ghost, access={"A": tri_acc(u)}, waccess={"A": tri_acc(u)}, fn=fn, measure=lambda v: v.n, contracts=CON, **kw)


def potrf2_tasks():
    return [chol_task("potrf2_" + u, u, "return potrf2(%s, A);" % UPL[u], "potrf2") for u in "LU"]


def left_inv(u, nints=1):
    """first t columns (rows) factored, the rest untouched"""
    def eqs(v, ts, a, b):
        t = ts[0]
        F = (lambda f: f) if u == "L" else (lambda f: lambda i, j: nconj(f(j, i)))
        i, j = (a, b) if u == "L" else (b, a)
        L, A0 = F(v.At), herm(v.A, u, "H")
        s = nsum(0, j + 1, lambda l: nmul(L(i, l), nconj(L(j, l))))
        return [("factored part", band(ble(ZERO, j), ble(j, i), blt(i, v.n), blt(j, t)), s, A0(i, j), [(a, b)]),
                ("untouched part", band(ble(t, j), ble(j, i), blt(i, v.n)), v.At(a, b), v.A(a, b), [(a, b)])]
    return eqs


def potf2_tasks():
    r = []
    for u in "LU":
        inv = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, v.n)], eqs=left_inv(u), arrays=("A",), variant=lambda v, t: v.n - t)
        r.append(chol_task("potf2_" + u, u, "return potf2(%s, A);" % UPL[u], "potf2", loops=[inv]))
    return r


def right_inv(u):
    """first t columns (rows) factored, the rest holds the Schur complement"""
    def eqs(v, ts, a, b):
        t = ts[0]
        F = (lambda f: f) if u == "L" else (lambda f: lambda i, j: nconj(f(j, i)))
        i, j = (a, b) if u == "L" else (b, a)
        L, A0 = F(v.At), herm(v.A, u, "H")
        s = nsum(0, j + 1, lambda l: nmul(L(i, l), nconj(L(j, l))))
        s2 = nsum(0, t, lambda l: nmul(L(i, l), nconj(L(j, l))))
        return [("factored part", band(ble(ZERO, j), ble(j, i), blt(i, v.n), blt(j, t)), s, A0(i, j), [(a, b)]),
                ("remaining part", band(ble(t, j), ble(j, i), blt(i, v.n)), nite(beq(i, j), nreal(v.At(a, b)), L(i, j)),
                 nsub(A0(i, j), s2), [(a, b)])]
    return eqs


def blocked_tasks():
    r = []
    for u in "LU":
        for f, iv in (("potrf_blocked", left_inv), ("potrf_rl", right_inv)):
            inv = LoopInv(facts=lambda v, t: [ble(ZERO, t)], eqs=iv(u), arrays=("A",), variant=lambda v, t: v.n + v.nb - t)
            r.append(chol_task(f + "_" + u, u, "BlockedCholeskyOpts o; o.nb = nb; return %s(%s, A, o);" % (f, UPL[u]), f, loops=[inv],
                               ints="nb", pre=lambda v: [ble(ONE, v.nb)]))
    return r


def potrf_tasks():
    r = []
    for u in "LU":
        for k in ("Blocked", "Recursive", "Level2", "RightLooking"):
            r.append(chol_task("potrf_%s_%s" % (k, u), u, "PotrfOpts o; o.nb = nb; o.variant = PotrfVariant::%s; return potrf(%s, A, o);" % (k, UPL[u]), "potrf",
                               ints="nb", pre=lambda v: [ble(ONE, v.nb)]))
    return r


def potrs_tasks():
    r = []
    for u in "LU":
        def eqs(v, i, j, u=u):
            if i is None:
                return ["B"]
            T_ = tri(v.A, u, "N")
            L = T_ if u == "L" else (lambda i, j: nconj(T_(j, i)))
            s = nsum(0, v.n, lambda k: nmul(L(i, k), nsum(0, v.n, lambda l: nmul(nconj(L(l, k)), v.B1(l, j)))))
            return [("L L^H X = B", band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.m)), s, v.B(i, j), [(i, j)])]
        r.append(Task("potrs_" + u, "n m", [], [("A", "M", ("n", "n"), "C"), ("B", "M", ("n", "m"), "C")], "return potrs(%s, A, B);" % UPL[u],
                      ret="int", retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs, access={"A": tri_acc(u)}, fn="potrs", contracts=CON))
    return r


CON = dict(BLAS)
CON["potrf_blocked"] = Callee(["f", "A", "o:nb@8"], lambda f, n, v: "potrf_blocked_" + f[0], [blocked_tasks])
CON["potrf_rl"] = Callee(["f", "A", "o:nb@8"], lambda f, n, v: "potrf_rl_" + f[0], [blocked_tasks])
CON["potf2"] = Callee(["f", "A"], lambda f, n, v: "potf2_" + f[0], [potf2_tasks])
CON["potrf2"] = recursive(["f", "A", "_"], lambda f, n, v: "potrf2_" + f[0], [potrf2_tasks], lambda v: v["A"].m)
KEEP = KEEPB + ("potrf2", "potf2", "potrf_blocked", "potrf_rl")
INC = INC0 + ["lapack/%s.hpp" % x for x in "potrf2 potf2 potrf_blocked potrf_blocked_right_looking potrf potrs".split()]
