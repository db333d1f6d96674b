"""LU factorization with row interchanges."""
from contracts import *
from blas import *
from ghost import *
import lap1


def perm_ghost(v):
    """P(s): the entry matrix after the first s recorded interchanges"""
    if not hasattr(v, "_gho"):
        v._piv = Skolem("PIV", integer=True)

        def step(G, s, I, J):
            p = v._piv(s)
            return G(iite(beq(I, s), p, iite(beq(I, p), s, I)), J)
        v._gho = Ghost("P", v.A, step)
    return v._gho


def lu_eq(F, P, t, i, j):
    """row i, column j of 'P A = L U after t columns'"""
    h = imin(imin(i, j), t)
    s = nsum(ZERO, h, lambda l: nmul(F(i, l), F(l, j)))
    low = band(blt(j, i), blt(j, t))
    return nadd(s, nite(low, nmul(F(i, j), F(j, j)), F(i, j))), P(i, j)


def end(v):
    return imin(v.m, v.n)


def getrf0_tasks():
    def eqs(v, ts, i, j):
        l, r = lu_eq(v.At, perm_ghost(v).at(ts[0]), ts[0], i, j)
        return [("P A = L U so far", band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n)), l, r, [(i, j)])]
    inv = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, end(v))], eqs=eqs, arrays=("A",), bysteps=True, variant=lambda v, t: end(v) - t,
                  ghosts=lambda v: [perm_ghost(v)], skolem=lambda v, ts: [(v._piv, lambda: v.pivt(ts[0]))],
                  iposts={"piv": lambda v, ts, k: iite(blt(k, ts[0]), v._piv(k), v.piv(k))},
                  ifacts=lambda v, ts, k: [bor(ble(ts[0], k), blt(k, ZERO), band(ble(k, v._piv(k)), blt(v._piv(k), v.m)))])
    search = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, v.m - v.ts[-1][0] - 1), ble(v.ts[-1][0], v.ival["piv"]), blt(v.ival["piv"], v.m)],
                     icells=lambda v, ts: [("piv", v.ts[-1][0])], bysteps=True, variant=lambda v, t: v.m - t)

    def post(v, i, j):
        if i is None:
            return ["A"]
        t = iite(beq(v.ret, ZERO), end(v), v.ret - 1)
        l, r = lu_eq(v.A1, perm_ghost(v).at(t), t, i, j)
        return [("P A = L U", band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n)), l, r, [(i, j)]),
                ("the rejected pivot is zero", blt(ZERO, v.ret), v.A1(v.piv1(v.ret - 1), v.ret - 1), NZERO, [])]
    return [Task("getrf_level0", "m n k", [], [("A", "M", ("m", "n"), "C"), ("piv", "V", ("k",), "I")], "return getrf_level0(A, piv);", ret="int",
                 retpost=lambda v, x, i: [("0 <= info <= min(m,n)", band(ble(ZERO, x), ble(x, end(v))))],
                 pre=lambda v: [ble(end(v), v.k)], setup=lambda v, E: perm_ghost(v), eqs=post, loops=[inv, search], fn="getrf_level0",
                 ipost={"piv": lambda v, k: [("i <= piv(i) < m", bor(ble(iite(beq(v.ret, ZERO), end(v), v.ret - 1), k), band(ble(k, v.piv1(k)), blt(v.piv1(k), v.m))))]}, contracts=CON)]


CON = dict(lap1.CON)
KEEP = lap1.KEEP
INC = lap1.INC + ["lapack/getrf_level0.hpp"]
