"""Sequences of Householder reflectors: applying Q (unm*2), generating it (ung*2),
against the recursive definition of the product of the reflectors."""
from contracts import *
from blas import *
from ghost import *
import lap1
import hh

UPL, SDE, OPE, DIR, STV = hh.UPL, hh.SDE, hh.OPE, hh.DIR, hh.STV


def nQ(v, sd):
    return v.m if sd == "L" else v.n


def order(sd, o, di, st):
    """is the reflector with the smallest index applied first?"""
    up = (o == "N") == (di == "B")          # Q = H1 ... Hk (forward): Q C applies Hk first
    if st == "R":
        up = not up                         # Q = (H1 ... Hk)^H
    return up if sd == "L" else not up


def refl(v, di, st, n):
    """x(i)(l): element l of reflector vector i"""
    A = v.V if st == "C" else (lambda l, p: nconj(v.V(p, l)))
    sh = ZERO if di == "F" else n - v.k
    return lambda i: lambda l: nite(beq(l, i + sh), NONE_, nite(blt(i + sh, l) if di == "F" else blt(l, i + sh), A(l, i), NZERO))


def unmq_ghost(sd, o, di, st):
    def g(v):
        if not hasattr(v, "_gho"):
            def step(G, s, I, J):
                i = s if order(sd, o, di, st) else v.k - 1 - s
                x = refl(v, di, st, nQ(v, sd))(i)
                tau = v.tau(i) if (o == "N") == (st == "C") else nconj(v.tau(i))
                if sd == "L":
                    e = nmul(x(I), nsum(0, v.m, lambda l: nmul(nconj(x(l)), G(l, J))))
                else:
                    e = nmul(nsum(0, v.n, lambda l: nmul(G(I, l), x(l))), nconj(x(J)))
                return nsub(G(I, J), nmul(tau, e))
            v._gho = Ghost("G", v.C, step)
        return v._gho
    return g


def unmq2_tasks(fn="unmq_level2", combos=None):
    r = []
    for sd in "LR":
        for o in "NC":
            for di in "FB":
                for st in "CR":
                    g = unmq_ghost(sd, o, di, st)
                    d = "m" if sd == "L" else "n"
                    inv = LoopInv(facts=lambda v, s: [ble(ZERO, s), ble(s, v.k)], posts={"C": ghost_post(g, lambda v, s: s)}, variant=lambda v, s: v.k - s, bysteps=True)

                    def vacc(v, i, j, di=di, st=st, d=d):
                        if st == "R":
                            i, j = j, i
                        return blt(j, i) if di == "F" else blt(i - (getattr(v, d) - v.k), j)
                    name = {("F", "C"): "unm2r", ("F", "R"): "unml2", ("B", "C"): "unm2l", ("B", "R"): "unmr2"}[di, st]
                    for f in (fn, name):
                        code = "unmq_level2(%s,%s,%s,%s,V,tau,C)" % (SDE[sd], OPE[o], DIR[di], STV[st]) if f == fn else "%s(%s,%s,V,tau,C)" % (f, SDE[sd], OPE[o])
                        r.append(Task("%s_%s%s%s%s" % (f, sd, o, di, st), "m n k", [], [("V", "M", (d, "k") if st == "C" else ("k", d), "C"), ("tau", "V", ("k",), "C"), ("C", "M", ("m", "n"), "C")],
                                      "return %s;" % code, ret="int", retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))],
                                      pre=lambda v, d=d: [ble(v.k, getattr(v, d))], post={"C": (lambda g: lambda v, i, j: g(v).at(v.k)(i, j))(g)},
                                      access={"V": vacc}, fn=f, loops=[inv], contracts=CON))
    return r


def ungq_ghost(v, di, st):
    """E(s): the identity's leading (forward) or trailing (backward) columns
    after applying the first s reflectors the algorithm uses"""
    if not hasattr(v, "_gho"):
        M, Np = (v.m, v.n) if st == "C" else (v.n, v.m)      # order of Q, number of vectors
        sh = ZERO if di == "F" else M - Np
        delta = lambda a, b: nite(beq(a, b + sh), NONE_, NZERO)
        ab = (lambda i, j: (i, j)) if st == "C" else (lambda i, j: (j, i))

        def step(G, s, i, j):
            p = v.k - 1 - s if di == "F" else s
            X = xvec(v, di, st, p)
            if st == "C":
                return nsub(G(i, j), nmul(v.tau(p), X(i), nsum(ZERO, v.m, lambda l: nmul(nconj(X(l)), G(l, j)))))
            return nsub(G(i, j), nmul(nconj(v.tau(p)), nconj(X(j)), nsum(ZERO, v.n, lambda l: nmul(G(i, l), X(l)))))
        g = Ghost("E", lambda i, j: delta(*ab(i, j)), step)

        def untouched(s, i, j):
            a, b = ab(i, j)
            inn = band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n))
            return band(inn, bor(blt(a, v.k - s), blt(b, v.k - s)) if di == "F" else bor(ble(M - v.k + s, a), ble(Np - v.k + s, b)))
        g.lemma("lines the reflectors have not reached are those of the identity", untouched, lambda s, i, j: delta(*ab(i, j)), v.k)
        v.ghosts = [g]
        v._gho = g
    return v._gho


def xvec(v, di, st, p):
    """reflector p stored in line p (forward) or Np-k+p (backward) of A"""
    M, Np = (v.m, v.n) if st == "C" else (v.n, v.m)
    ln = p if di == "F" else Np - v.k + p
    one = p if di == "F" else M - v.k + p
    A = (lambda l: v.A(l, ln)) if st == "C" else (lambda l: nconj(v.A(ln, l)))
    return lambda l: nite(beq(l, one), NONE_, nite(blt(one, l) if di == "F" else blt(l, one), A(l), NZERO))


def ungq2_tasks(fn="ungq_level2"):
    r = []
    for di in "FB":
        for st in "CR":
            name = {("F", "C"): "ung2r", ("F", "R"): "ungl2", ("B", "C"): "ung2l", ("B", "R"): "ungr2"}[di, st]

            def contents(v, s, i, j, di=di, st=st):
                b = j if st == "C" else i
                Np = v.n if st == "C" else v.m
                return nite(blt(b, v.k - s) if di == "F" else ble(Np - v.k + s, b), v.A(i, j), ungq_ghost(v, di, st).at(s)(i, j))
            inv = LoopInv(facts=lambda v, s: [ble(ZERO, s), ble(s, v.k)], bysteps=True, variant=lambda v, s: v.k - s,
                          posts={"A": (lambda c: lambda v, ts, i, j: c(v, ts[0], i, j))(contents)}, ghosts=(lambda di, st: lambda v: [ungq_ghost(v, di, st)])(di, st))
            for f in (fn, name):
                code = "ungq_level2(%s,%s,A,tau)" % (DIR[di], STV[st]) if f == fn else "%s(A,tau)" % f
                r.append(Task("%s_%s%s" % (f, di, st), "m n k", [], [("A", "M", ("m", "n"), "C"), ("tau", "V", ("k",), "C")], "return %s;" % code, ret="int",
                              retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], setup=(lambda di, st: lambda v, E: ungq_ghost(v, di, st))(di, st),
                              pre=lambda v, st=st: [ble(v.n, v.m), ble(v.k, v.n)] if st == "C" else [ble(v.m, v.n), ble(v.k, v.m)],
                              post={"A": (lambda di, st: lambda v, i, j: ungq_ghost(v, di, st).at(v.k)(i, j))(di, st)}, fn=f, loops=[inv], contracts=CON))
    return r


def _larfw(args):
    if args[2][0] == "e":
        return ["f", "f", "f", "v", "tau", "C", hh.larf_room(args)]
    return ["f", "f", "x", "tau", "C0", "C1_", "W"]


CON = dict(lap1.CON)
CON["larf_work"] = Callee(_larfw, lambda f, n, v: "larf_" + "".join(f) if len(f) == 3 else "larf2_" + "".join(f), [hh.larf_tasks, hh.larf2_tasks])
KEEP = lap1.KEEP + ("lacpy", "laset", "larf_work")
INC = hh.INC + ["lapack/%s.hpp" % x for x in "unmq_level2 unm2r unm2l unml2 unmr2 ungq_level2 ung2r ung2l ungl2 ungr2".split()]
