"""Householder reflectors: applying one (larf), the triangular factor of a
block (larft), applying a block (larfb)."""
from contracts import *
from blas import *
from ghost import *
import lap1

UPL, SDE, OPE = lap1.UPL, lap1.SDE, lap1.OPE
DIR = {"F": "Direction::Forward", "B": "Direction::Backward"}
STV = {"C": "StoreV::Columnwise", "R": "StoreV::Rowwise"}


def larf_need(sd, m, n):
    """workspace of larf: one entry per column (row) of C, none for a reflector of order one"""
    return iite(ble(m, ONE), ZERO, n) if sd == "L" else iite(ble(n, ONE), ZERO, m)


def larf_room(args):
    return lambda views: larf_need(args[0][1], views["C"].m, views["C"].n)


def larf_tasks(work=False):
    r = []
    for sd in "LR":
        for di in "FB":
            for st in "CR":
                d = "m" if sd == "L" else "n"

                def H(v, sd=sd, di=di, st=st, d=d):
                    n = getattr(v, d)
                    one = ZERO if di == "F" else n - 1
                    x = lambda i: v.v(i) if st == "C" else nconj(v.v(i))
                    return lambda i: nite(beq(i, one), NONE_, x(i))

                def post(v, i, j, sd=sd, d=d, H=H):
                    x = H(v)
                    if sd == "L":
                        s = nmul(x(i), nsum(0, v.m, lambda l: nmul(nconj(x(l)), v.C(l, j))))
                    else:
                        s = nmul(nsum(0, v.n, lambda l: nmul(v.C(i, l), x(l))), nconj(x(j)))
                    return nsub(v.C(i, j), nmul(v.tau, s))
                r.append(Task("larf_%s%s%s" % (sd, di, st), "m n", [("tau", "C")], [("v", "V", (d,), "C"), ("C", "M", ("m", "n"), "C")],
                              "larf(%s,%s,%s,v,tau,C);" % (SDE[sd], DIR[di], STV[st]), pre=lambda v, d=d: [ble(ONE, getattr(v, d))],
                              post={"C": post}, access={"v": (lambda di, d: lambda v, i, j: bnot(beq(i, ZERO if di == "F" else getattr(v, d) - 1)))(di, d)},
                              fn="larf", contracts=CON))
                if work:
                    t, o = r.pop(), "n" if sd == "L" else "m"
                    r.append(Task("larfw_%s%s%s" % (sd, di, st), "m n w", [("tau", "C")], [("v", "V", (d,), "C"), ("C", "M", ("m", "n"), "C"), ("W", "V", ("w",), "C")],
                                  "VMat<VC> W2{W.base,0,0,idx(w),1}; larf_work(%s,%s,%s,v,tau,C,W2);" % (SDE[sd], DIR[di], STV[st]),
                                  pre=lambda v, sd=sd, d=d: [ble(ONE, getattr(v, d)), ble(larf_need(sd, v.m, v.n), v.w)], post={"C": post}, access=t.access, fn="larf_work", contracts=CON))
    return r


def larfw_tasks():
    """larf_work with any workspace that has room for one entry per column (row) of C"""
    return larf_tasks(True)


def vpart(v, di, st, d):
    """the reflector block: column p of the matrix whose columns are the vectors"""
    A = v.V if st == "C" else (lambda i, p: nconj(v.V(p, i)))
    sh = ZERO if di == "F" else getattr(v, d) - v.k
    low = di == "F"
    return lambda i, p: nite(beq(i - sh, p), NONE_, nite(blt(p, i - sh) if low else blt(i - sh, p), A(i, p), NZERO))


def larfb_tasks():
    r = []
    for sd in "LR":
        for o in "NC":
            for di in "FB":
                for st in "CR":
                    d = "m" if sd == "L" else "n"

                    def post(v, i, j, sd=sd, di=di, st=st, d=d, o=o):
                        V = vpart(v, di, st, d)
                        T_ = op(tri(v.T, "U" if di == "F" else "L", "N"), o)
                        if sd == "L":
                            s = nsum(0, v.k, lambda p: nmul(V(i, p), nsum(0, v.k, lambda q: nmul(T_(p, q), nsum(0, v.m, lambda l: nmul(nconj(V(l, q)), v.C(l, j)))))))
                        else:
                            s = nsum(0, v.k, lambda p: nmul(nconj(V(j, p)), nsum(0, v.k, lambda q: nmul(T_(q, p), nsum(0, v.n, lambda l: nmul(V(l, q), v.C(i, l)))))))
                        return nsub(v.C(i, j), s)

                    def lemmas(v, i, j, sd=sd, di=di, st=st, d=d, o=o):
                        t, g = v.call("trmm"), v.call("gemm")
                        if len(t) != 3:
                            return []
                        V = vpart(v, di, st, d)
                        T_ = op(tri(v.T, "U" if di == "F" else "L", "N"), o)
                        n = getattr(v, d)
                        L = sd == "L"
                        sw = (lambda a, b: (a, b)) if L else (lambda a, b: (b, a))      # (row/col index of the side, other)
                        x, y = (i, j) if L else (j, i)
                        off = ZERO if di == "F" else n - v.k
                        off2 = v.k if di == "F" else ZERO
                        k0 = [lambda *_: (ZERO, v.k)]
                        Vx = (lambda p: V(x, p)) if L else (lambda p: nconj(V(x, p)))
                        Tf = T_ if L else (lambda p, q: T_(q, p))
                        r = [SumEq(v, t[2], lambda: sw(x - off, y)),
                             SumEq(v, t[1], lambda p: sw(p, y), k0, Vx)]
                        for c in [t[0]] + g[:1]:
                            r.append(SumEq(v, c, lambda p, q: sw(q, y), k0 * 2, lambda p, q: nmul(Vx(p), Tf(p, q))))
                        if len(g) == 2:
                            r.append(SumEq(v, g[1], lambda: sw(x - off2, y)))
                        return r

                    def vacc(v, i, j, di=di, st=st, d=d):
                        if st == "R":
                            i, j = j, i
                        return blt(j, i) if di == "F" else blt(i - (getattr(v, d) - v.k), j)
                    r.append(Task("larfb_%s%s%s%s" % (sd, o, di, st), "m n k", [], [("V", "M", (d, "k") if st == "C" else ("k", d), "C"), ("T", "M", ("k", "k"), "C"), ("C", "M", ("m", "n"), "C")],
                                  "return larfb(%s,%s,%s,%s,V,T,C);" % (SDE[sd], OPE[o], DIR[di], STV[st]), ret="int", retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))],
                                  pre=lambda v, d=d: [ble(v.k, getattr(v, d))],
                                  post={"C": post}, access={"V": vacc, "T": tri_acc("U" if di == "F" else "L")}, fn="larfb", contracts=CON, opaque=("trmm", "gemm"), lemmas=lemmas))
    return r


def larft_tasks():
    r = []
    for di in "FB":
        for st in "CR":
            def unit(v, di=di, st=st):
                """the block of reflector vectors (one per column), n of them long"""
                A = v.V if st == "C" else (lambda i, p: nconj(v.V(p, i)))
                sh = ZERO if di == "F" else v.n - v.k
                return lambda i, p: nite(beq(i - sh, p), NONE_, nite(blt(p, i - sh) if di == "F" else blt(i - sh, p), A(i, p), NZERO))

            def eq(v, T_, j, i, di=di, unit=unit):
                V = unit(v)
                w = lambda p: nsum(0, v.n, lambda l: nmul(nconj(V(l, p)), V(l, i)))
                lo, hi = (j, i) if di == "F" else (i + 1, j + 1)
                return nmul(v.tau(i), nsum(lo, hi, lambda p: nmul(T_(j, p), w(p))))

            def eqs(v, j, i, di=di, eq=eq):
                if j is None:
                    return ["T"]
                off = blt(j, i) if di == "F" else blt(i, j)
                dom = band(ble(ZERO, i), blt(i, v.k), ble(ZERO, j), blt(j, v.k))
                return [("T(i,i) = tau(i)", band(dom, beq(i, j)), v.T1(j, i), v.tau(i), [(j, i)]),
                        ("T(j,i) = - tau(i) sum T(j,p) (V^H v_i)(p)", band(dom, off), v.T1(j, i), nneg(eq(v, v.T1, j, i)), [(j, i)])]

            def inv(v, ts, j, i, di=di, eq=eq):
                t = ts[0]
                done = blt(i, t) if di == "F" else blt(t, i)
                off = blt(j, i) if di == "F" else blt(i, j)
                dom = band(ble(ZERO, i), blt(i, v.k), ble(ZERO, j), blt(j, v.k))
                return [("diagonal", band(dom, done, beq(i, j)), v.Tt(j, i), v.tau(i), [(j, i)]),
                        ("finished columns", band(dom, done, off), v.Tt(j, i), nneg(eq(v, v.Tt, j, i)), [(j, i)])]
            li = LoopInv(facts=(lambda di: lambda v, t: [ble(ONE, t), ble(t, v.k)] if di == "F" else [ble(-1, t), ble(t, v.k - 2)])(di),
                         eqs=inv, arrays=("T",), variant=(lambda v, t: v.k - t) if di == "F" else (lambda v, t: t + 1))
            u = "U" if di == "F" else "L"
            r.append(Task("larft_%s%s" % (di, st), "n k", [], [("V", "M", ("n", "k") if st == "C" else ("k", "n"), "C"), ("tau", "V", ("k",), "C"), ("T", "M", ("k", "k"), "C")],
                          "return larft(%s,%s,V,tau,T);" % (DIR[di], STV[st]), ret="int", retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))],
                          pre=lambda v: [ble(v.k, v.n)], eqs=eqs, access={"T": tri_acc(u)}, waccess={"T": tri_acc(u)}, fn="larft", loops=[li], contracts=CON))
    return r


def larf2_tasks():
    """larf with the row/column of the unit element given separately"""
    r = []
    for sd in "LR":
        for st in "CR":
            L = sd == "L"

            def sm(v, j, L=L, st=st):
                x = (lambda i: v.x(i)) if st == "C" else (lambda i: nconj(v.x(i)))
                if L:
                    return nadd(v.C0(j), nsum(0, v.m, lambda l: nmul(nconj(x(l)), v.C1_(l, j))))
                return nadd(v.C0(j), nsum(0, v.n, lambda l: nmul(v.C1_(j, l), x(l))))

            def p0(v, i, j, sm=sm):
                return nsub(v.C0(i), nmul(v.tau, sm(v, i)))

            def p1(v, i, j, L=L, st=st, sm=sm):
                x = (lambda i: v.x(i)) if st == "C" else (lambda i: nconj(v.x(i)))
                e = nmul(x(i), sm(v, j)) if L else nmul(sm(v, i), nconj(x(j)))
                return nsub(v.C1_(i, j), nmul(v.tau, e))
            d, o = ("m", "n") if L else ("n", "m")
            r.append(Task("larf2_%s%s" % (sd, st), "m n w", [("tau", "C")], [("x", "V", (d,), "C"), ("C0", "V", (o,), "C"), ("C1_", "M", ("m", "n"), "C"), ("W", "V", ("w",), "C")],
                          "VMat<VC> W2{W.base,0,0,idx(w),1}; larf_work(%s,%s,x,tau,C0,C1_,W2);" % (SDE[sd], STV[st]), pre=lambda v, o=o: [ble(getattr(v, o), v.w)],
                          post={"C0": p0, "C1_": p1}, fn="larf_work", contracts=CON))
    return r


CON = dict(lap1.CON)
KEEP = lap1.KEEP + ("lacpy", "laset")
INC = lap1.INC + ["lapack/larf.hpp", "lapack/larfb.hpp", "lapack/larft.hpp", "lapack/larfg.hpp"]
