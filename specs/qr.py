"""Unblocked factorizations by Householder reflectors, against the recursive
definition of applying the stored reflectors to the entry matrix."""
from contracts import *
from blas import *
from ghost import *
import lap1
import hh


def larfg_tasks():
    """contract of larfg(direction, storeMode, v, tau) used by its callers"""
    r = []
    for di in "FB":
        for st in "CR":
            def eqs(v, i, j, di=di, st=st):
                if i is None:
                    return ["v", "tau"]
                one = ZERO if di == "F" else v.n - 1
                x = lambda l: nite(beq(l, one), NONE_, v.v1(l))
                t = nconj(v.tau1(ZERO)) if st == "C" else v.tau1(ZERO)
                s = nsum(ZERO, v.n, lambda l: nmul(nconj(x(l)), v.v(l)))
                return [("H maps the entry vector to beta e", band(ble(ZERO, i), blt(i, v.n)), nsub(v.v(i), nmul(t, x(i), s)), nite(beq(i, one), v.v1(i), NZERO), [(i, j)]),
                        ("beta is real", beq(i, one), v.v1(i), nconj(v.v1(i)), [(i, j)])]
            r.append(Task("larfg_%s%s" % (di, st), "n", [], [("v", "V", ("n",), "C"), ("tau", "V", ("1",), "C")], "larfg(%s,%s,v,tau[0]);" % (hh.DIR[di], hh.STV[st]),
                          eqs=eqs, pre=lambda v: [ble(ONE, v.n)], fn="larfg", assumed="larfg: decided by bounded evaluation (P10)"))
    return r


class Fac:
    """geqr2 (F,C), gelq2 (F,R), geql2 (B,C), gerq2 (B,R) in one description:
    step s acts on line s (column or row, from the front or from the back)."""

    def __init__(self, di, st):
        self.di, self.st = di, st

    def M(self, v):
        return v.m if self.st == "C" else v.n

    def Np(self, v):
        return v.n if self.st == "C" else v.m

    def q(self, v, a):
        """logical position along the reflector of actual index a"""
        return a if self.di == "F" else self.M(v) - 1 - a

    def p(self, v, b):
        return b if self.di == "F" else self.Np(v) - 1 - b

    def qp(self, v, i, j):
        return (self.q(v, i), self.p(v, j)) if self.st == "C" else (self.q(v, j), self.p(v, i))

    def ab(self, i, j):
        """actual index along the reflector, line index"""
        return (i, j) if self.st == "C" else (j, i)

    def cell(self, a, b):
        return (a, b) if self.st == "C" else (b, a)

    def line(self, v, s):
        return s if self.di == "F" else self.Np(v) - 1 - s

    def head(self, v, s):
        return s if self.di == "F" else self.M(v) - 1 - s

    def tix(self, v, s):
        return s if self.di == "F" else imin(v.m, v.n) - 1 - s

    def setup(self, v):
        if hasattr(v, "_gho"):
            return v._gho
        v._V, v._TAU, v._BETA = Skolem("V"), Skolem("TAU"), Skolem("BETA")
        v._gho = Ghost("G", v.A, lambda G, s, i, j: self.applied(v, G, s, i, j, lambda a: v._V(s, a), v._TAU(s)))
        return v._gho

    def applied(self, v, G, s, i, j, V, tau):
        x = lambda a: nite(beq(self.q(v, a), s), NONE_, nite(blt(s, self.q(v, a)), V(a), NZERO))
        a, b = self.ab(i, j)
        t = nconj(tau) if self.st == "C" else tau
        sm = nsum(ZERO, self.M(v), lambda l: nmul(nconj(x(l)), G(*self.cell(l, b))))
        return nsub(G(i, j), nmul(t, x(a), sm))

    def contents(self, v, t, i, j):
        """after t steps"""
        g = self.setup(v)
        q, p = self.qp(v, i, j)
        a, b = self.ab(i, j)
        return nite(blt(p, t), nite(blt(p, q), v._V(p, a), nite(beq(p, q), v._BETA(p), g.at(p)(i, j))), g.at(t)(i, j))

    def taus(self, v, t, i):
        s = i if self.di == "F" else imin(v.m, v.n) - 1 - i
        return nite(band(ble(ZERO, s), blt(s, t)), v._TAU(s), v.tau(i))

    def reduced(self, v, s, i, j, V, tau, beta):
        """the equation of step s at a cell of its line"""
        g = self.setup(v)
        q, p = self.qp(v, i, j)
        return ("reflector of the step reduces its line", band(ble(s, q), blt(q, self.M(v)), beq(p, s)),
                self.applied(v, g.at(s), s, i, j, V, tau), nite(beq(q, s), beta, NZERO), [(i, j)])


def fac_tasks():
    r = []
    for nm, di, st in (("geqr2", "F", "C"), ("gelq2", "F", "R"), ("geql2", "B", "C"), ("gerq2", "B", "R")):
        f = Fac(di, st)
        last = nm == "geqr2"                  # the last reflector is generated after the loop
        cnt = (lambda v: imin(v.m, v.n - 1)) if last else (lambda v: imin(v.m, v.n))
        inv = LoopInv(facts=(lambda cnt: lambda v, t: [ble(ZERO, t), ble(t, cnt(v))])(cnt), bysteps=True, variant=(lambda cnt: lambda v, t: cnt(v) - t)(cnt),
                      posts={"A": (lambda f: lambda v, ts, i, j: f.contents(v, ts[0], i, j))(f), "tau": (lambda f: lambda v, ts, i, j: f.taus(v, ts[0], i))(f)},
                      ghosts=(lambda f: lambda v: [f.setup(v)])(f),
                      skolem=(lambda f: lambda v, ts: [(v._V, lambda a, j: v.At(*f.cell(a, f.line(v, ts[0])))),
                                                       (v._TAU, lambda i, j: v.taut(f.tix(v, ts[0]))),
                                                       (v._BETA, lambda i, j: v.At(*f.cell(f.head(v, ts[0]), f.line(v, ts[0]))))])(f),
                      each=(lambda f: lambda v, ts, i, j: [f.reduced(v, ts[0], i, j, lambda a: v._V(ts[0], a), v._TAU(ts[0]), v._BETA(ts[0]))])(f))

        def eqs(v, i, j, f=f, last=last, cnt=cnt):
            if i is None:
                return ["A", "tau"]
            g = f.setup(v)
            q, p = f.qp(v, i, j)
            a, b = f.ab(i, j)
            k = iite(ble(v.n, ZERO), ZERO, cnt(v)) if last else cnt(v)
            inn = band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n))
            es = [("triangle and trailing lines", band(inn, bor(blt(q, p), ble(iite(ble(imin(v.m, v.n), ZERO), ZERO, imin(v.m, v.n)), p))), v.A1(i, j), g.at(imin(p, k))(i, j), [(i, j)]),
                  ("stored reflectors", band(inn, blt(p, k), blt(p, q)), v.A1(i, j), v._V(p, a), [(i, j)]),
                  ("stored diagonal", band(inn, blt(p, k), beq(p, q)), v.A1(i, j), v._BETA(p), [(i, j)]),
                  ("stored scalars", band(ble(ZERO, i), blt(i, k), beq(j, ZERO)), v.tau1(f.tix(v, i)), v._TAU(i), [(i, j)])]
            if last:
                s = v.n - 1
                es.append(f.reduced(v, s, i, j, lambda a: v.A1(a, s), v.tau1(s), v.A1(s, s))[:1] + (band(inn, ble(ONE, v.n), ble(v.n, v.m), beq(j, s), ble(s, i)),) +
                          f.reduced(v, s, i, j, lambda a: v.A1(a, s), v.tau1(s), v.A1(s, s))[2:])
            return es
        r.append(Task(nm, "m n k", [], [("A", "M", ("m", "n"), "C"), ("tau", "V", ("k",), "C")], "return %s(A, tau);" % nm, ret="int",
                      pre=lambda v: [ble(imin(v.m, v.n), v.k)], setup=(lambda f: lambda v, E: f.setup(v))(f),
                      retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs, loops=[inv], fn=nm, contracts=CON))
    return r


CON = dict(lap1.CON)
CON["larf_work"] = Callee(lambda a: ["f", "f", "f", "v", "tau", "C", hh.larf_room(a)], lambda f, n, v: "larf_" + "".join(f), [hh.larf_tasks])
CON["larfg"] = Callee(["f", "f", "v", "&tau"], lambda f, n, v: "larfg_" + "".join(f), [larfg_tasks])
KEEP = lap1.KEEP + ("lacpy", "laset", "larf_work", "larfg")
INC = hh.INC + ["lapack/%s.hpp" % x for x in "larfg geqr2 gelq2 geql2 gerq2".split()]
