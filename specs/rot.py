"""Sequences of plane rotations against the recursive definition: step s applies
one rotation to two neighbouring rows or columns."""
from contracts import *
from blas import *
from ghost import *
import hh

SDE = hh.SDE
DIRN = {"F": "FORWARD", "B": "BACKWARD"}


def seq_ghost(v, sd, di, c, s, kk):
    """G(t): the matrix after the first t rotations, in the order they act"""
    if not hasattr(v, "_gho"):
        def step(G, t, I, J):
            p = kk(v) - 1 - t if di == "F" else t
            x, o = (I, J) if sd == "L" else (J, I)
            at = (lambda i: G(i, o)) if sd == "L" else (lambda i: G(o, i))
            sn = s(v, p) if sd == "L" else nconj(s(v, p))
            up = nadd(nmul(c(v, p), at(p)), nmul(sn, at(p + 1)))
            dn = nsub(nmul(c(v, p), at(p + 1)), nmul(nconj(sn), at(p)))
            return nite(beq(x, p), up, nite(beq(x, p + 1), dn, at(x)))
        v._gho = Ghost("G", v.A, step)
    return v._gho


def rotseq_tasks():
    r = []
    for lay in ("C", "U"):
        for sd in "LR":
            for di in "FB":
                kk = lambda v: v.k
                g = (lambda sd, di: lambda v: seq_ghost(v, sd, di, lambda v, p: v.c(p), lambda v, p: v.s(p), kk))(sd, di)
                ln = (lambda sd: lambda i, j: j if sd == "L" else i)(sd)
                nl = (lambda sd: lambda v: v.n if sd == "L" else v.m)(sd)

                def mark(v, s, g=g):
                    g(v).mark(s)
                    return g(v)

                lined = (lay == "C") == (sd == "L")
                if lined:
                    outer = LoopInv(bysteps=True, facts=lambda v, t, nl=nl: [ble(ZERO, t), ble(t, nl(v))], variant=lambda v, t, nl=nl: nl(v) - t,
                                    posts={"A": lambda v, ts, i, j, g=g, ln=ln: nite(blt(ln(i, j), ts[0]), g(v).at(v.k)(i, j), g(v).at(ZERO)(i, j))})
                    inner = LoopInv(bysteps=True, facts=lambda v, t: [ble(ZERO, t), ble(t, v.k)], variant=lambda v, t: v.k - t,
                                    posts={"A": lambda v, ts, i, j, g=g, ln=ln, mark=mark: nite(blt(ln(i, j), v.ts[-1][0]), g(v).at(v.k)(i, j), nite(beq(ln(i, j), v.ts[-1][0]), (mark(v, ts[0]) if is_head(ts[0]) else g(v)).at(ts[0])(i, j), g(v).at(ZERO)(i, j)))})
                    loops = [outer, inner]
                else:
                    q = lambda v: v.q3
                    loops = []
                    for base, st, cnt in ((lambda v: ZERO, 3, q), (lambda v: q(v) * 3, 1, lambda v: v.k - q(v) * 3)):
                        loops.append(LoopInv(bysteps=True, facts=lambda v, t, cnt=cnt: [ble(ZERO, t), ble(t, cnt(v))], variant=lambda v, t, cnt=cnt: cnt(v) - t,
                                             posts={"A": lambda v, ts, i, j, g=g, base=base, st=st, mark=mark: (mark(v, base(v) + ts[0] * st) if is_head(ts[0]) else g(v)).at(base(v) + ts[0] * st)(i, j)}))
                        loops.append(LoopInv(bysteps=True, facts=lambda v, t, nl=nl: [ble(ZERO, t), ble(t, nl(v))], variant=lambda v, t, nl=nl: nl(v) - t,
                                             posts={"A": lambda v, ts, i, j, g=g, ln=ln, base=base, st=st: nite(blt(ln(i, j), ts[0]), g(v).at(base(v) + v.ts[-1][0] * st + st)(i, j), g(v).at(base(v) + v.ts[-1][0] * st)(i, j))}))
                code = "return rot_sequence(%s,%s,c,s,%s);" % (SDE[sd], DIRN[di], "A") if lay == "U" else "VMatC<VC> A2{A}; return rot_sequence(%s,%s,c,s,A2);" % (SDE[sd], DIRN[di])
                r.append(Task("rot_sequence_%s%s%s" % (sd, di, lay), "m n k", [], [("c", "V", ("k",), "R"), ("s", "V", ("k",), "C"), ("A", "M", ("m", "n"), "C")], code, ret="int",
                              retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], pre=lambda v, sd=sd: [beq(v.m if sd == "L" else v.n, v.k + 1)],
                              setup=(lambda g, lined: lambda v, E: (g(v), lined or setattr(v, "q3", E.quotient(v.k, IP.const(3)))))(g, lined), post={"A": lambda v, i, j, g=g: g(v).at(v.k)(i, j)}, fn="rot_sequence", loops=loops))
    return r


def rotg_tasks():
    r = []
    I = IP.const

    def eqs_r(v, i, j):
        if i is None:
            return ["x"]
        a, b = v.x(ZERO), v.x(I(1))
        rr, c, s = v.x1(ZERO), v.x1(I(2)), v.x1(I(3))
        cs = [(I(k), ZERO) for k in range(4)]
        D = band(beq(i, ZERO), beq(j, ZERO))
        return [("c a + s b = r", D, nadd(nmul(c, a), nmul(s, b)), rr, cs),
                ("c b - s a = 0", D, nmul(c, b), nmul(s, a), cs),
                ("c^2 + s^2 = 1", D, nadd(nmul(c, c), nmul(s, s)), q(1), cs)]
    r.append(Task("rotg_R", "k", [], [("x", "V", ("k",), "R")], "rotg(x[0], x[1], x[2], x[3]);", pre=lambda v: [beq(v.k, I(4))], eqs=eqs_r, fn="rotg"))

    def eqs_c(v, i, j):
        if i is None:
            return ["x", "c"]
        a, b = v.x(ZERO), v.x(I(1))
        rr, c, s = v.x1(ZERO), v.c1(ZERO), v.x1(I(2))
        cs = [(I(k), ZERO) for k in range(3)]
        D = band(beq(i, ZERO), beq(j, ZERO))
        return [("c a + s b = r", D, nadd(nmul(c, a), nmul(s, b)), rr, cs),
                ("c b - conj(s) a = 0", D, nmul(c, b), nmul(nconj(s), a), cs),
                ("c^2 + |s|^2 = 1", D, nadd(nmul(c, c), nmul(s, nconj(s))), q(1), cs),
                ("b unchanged", D, v.x1(I(1)), b, cs)]
    r.append(Task("rotg_C", "k l", [], [("x", "V", ("k",), "C"), ("c", "V", ("l",), "R")], "rotg(x[0], x[1], c[0], x[2]);",
                  pre=lambda v: [beq(v.k, I(3)), beq(v.l, I(1))], eqs=eqs_c, fn="rotg"))
    return r


def rotm_tasks():
    r = []
    XY = [("x", "V", ("n",), "R"), ("y", "V", ("n",), "R")]
    for f, nm in ((-2, "m2"), (-1, "m1"), (0, "0"), (1, "p1")):
        def m(v, f=f):
            h = [v.h0, v.h1, v.h2, v.h3]
            return {-2: (q(1), q(0), q(0), q(1)), -1: (h[0], h[1], h[2], h[3]), 0: (q(1), h[1], h[2], q(1)), 1: (h[0], q(-1), q(1), h[3])}[f]
        r.append(Task("rotm_" + nm, "n", [("h%d" % k, "R") for k in range(4)], XY, "VR h[4] = {h0, h1, h2, h3}; rotm<%d>(x, y, h);" % f, fn="rotm", nobranch=True, post={
            "x": lambda v, i, j, m=m: nadd(nmul(m(v)[0], v.x(i)), nmul(m(v)[2], v.y(i))),
            "y": lambda v, i, j, m=m: nadd(nmul(m(v)[1], v.x(i)), nmul(m(v)[3], v.y(i)))}))
    return r


INC = ["blas/rotg.hpp", "blas/rotm.hpp", "blas/rotmg.hpp", "lapack/rot_sequence.hpp"]
KEEP = ()
