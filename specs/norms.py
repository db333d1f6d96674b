"""Matrix norms: the result bounds the magnitude (row sum, column sum) of every
entry (row, column) and is below every such bound, so it is the maximum."""
from contracts import *
from blas import *
import hh

UPL = hh.UPL
NORM = {"M": "MAX_NORM", "I": "INF_NORM", "O": "ONE_NORM"}


def nabs(x):
    return N("app", ("abs", x))


def le(a, b):
    return bscmp("le", a, b)


class Shape:
    """entry(v,i,j): magnitude of entry (i,j); rows(v), cols(v); stored(v,i,j): visited cells"""

    def __init__(self, entry, stored=lambda v, i, j: TRUE, sq=False, floor=None, diag=False):
        self.diag = diag
        self.entry, self.stored, self.sq, self.floor = entry, stored, sq, floor

    def M(self, v):
        return v.n if self.sq else v.m

    def inside(self, v, i, j):
        return band(ble(ZERO, i), blt(i, self.M(v)), ble(ZERO, j), blt(j, v.n))


def max_loops(S):
    """column-by-column maximum over the stored cells"""
    cell = lambda v, i, j: band(S.inside(v, i, j), S.stored(v, i, j))
    given = lambda v, i, j: bor(bnot(cell(v, i, j)), le(S.entry(v, i, j), v.u))
    bound = lambda v, seen: bor(bnot(band(cell(v, v.ci, v.cj), seen)), le(S.entry(v, v.ci, v.cj), v.ss[0]))
    common = lambda v: [le(v.ss[0], v.u), le(S.floor or NZERO, v.ss[0])]
    outer = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, v.n), bound(v, blt(v.cj, t))] + common(v), nscal=1, variant=lambda v, t: v.n - t, split=lambda v, ts: [beq(v.cj, ts[0])])

    def inner(lo, hi):
        T = lambda v: v.ts[-1][0]
        return LoopInv(facts=lambda v, t: [ble(lo(v, T(v)), t), bor(ble(t, hi(v, T(v))), beq(t, lo(v, T(v)))), bound(v, bor(blt(v.cj, T(v)), band(beq(v.cj, T(v)), blt(v.ci, t))))] + common(v),
                       nscal=1, variant=lambda v, t: v.M0 + 1 - t, split=lambda v, ts: [band(beq(v.ci, ts[0]), beq(v.cj, T(v)))], inst=lambda v, ts: [(ts[0], T(v))])
    return outer, inner, given, cell


def max_task(name, fn, code, S, lo, hi, dims="m n", shape=("m", "n"), target=None):
    """ci, cj: an arbitrary entry (if there is one), about which the loops
    carry the fact that it is bounded once it was visited"""
    o, i, g, cell = max_loops(S)
    o.inst = lambda v, ts: [(ts[0], ts[0])] if S.diag else []
    return Task(name, dims, [("u", "R")], [("A", "M", shape, "C")], code, ret="H", fn=fn, given=g,
                pre=lambda v: [le(S.floor or NZERO, v.u), bor(ble(S.M(v), ZERO), ble(v.n, ZERO), S.inside(v, v.ci, v.cj))] + ([target(v)] if target else []),
                setup=lambda v, E: setattr(v, "M0", S.M(v)), loops=[o, i(lo, hi)],
                retpost=lambda v, x, _: post(v, x, lambda v: S.entry(v, v.ci, v.cj), lambda v: cell(v, v.ci, v.cj)))


E_ = lambda v, i, j: nabs(v.A(i, j))


def post(v, x, S, what):
    return [("result bounds every magnitude", bor(bnot(what(v)), le(S(v), x))), ("result is below every bound", le(x, v.u)), ("result is nonnegative", le(NZERO, x))]


def lange_tasks():
    r = []
    r.append(max_task("lange_M", "lange", "return lange(MAX_NORM, A).h;", Shape(E_), lambda v, t: ZERO, lambda v, t: v.m))
    for nm in "IO":
        line = (lambda v, k: nsum(ZERO, v.n, lambda l: E_(v, k, l))) if nm == "I" else (lambda v, k: nsum(ZERO, v.m, lambda l: E_(v, l, k)))
        cnt = (lambda v: v.m) if nm == "I" else (lambda v: v.n)
        r.append(line_task("lange_" + nm, "lange", "return lange(%s, A).h;" % NORM[nm], "m n", ("m", "n"), line, cnt))
    return r


def line_task(name, fn, code, dims, shape, line, cnt, lines=None, floor=None, extra=(), last=None, pre2=lambda v: [], **kw):
    """maximum of line sums computed one after the other"""
    given = lambda v, i, j: bor(blt(i, ZERO), ble(cnt(v), i), le(line(v, i), v.u))
    bound = lambda v, t: bor(blt(v.ci, ZERO), ble(t, v.ci), le(line(v, v.ci), v.ss[0]))
    inv = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, cnt(v)), bound(v, t), le(v.ss[0], v.u), le(NZERO, v.ss[0])], nscal=1, keep=True, variant=lambda v, t: cnt(v) - t,
                  split=lambda v, ts: [beq(v.ci, ts[0])], inst=lambda v, ts: [(ts[0], ZERO)])
    for k, x in (last or {}).items():
        setattr(inv, k, x)
    return Task(name, dims, [("u", "R")], [("A", "M", shape, "C")] + list(extra), code, ret="H", fn=fn, given=given, loops=list(lines or []) + [inv],
                pre=lambda v: pre2(v) + [le(floor or NZERO, v.u), bor(*[ble(getattr(v, d), ZERO) for d in shape], band(ble(ZERO, v.ci), blt(v.ci, cnt(v))))],
                retpost=lambda v, x, _: post(v, x, lambda v: line(v, v.ci), lambda v: band(ble(ZERO, v.ci), blt(v.ci, cnt(v)), *[blt(ZERO, getattr(v, d)) for d in shape])), **kw)


def sym_tasks():
    r = []
    for fn, he in (("lansy", False), ("lanhe", True)):
        for u in "UL":
            st = lambda v, i, j, u=u: ble(i, j) if u == "U" else ble(j, i)

            def entry(v, i, j, he=he):
                return nite(beq(i, j), nabs(nreal(v.A(i, j))), nabs(v.A(i, j))) if he else nabs(v.A(i, j))

            line = sym_line(u, (lambda v, k: nabs(nreal(v.A(k, k)))) if he else (lambda v, k: nabs(v.A(k, k))))
            code = lambda nm: "return %s(%s, %s, A).h;" % (fn, NORM[nm], UPL[u])
            lo = (lambda v, t: ZERO) if u == "U" else (lambda he: lambda v, t: t + 1 if he else t)(he)
            hi = (lambda v, t: v.n) if u == "L" else (lambda he: lambda v, t: t if he else t + 1)(he)
            r.append(max_task("%s_M%s" % (fn, u), fn, code("M"), Shape(entry, st, sq=True, diag=he), lo, hi, "n", ("n", "n")))
            for nm in "IO":
                r.append(line_task("%s_%s%s" % (fn, nm, u), fn, code(nm), "n", ("n", "n"), line, lambda v: v.n))
    return r


def tri_lines(u, unit):
    dg = lambda v, k: nite(band(blt(k, v.m), blt(k, v.n)), NONE_ if unit else nabs(v.A(k, k)), NZERO)
    if u == "U":
        return (lambda v, i: nadd(dg(v, i), nsum(i + 1, v.n, lambda l: nabs(v.A(i, l)))),
                lambda v, j: nadd(nsum(ZERO, imin(j, v.m), lambda l: nabs(v.A(l, j))), dg(v, j)))
    return (lambda v, i: nadd(nsum(ZERO, imin(i, v.n), lambda l: nabs(v.A(i, l))), dg(v, i)),
            lambda v, j: nadd(dg(v, j), nsum(j + 1, v.m, lambda l: nabs(v.A(l, j)))))


def sym_line(u, d):
    def line(v, k):
        A = lambda i, j: nabs(v.A(i, j) if u == "U" else v.A(j, i))
        return nadd(nsum(ZERO, k, lambda l: A(l, k)), d(v, k), nsum(k + 1, v.n, lambda l: A(k, l)))
    return line


def lantr_tasks():
    r = []
    for u in "UL":
        for d in ("Diag::NonUnit", "Diag::Unit"):
            unit = d == "Diag::Unit"
            nm = u + ("u" if unit else "n")
            code = lambda x: "return lantr(%s, %s, %s, A).h;" % (NORM[x], UPL[u], d)

            def entry(v, i, j, unit=unit):
                return nite(beq(i, j), NONE_, nabs(v.A(i, j))) if unit else nabs(v.A(i, j))
            st = lambda v, i, j, u=u: ble(i, j) if u == "U" else ble(j, i)
            k = 1 if unit else 0
            lo = (lambda v, t: ZERO) if u == "U" else (lambda k: lambda v, t: t + k)(k)
            hi = (lambda k: lambda v, t: imin(t + (1 - k), v.m))(k) if u == "U" else lambda v, t: v.m
            r.append(max_task("lantr_M" + nm, "lantr", code("M"), Shape(entry, st, floor=NONE_ if unit else None), lo, hi))
            row, col = tri_lines(u, unit)
            r.append(line_task("lantr_I" + nm, "lantr", code("I"), "m n", ("m", "n"), row, lambda v: v.m, floor=NONE_ if unit else None))
            r.append(line_task("lantr_O" + nm, "lantr", code("O"), "m n", ("m", "n"), col, lambda v: v.n, floor=NONE_ if unit else None))
    return r


def infwork_tasks():
    r = []

    def wt(name, fn, args, dims, shape, line, cnt, lines, floor=None, d0="m", last=None):
        code = "VMat<VC> W2{W.base,0,0,idx(w),1}; return %s_work(%sA,W2).h;" % (fn, args)
        t = line_task(name, fn, code, dims + " w", shape, line, cnt, lines, floor, last=last, extra=[("W", "M", ("w", "1"), "C")], pre2=lambda v: [ble(getattr(v, d0), v.w)])
        return t
    r.append(wt("infnorm_colmajor", "infnorm_colmajor", "", "m n", ("m", "n"), lambda v, k: nsum(ZERO, v.n, lambda l: E_(v, k, l)), lambda v: v.m, [None, None]))
    for fn, he in (("symmetric", False), ("hermitian", True)):
        for u in "UL":
            d = (lambda v, k: nabs(nreal(v.A(k, k)))) if he else (lambda v, k: nabs(v.A(k, k)))
            line = sym_line(u, d)
            args = UPL[u] + ", "
            if u == "U":
                lines = [None, None]
                last = None
            else:
                lines = [None]
                last = dict(posts={"work1001": lambda v, ts, I, J: nsum(ZERO, imin(I, ts[0]), lambda l: nabs(v.A(I, l)))}, doms={"work1001": lambda I, J: band(ble(ZERO, I), beq(J, ZERO))}, keep=False)
            r.append(wt("infnorm_%s_%s" % (fn, u), "infnorm_%s_colmajor" % fn, args, "n", ("n", "n"), line, lambda v: v.n, lines, None, "n", last))
    for u in "UL":
        for dg in ("NonUnit", "Unit"):
            row, _ = tri_lines(u, dg == "Unit")
            nm = u + ("u" if dg == "Unit" else "n")
            r.append(wt("infnorm_triangular_" + nm, "infnorm_triangular_colmajor", "%s, Diag::%s, " % (UPL[u], dg), "m n", ("m", "n"), row, lambda v: v.m, [None] * (3 if nm == "Lu" else 2), NONE_ if dg == "Unit" else None))
    return r


def has_tasks():
    """hasnan, hasinf: two contracts each, one for an arbitrary bad entry of
    the accessed region, one for a region without bad entries."""
    r = []
    R = {"General": (lambda v, j: ZERO, lambda v, j: v.m), "Upper": (lambda v, j: ZERO, lambda v, j: imin(j + 1, v.m)), "Lower": (lambda v, j: j, lambda v, j: v.m),
         "StrictUpper": (lambda v, j: ZERO, lambda v, j: imin(j, v.m)), "StrictLower": (lambda v, j: j + 1, lambda v, j: v.m),
         "UpperHessenberg": (lambda v, j: ZERO, lambda v, j: imin(j + 2, v.m)), "LowerHessenberg": (lambda v, j: imax(j - 1, ZERO), lambda v, j: v.m)}
    band_ = (lambda v, j: imax(j - v.ku, ZERO), lambda v, j: imin(v.m, j + v.kl + 1))
    for fn in ("hasnan", "hasinf"):
        p = "is" + fn[3:]
        isbad = lambda x, p=p: bor(B("opq", (p, nreal(x))), B("opq", (p, nimag(x))))
        for u, (lo, hi) in list(R.items()) + [("Band", band_)]:
            reg = lambda v, i, j, lo=lo, hi=hi: band(ble(ZERO, j), blt(j, v.n), ble(lo(v, j), i), blt(i, hi(v, j)))
            acc = "Uplo::" + u if u != "Band" else "BandAccess{kl,ku}"
            dims = "m n" if u != "Band" else "m n kl ku"
            nm = "%s_%s" % (fn, u)
            r += has_pair(nm, fn, "return %s(%s, A);" % (fn, acc), dims, [("A", "M", ("m", "n"), "C")], reg, lambda v, i, j, isbad=isbad: isbad(v.A(i, j)), lo, hi)
        r += has_vec(fn + "_vec", fn, "return %s(x);" % fn, lambda v, i, isbad=isbad: isbad(v.x(i)))
    return r


def model(v, E):
    E.nan_model = True
    v.M0 = getattr(v, "m", v.n)


def has_pair(nm, fn, code, dims, arrs, reg, bad, lo, hi):
    T = lambda v: v.ts[-1][0]
    r = []
    for hit in (True, False):
        seen = (lambda v, w: bnot(w)) if hit else (lambda v, w: TRUE)
        o = LoopInv(facts=lambda v, t, seen=seen: [ble(ZERO, t), ble(t, v.n), seen(v, blt(v.cj, t))], variant=lambda v, t: v.n - t, split=lambda v, ts: [beq(v.cj, ts[0])])
        i = LoopInv(facts=lambda v, t, seen=seen: [ble(lo(v, T(v)), t), bor(ble(t, hi(v, T(v))), beq(t, lo(v, T(v)))), seen(v, bor(blt(v.cj, T(v)), band(beq(v.cj, T(v)), blt(v.ci, t))))],
                    variant=lambda v, t: v.M0 + 1 - t, split=lambda v, ts: [band(beq(v.ci, ts[0]), beq(v.cj, T(v)))], inst=None if hit else lambda v, ts: [(ts[0], T(v))])
        kw = dict(pre=lambda v: [reg(v, v.ci, v.cj), bad(v, v.ci, v.cj)]) if hit else dict(pre=lambda v: [])
        r.append(Task(nm + ("_hit" if hit else "_miss"), dims, [], arrs, code, ret="int", fn=fn, setup=model, loops=[o, i], given=lambda v, a, b: bor(bnot(reg(v, a, b)), bnot(bad(v, a, b))),
                      retpost=lambda v, x, _, hit=hit: [("reports an entry of the region" if hit else "no report without such an entry", bnot(beq(x, ZERO)) if hit else beq(x, ZERO))], **kw))
    return r


def has_vec(nm, fn, code, bad):
    r = []
    for hit in (True, False):
        o = LoopInv(facts=lambda v, t, hit=hit: [ble(ZERO, t), ble(t, v.n)] + ([ble(t, v.ci)] if hit else []), variant=lambda v, t: v.n - t, split=lambda v, ts: [beq(v.ci, ts[0])],
                    inst=None if hit else lambda v, ts: [(ts[0], ZERO)])
        kw = dict(pre=lambda v: [ble(ZERO, v.ci), blt(v.ci, v.n), bad(v, v.ci)]) if hit else dict(pre=lambda v: [])
        r.append(Task(nm + ("_hit" if hit else "_miss"), "n", [], [("x", "V", ("n",), "C")], code, ret="int", fn=fn, setup=model, loops=[o], given=lambda v, a, b: bor(blt(a, ZERO), ble(v.n, a), bnot(bad(v, a))),
                      retpost=lambda v, x, _, hit=hit: [("reports an entry" if hit else "no report without such an entry", bnot(beq(x, ZERO)) if hit else beq(x, ZERO))], **kw))
    return r


def nimag(x):
    return nmul(q(Fraction(-1, 2)), NI, nsub(x, nconj(x)))


INC = ["lapack/%s.hpp" % x for x in "lange lansy lanhe lantr infnorm_colmajor infnorm_symmetric_colmajor infnorm_hermitian_colmajor infnorm_triangular_colmajor hasnan hasinf".split()]
KEEP = ()
