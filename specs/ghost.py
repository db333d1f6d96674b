"""Specification functions defined by recursion on a step count: G(0) is the
entry contents, G(s+1) a stated expression in G(s).  Unfolding is done only by
the definition; the loop invariant says 'after s steps the array is G(s)'."""
from contracts import *


class Ghost:
    def __init__(self, name, entry, step, real=False):
        """entry(i,j): N; step(G, s, i, j): N, contents after step s (0-based)
        in terms of the contents G(i,j) before it"""
        self.base = Base(name, real, (), "ghost")
        self.base.interp = self.interp
        self.entry, self.step, self.cur = entry, step, None
        self.twin = Base(name, real, (), "ghost")
        self.lemmas, self.proving = [], None

    def at(self, s):
        return lambda i, j=ZERO: N("arr", (self.base, 0, ip(i), ip(j), ip(s)))

    def mark(self, s):
        """s is the step count at the head of an arbitrary iteration"""
        self.cur = ip(s)

    def interp(self, ctx, I, J, s):
        s = ctx.canon(s)
        if ctx.decide(beq(s, ZERO)) is True:
            return norm(self.entry(I, J), None, ctx)
        if self.cur is not None:
            d = ctx.canon(s - self.cur)
            if d.is_const() and 1 <= d.cval() <= 3:
                p = self.cur if d == ONE else s - 1
                return norm(self.step(self.at(p), p, I, J), None, ctx)
        return norm(self.known(s, I, J), None, ctx)

    def known(self, s, I, J):
        e = N("arr", (self.twin, 0, ip(I), ip(J), ip(s)))
        for nm, cond, val, last in self.lemmas:
            if self.proving is None or s == self.proving:
                e = nite(band(ble(s, last), cond(s, I, J)), val(s, I, J), e)
        return e

    def lemma(self, name, cond, val, last):
        """G(s)(i,j) = val(s,i,j) where cond(s,i,j), for 0 <= s <= last: proved
        by induction on s (prove), then usable everywhere"""
        self.lemmas.append((name, cond, val, ip(last)))

    def prove(self, E, task):
        ctx = E.ctx
        I, J, s = IP.sym("ci"), IP.sym("cj"), IP.sym("gs")
        todo, self.lemmas = self.lemmas, []
        for L in todo:
            nm, cond, val, last = L
            for what, hyp, lhs, rhs in (("base", [ble(ZERO, last), cond(ZERO, I, J)], lambda: self.entry(I, J), lambda: val(ZERO, I, J)),
                                        ("step", [ble(ZERO, s), ble(s + 1, last), cond(s + 1, I, J)], lambda: self.step(self.at(s), s, I, J), lambda: val(s + 1, I, J))):
                ctx.push()
                try:
                    if what == "step":
                        self.proving = s
                        self.lemmas = self.lemmas + [L]
                    for M in ctx.levels:
                        M.memo.clear()
                    for b in hyp:
                        ctx.assume(ctx.resolve(b, None))
                    if not ctx.infeasible():
                        task.goal(E, "lemma", "%s (induction %s)" % (nm, what), lhs(), rhs(), [(I, J)])
                finally:
                    self.proving = None
                    ctx.pop()
                    for M in ctx.levels:
                        M.memo.clear()
        # all lemmas so far stay usable


def is_head(t):
    t = ip(t)
    return len(t.free) == 1 and t == IP.sym(list(t.free)[0]) and list(t.free)[0].startswith("t!")


def ghost_post(g, count):
    """invariant 'the array is G(count(v, t))'; g(v) returns the ghost"""
    def f(v, ts, i, j):
        s = count(v, ts[0])
        if is_head(ts[0]):
            g(v).mark(s)
        return g(v).at(s)(i, j)
    return f


class Skolem:
    """the value that iteration s chose (a stored reflector, its scalar, a
    pivot ...): unknown except in the step from s to s+1, where it is bound to
    what the iteration produced.  An invariant mentions it only for completed
    iterations."""

    def __init__(self, name, real=False, integer=False):
        self.val = None
        if integer:
            self.f = IFun(name)
            self.f.interp = self.iinterp
        else:
            self.base = Base(name, real, (), "skolem")
            self.base.interp = self.interp
        self.integer = integer

    def __call__(self, s, i=ZERO, j=ZERO):
        if self.integer:
            return self.f(s)
        return N("arr", (self.base, 0, ip(i), ip(j), ip(s)))

    def bind(self, ctx, cur, val):
        if self.integer:
            ctx.assume(beq(self.f(cur), val()))
        self.cur, self.val = cur, val
        for L in ctx.levels:
            L.memo.clear()

    def unbind(self, ctx):
        self.val = None
        for L in ctx.levels:
            L.memo.clear()

    def bound(self, ctx, s):
        return self.val is not None and ctx.decide(beq(s, self.cur)) is True

    def iinterp(self, ctx, a):
        return self.val() if self.bound(ctx, a[0]) else None

    def interp(self, ctx, I, J, s):
        s = ctx.canon(s)
        if self.bound(ctx, s):
            return norm(self.val(I, J), None, ctx)
        return patom(Atom("arr", (self.base, (I, J, s), 0), real=self.base.real))
