"""Contexts of assumptions (discharged by Z3) and normalisation of scalar nodes."""
from terms import *
from terms import _argkey, _akey
import time


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


def deep(a):
    yield a
    if a.kind in ("app", "inv"):
        for x in a.args:
            if isinstance(x, Poly):
                for b in x.atoms():
                    yield from deep(b)


class DivZero(Unsupported):
    pass


class Stats:
    z3_calls = 0
    z3_time = 0.0
    splits = 0
    used = set()


_z3int = {}
_z3b = {}


def z_int(p):
    r = _z3int.get(p.key)
    if r is None:
        s = None
        for m, c in p.t:
            e = None
            for a in m:
                x = z3.Int(a) if isinstance(a, str) else z_atom(a)
                e = x if e is None else e * x
            e = z3.IntVal(c) if e is None else (e if c == 1 else e * c)
            s = e if s is None else s + e
        r = s if s is not None else z3.IntVal(0)
        _z3int[p.key] = r
    return r


def z_atom(a):
    if a.op == "ite":
        return z3.If(z_b(a.args[0]), z_int(a.args[1]), z_int(a.args[2]))
    if a.op == "div":
        return z_int(a.args[0]) / z_int(a.args[1])
    if a.op == "app":
        return z3.Function(a.args[0].key, *([z3.IntSort()] * len(a.args)))(*[z_int(x) for x in a.args[1:]])
    raise AssertionError


def z_b(b):
    r = _z3b.get(b.key)
    if r is None:
        if b.op == "c":
            r = z3.BoolVal(bool(b.args[0]))
        elif b.op == "le":
            r = z_int(b.args[0]) <= 0
        elif b.op == "eq":
            r = z_int(b.args[0]) == 0
        elif b.op == "not":
            r = z3.Not(z_b(b.args[0]))
        elif b.op == "and":
            r = z3.And([z_b(x) for x in b.args])
        elif b.op == "or":
            r = z3.Or([z_b(x) for x in b.args])
        elif b.op == "opq" and b.args[0] in ("lt", "le") and len(b.args) == 2 and isinstance(b.args[1], Poly):
            r = z_real(b.args[1])
            r = r < 0 if b.args[0] == "lt" else r <= 0
        elif b.op == "opq" and b.args[0] == "eq" and len(b.args) == 2 and isinstance(b.args[1], Poly) and len(b.args[1].t) <= 2 and all(a.real for a in b.args[1].atoms()):
            r = z_real(b.args[1]) == 0
        else:
            r = z3.Bool(b.key)
        _z3b[b.key] = r
    return r


def z_real(p):
    """a real-valued polynomial as a linear combination of its monomials; a
    monomial is an uninterpreted function of the indices occurring in it"""
    s = z3.RealVal(0)
    for m, c in p.t.items():
        c = z3.RealVal(str(c))
        s = s + (c if not m else c * z_mono(m))
    return s


_nn = {}


def nonneg(b):
    """axioms: products of absolute values, square roots and even powers of real atoms are not negative"""
    r = _nn.get(b.key)
    if r is None:
        r = []
        if b.op == "opq":
            if len(b.args) == 2 and isinstance(b.args[1], Poly) and b.args[0] in ("eq", "lt", "le"):
                for m in b.args[1].t:
                    if m and all((a.kind == "app" and a.args[0] in ("abs", "sqrt") and a.real) or (a.real and e % 2 == 0) for a, e in m):
                        r.append(z_mono(m) >= 0)
                        if len(m) == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "abs" and all(a.real for a in m[0][0].args[1].atoms()):
                            r.append((z_mono(m) == 0) == (z_real(m[0][0].args[1]) == 0))
        elif b.op in ("not", "and", "or"):
            for x in b.args:
                r += nonneg(x)
        _nn[b.key] = r
    return r


def z_mono(m):
    sh, args = shape_mono(m)
    if not args:
        return z3.Real("r!" + sh)
    f = _z3b.get(("f", sh, len(args)))
    if f is None:
        f = _z3b[("f", sh, len(args))] = z3.Function("r!" + sh, *([z3.IntSort()] * len(args) + [z3.RealSort()]))
    return f(*[z_int(x) for x in args])


def shape_ip(p):
    """(shape, index with the bound symbols removed)"""
    bound, rest = [], []
    for m, c in p.t:
        if any("@" in _akey(a) for a in m):
            bound.append("%s*%s" % (c, ".".join(map(_akey, m))))
        else:
            rest.append((m, c))
    if not bound:
        return "?", [p]
    return "%s+?" % "+".join(sorted(bound)), [IP(dict(rest))]


def shape_mono(m):
    parts = sorted((shape_atom(a) + (e,) for a, e in m), key=lambda x: (x[0], x[2], repr(x[1])))
    return ".".join("%s^%s" % (x[0], x[2]) for x in parts), [y for x in parts for y in x[1]]


def shape_atom(a):
    k = a.kind
    if k == "arr":
        sh, args = [], []
        for x in a.args[1]:
            s, r = shape_ip(x)
            sh.append(s)
            args += r
        return "%s[%s]%s" % (_argkey(a.args[0]), ",".join(sh), a.args[2]), args
    if k == "P":
        s, r = shape_mono(a.args[0])
        s2, r2 = shape_ip(a.args[2])
        return "P%s(%s;%s)" % (a.args[1], s, s2), r + r2
    if k in ("app", "inv"):
        sh, args = [], []
        for x in a.args:
            if isinstance(x, Poly):
                parts = sorted((shape_mono(m) + (c,) for m, c in x.t.items()), key=lambda y: (y[0], str(y[2]), repr(y[1])))
                sh.append("+".join("%s*%s" % (y[2], y[0]) for y in parts))
                for y in parts:
                    args += y[1]
            elif isinstance(x, IP):
                s, r = shape_ip(x)
                sh.append(s)
                args += r
            else:
                sh.append(_argkey(x))
        return "%s(%s)" % (k, ",".join(sh)), args
    return a.key, []


def has_scalar(b):
    if b.op in ("scmp", "opq"):
        return True
    if b.op in ("and", "or", "not"):
        return any(has_scalar(x) for x in b.args)
    if b.op in ("le", "eq"):
        return ip_has_scalar(b.args[0])
    return False


def ip_has_scalar(p):
    if not p.lazy:
        return False
    for m, _ in p.t:
        for a in m:
            if not isinstance(a, str):
                for x in a.args:
                    if isinstance(x, B) and has_scalar(x):
                        return True
                    if isinstance(x, IP) and ip_has_scalar(x):
                        return True
    return False


class Level:
    __slots__ = ("facts", "isub", "ssub", "memo", "dmemo", "barrier", "hyps", "raw", "pend")

    def __init__(self):
        self.facts = []
        self.isub = {}
        self.ssub = {}
        self.memo = {}
        self.dmemo = {}
        self.barrier = False
        self.hyps = []
        self.raw = {}
        self.pend = []


def has_ite(p):
    return p.lazy and any(not isinstance(a, str) and (a.op == "ite" or any(has_ite(x) for x in a.args if isinstance(x, IP))) for m, _ in p.t for a in m)


class Ctx:
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.levels = [Level()]
        self.keep_sums = False
        self.nonzero = set()      # atoms cancelled against their inverse
        self.opq = {}             # key -> (rel, Poly) meaning of opaque scalar comparisons
        self.depth_guard = 0
        self.noraw = False

    # ------------------------------------------------------------ assumptions
    def push(self):
        self.solver.push()
        self.levels.append(Level())

    def pop(self):
        self.solver.pop()
        self.levels.pop()

    def assume(self, b):
        """b must be free of unresolved scalar comparisons (use resolve)."""
        if b is TRUE:
            return
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        L = self.levels[-1]
        L.facts.append(b)
        self.solver.add(z_b(b), *nonneg(b))
        L.dmemo = {}
        lit, pos = (b.args[0], False) if b.op == "not" else (b, True)
        if lit.op == "opq" and lit.args[0] == "eq" and pos:
            self.learn_scalar_eq(lit)
        if lit.op == "opq" and lit.args[0] in ("le", "lt") and len(lit.args[1].t) <= 2:
            if self._check(z_real(lit.args[1]) != 0) == z3.unsat and self._check() != z3.unsat:
                e = self.scalar_lit("eq", lit.args[1])
                if e.op == "opq" and not any(e is f for f in self.facts()):
                    self.assume(e)
        if lit.op == "opq":
            self.unit_propagate()
        if b.op == "eq":
            self.learn_eq(b.args[0])
        elif b.op == "le" and not b.args[0].lazy:
            p = self.apply_isub(b.args[0])
            if p.is_const():
                return
            if self._check(z_int(p) < 0) == z3.unsat:
                self.learn_eq(p)
        if getattr(self, "_relazy", False):
            return
        # conditions with an integer choice in them may have become plain
        lz = [f for l in self.levels for f in l.facts if f.op in ("le", "eq") and f is not b and has_ite(f.args[0])]
        if lz and b.op in ("le", "eq"):
            self._relazy = True
            try:
                for f in lz:
                    try:
                        q = self.canon(f.args[0])
                    except NeedSplit:
                        continue
                    if not q.lazy and not q.is_const():
                        g = ble(q, ZERO) if f.op == "le" else beq(q, ZERO)
                        if g not in (TRUE, FALSE) and not any(g is h for l in self.levels for h in l.facts):
                            self.assume(g)
            finally:
                self._relazy = False

    def unit_propagate(self):
        """a scalar equation that is the only possible case of a known disjunction"""
        for f in self.facts():
            if f.op == "or" and any(x.op == "opq" and x.args[0] == "eq" for x in f.args):
                left = [x for x in f.args if self.decide(x) is not False]
                if len(left) == 1 and left[0].op == "opq" and not any(left[0] is g for g in self.facts()):
                    self.assume(left[0])

    def learn_eq(self, p):
        p = self.apply_isub(p)
        if p.is_const() or p.lazy:
            return
        best = None
        for s in p.free:
            c = p.coef(s)
            if c in (1, -1):
                # prefer eliminating bound/loop/generic symbols over parameters
                pr = (0 if s.startswith("~") else 1 if ("!" in s or s.startswith("_")) else 2, s)
                pr = (pr[0], [-ord(ch) for ch in s])
                if best is None or pr < best[0]:
                    best = (pr, s, c)
        if best is None:
            return
        _, s, c = best
        e = (IP.sym(s) * c - p) * c
        L = self.levels[-1]
        new = {k: v.subst({s: e}) for k, v in self.all_isub().items()}
        new[s] = e
        L.isub = new
        L.barrier = True
        L.memo = {}
        if not getattr(self, "_rescan", False):
            self._rescan = True
            try:
                again = True
                while again:
                    again = False
                    for f in self.facts():
                        if f.op != "le" or f.args[0].lazy:
                            continue
                        p2 = self.apply_isub(f.args[0])
                        if p2.is_const() or p2.lazy:
                            continue
                        if self._check(z_int(p2) < 0) == z3.unsat:
                            n0 = len(self.all_isub())
                            self.learn_eq(p2)
                            if len(self.all_isub()) > n0:
                                again = True
                                break
            finally:
                self._rescan = False

    def learn_scalar_eq(self, lit):
        poly = self.opq[lit.key][1]
        L = self.levels[-1]
        # a single symbol plus constant: substitute
        if len(poly.t) <= 2:
            for m, c in poly.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
                    rest = poly - Poly({m: c})
                    if rest.is_const():
                        at = m[0][0]
                        val = pconst(-rest.cval() / c)
                        self.set_ssub({at.args[0]: val})
                        return
        if len(poly.t) == 2:
            # a complex symbol whose real or imaginary part is zero
            (m1, c1), (m2, c2) = poly.t.items()
            s1, s2 = [a for a, e in m1 if a.kind == "sym" and e == 1], [a for a, e in m2 if a.kind == "sym" and e == 1]
            r1, r2 = [x for x in m1 if x[0].kind != "sym"], [x for x in m2 if x[0].kind != "sym"]
            if len(s1) == len(s2) == 1 and s1[0].args[0] == s2[0].args[0] and s1[0] is not s2[0] and r1 == r2 \
                    and all(a.kind == "I" for a, _ in r1) and c1 in (c2, -c2):
                v = patom(Atom("sym", (s1[0].args[0] + "'", "r", 0), real=True))
                if c1 == c2:
                    v = v * patom(A_I)
                self.set_ssub({s1[0].args[0]: v})
                return
            # |p| = |q|: also the squares are equal
            x, y = [(m, c) for m, c in poly.t.items()]
            if x[1] == -y[1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "abs" for m, c in (x, y)):
                u, w = x[0][0][0].args[1], y[0][0][0].args[1]
                L.hyps.append(simp(u * pconj(u) - w * pconj(w)))
        if self.learn_abs_sum(poly):
            return
        L.hyps.append(poly)

    def learn_abs_sum(self, poly):
        """a sum of absolute values with positive coefficients that is zero: every argument is zero."""
        rows = {}
        for m, c in poly.t.items():
            if c <= 0 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "app" or m[0][0].args[0] != "abs":
                return False
            co, names = {}, set()
            for m2, c2 in m[0][0].args[1].t.items():
                at = [x for x in m2 if x[0].kind == "sym"]
                if len(at) != 1 or at[0][1] != 1 or any(x[0].kind not in ("sym", "I") for x in m2):
                    return False
                names.add(at[0][0].args[0])
                co[at[0][0].args[2]] = (c2, 0) if len(m2) == 1 else (0, c2)
                real = at[0][0].real
            if len(names) != 1:
                return False
            rows.setdefault(names.pop(), (real, []))[1].append(co)
        zero = []
        for nm, (real, cs) in rows.items():
            # real symbol: a multiple of it; complex symbol: two independent combinations of it and its conjugate
            if not real:
                mul = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
                g = lambda co, k: co.get(k, (0, 0))
                if not any(mul(g(a, 0), g(b, 1)) != mul(g(a, 1), g(b, 0)) for a in cs for b in cs):
                    return False
            zero.append(nm)
        self.set_ssub({nm: PZERO for nm in zero})
        return True

    def set_ssub(self, new):
        """replace symbols by values from here on, in what is already known too."""
        L = self.levels[-1]
        old = self.all_ssub()
        L.ssub = dict(new)
        L.barrier = True
        L.memo = {}
        upd = {k: norm_poly(v, {}, self) for k, v in old.items()}
        upd.update(new)
        L.ssub = upd
        L.memo = {}
        for f in self.facts():
            lit, pos = (f.args[0], False) if f.op == "not" else (f, True)
            if lit.op == "opq" and lit.args[0] in ("eq", "lt", "le") and len(lit.args) == 2 and isinstance(lit.args[1], Poly) \
                    and any(a.kind in ("sym", "app", "inv") and any(x.kind == "sym" and x.args[0] in new for x in deep(a)) for a in lit.args[1].atoms()):
                try:
                    g = self.scalar_lit(lit.args[0], norm_poly(lit.args[1], {}, self))
                except (NeedSplit, Unsupported):
                    continue
                if not pos:
                    g = bnot(g)
                if g is not TRUE and not any(g is h for h in self.facts()):
                    self.assume(g)

    def all_isub(self):
        for L in reversed(self.levels):
            if L.isub:
                return L.isub
        return {}

    def all_ssub(self):
        for L in reversed(self.levels):
            if L.ssub:
                return L.ssub
        return {}

    def all_hyps(self):
        return [h for L in self.levels for h in L.hyps]

    def apply_isub(self, p):
        s = self.all_isub()
        return p.subst(s) if s else p

    def facts(self):
        return [f for L in self.levels for f in L.facts]

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        Stats.z3_calls += 1
        Stats.z3_time += time.time() - t
        return r

    def infeasible(self):
        return self._check() == z3.unsat

    def decide(self, b):
        """True / False / None for a resolved condition."""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        s = self.all_isub()
        if s and b.op in ("le", "eq"):
            b = b.subst(s)
            if b is TRUE:
                return True
            if b is FALSE:
                return False
        memo = self.levels[-1].dmemo
        r = memo.get(b.key, 0)
        if r != 0:
            return r
        for L in reversed(self.levels[:-1]):
            r = L.dmemo.get(b.key)
            if r is not None:
                memo[b.key] = r
                return r
        z = z_b(b)
        nn = nonneg(b)
        if self._check(z3.Not(z), *nn) == z3.unsat:
            r = True
        elif self._check(z, *nn) == z3.unsat:
            r = False
        else:
            r = None
        memo[b.key] = r
        return r

    # ------------------------------------------------------------- resolution
    def resolve(self, b, env):
        """Substitute env and replace scalar comparisons by opaque literals
        keyed by the normal form of their operands."""
        if b.op == "c":
            return b
        if b.op == "le":
            return ble(self.canon(b.args[0].subst(env) if env else b.args[0], lazy_ok=True), ZERO)
        if b.op == "eq":
            return beq(self.canon(b.args[0].subst(env) if env else b.args[0], lazy_ok=True), ZERO)
        if b.op == "not":
            return bnot(self.resolve(b.args[0], env))
        if b.op == "and":
            r = []
            for x in b.args:
                try:
                    y = self.resolve(x, env)
                except DivZero:
                    # the other conjuncts guard this one
                    for x2 in b.args:
                        try:
                            z = self.resolve(x2, env)
                        except DivZero:
                            continue
                        d = self.decide(z)
                        if d is False:
                            return FALSE
                        if d is None:
                            raise NeedSplit(z)
                    raise
                if y is FALSE:
                    return FALSE
                if not has_scalar(y) and self.decide(y) is False:
                    return FALSE
                r.append(y)
            return band(*r)
        if b.op == "or":
            r = []
            for x in b.args:
                y = self.resolve(x, env)
                if y is TRUE:
                    return TRUE
                if not has_scalar(y) and self.decide(y) is True:
                    return TRUE
                r.append(y)
            return bor(*r)
        if b.op == "scmp":
            rel, x, y = b.args
            if not self.noraw and (not env or not any(k in b.free for k in env)):
                for L in reversed(self.levels):
                    if b.key in L.raw:
                        return L.raw[b.key]
            d = norm(nsub(x, y), env, self)
            return self.scalar_lit(rel, d)
        if b.op == "opq":
            if b.key in self.opq:
                return b
            args = []
            for a in b.args[1:]:
                if isinstance(a, N):
                    p = norm(a, env, self)
                    args.append(p)
                elif isinstance(a, IP):
                    args.append(self.canon(a.subst(env)))
                else:
                    args.append(a)
            r = B("opq", (b.args[0],) + tuple(args))
            self.opq[r.key] = (b.args[0], tuple(args))
            return r
        raise AssertionError(b.op)

    def scalar_lit(self, rel, d):
        """literal for d rel 0 (rel in eq, lt, le), d a Poly."""
        if d.is_const():
            c = d.cval()
            return TRUE if {"eq": c == 0, "lt": c < 0, "le": c <= 0}[rel] else FALSE
        lead = min(d.t.items(), key=lambda mc: mono_key(mc[0]))[1]
        if rel == "eq":
            (m, _), = list(d.t.items())[:1]
            if len(d.t) == 1 and len(m) == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "abs":
                return self.scalar_lit("eq", m[0][0].args[1])      # |x| = 0 iff x = 0
            if len(d.t) == 1 and any(e < 0 for _, e in m) and any(e > 0 for _, e in m):
                # a quotient is zero iff its numerator is
                return self.scalar_lit("eq", Poly({tuple(x for x in m if x[1] > 0): Fraction(1)}))
            d = d.scale(1 / lead)
            r = B("opq", ("eq", d))
            self.opq[r.key] = ("eq", d)
            return r
        d2 = d.scale(1 / abs(lead))
        if rel == "lt":
            if lead < 0:
                # d < 0  <=>  not (-d <= 0)
                r = B("opq", ("le", -d2))
                self.opq[r.key] = ("le", -d2)
                return bnot(r)
            r = B("opq", ("lt", d2))
            # d<0 with positive leading coefficient: use not(le of -d)
            self.opq[r.key] = ("lt", d2)
            return r
        if lead < 0:
            # d <= 0 <=> not (-d < 0)
            r = B("opq", ("lt", -d2))
            self.opq[r.key] = ("lt", -d2)
            return bnot(r)
        r = B("opq", ("le", d2))
        self.opq[r.key] = ("le", d2)
        return r

    def canon(self, p, lazy_ok=False):
        s = self.all_isub()
        if s:
            p = p.subst(s)
        if p.lazy:
            r = ZERO
            for m, c in p.t:
                x = IP.const(c)
                for a in m:
                    x = x * (IP.sym(a) if isinstance(a, str) else self.canon_atom(a, lazy_ok))
                r = r + x
            if s:
                r = r.subst(s)
            return r
        return p

    def canon_atom(self, a, lazy_ok):
        if a.op == "ite":
            c = self.resolve(a.args[0], None) if has_scalar(a.args[0]) else a.args[0]
            d = self.decide(c)
            if d is None:
                if lazy_ok:
                    return iite(c, self.canon(a.args[1], True), self.canon(a.args[2], True))
                raise NeedSplit(self.first_lit(c))
            return self.canon(a.args[1] if d else a.args[2], lazy_ok)
        if a.op == "div":
            return idiv(self.canon(a.args[0], lazy_ok), self.canon(a.args[1], lazy_ok))
        if a.op == "app":
            f = a.args[0]
            xs = [self.canon(x, lazy_ok) for x in a.args[1:]]
            r = f.interp(self, xs) if f.interp is not None else None
            return iapp(f, *xs) if r is None else self.canon(r, lazy_ok)
        raise AssertionError

    def first_lit(self, b):
        """first undecided literal of an undecided condition."""
        if b.op in ("and", "or"):
            for x in b.args:
                if self.decide(x) is None:
                    return self.first_lit(x)
        if b.op == "not":
            return self.first_lit(b.args[0])
        if b.op in ("le", "eq") and b.args[0].lazy:
            for m, _ in b.args[0].t:
                for a in m:
                    if not isinstance(a, str) and a.op == "ite":
                        if self.decide(a.args[0]) is None:
                            return self.first_lit(a.args[0])
            q = self.canon(b.args[0], True)
            return ble(q, ZERO) if b.op == "le" else beq(q, ZERO)
        return b

    def truth(self, b, env=None):
        """Decide a condition or raise NeedSplit."""
        b = self.resolve(b, env)
        d = self.decide(b)
        if d is None:
            raise NeedSplit(self.first_lit(b))
        return d


# ---------------------------------------------------------------- normaliser

_EMPTY = {}


def norm(n, env, ctx):
    """Normal form (Poly) of scalar node n with integer symbols mapped by env."""
    env = env or _EMPTY
    op = n.op
    if op == "q":
        return pconst(n.args[0])
    fr = n.free
    if env and not any(k in fr for k in env):
        env = _EMPTY
    if env:
        key = (n.id, ctx.keep_sums) + tuple((k, env[k].key) for k in sorted(env) if k in fr)
    else:
        key = (n.id, ctx.keep_sums)
    for L in reversed(ctx.levels):
        r = L.memo.get(key)
        if r is not None:
            return r
        if L.barrier:
            break
    r = _norm(n, op, env, ctx)
    ctx.levels[-1].memo[key] = r
    return r


def _norm(n, op, env, ctx):
    a = n.args
    if op == "sym":
        return norm_sym(a[0], a[1], ctx)
    if op == "clo":
        e2 = {k: v.subst(env) if env else v for k, v in a[1]}
        for k, v in env.items():
            if k not in e2:
                e2[k] = v
        return norm(a[0], e2, ctx)
    if op == "add":
        r = PZERO
        for x in a:
            r = r + norm(x, env, ctx)
        return r
    if op == "mul":
        r = PONE
        for x in a:
            p = norm(x, env, ctx)
            if not p.t:
                return PZERO
            r = pmul(r, p, ctx)
        return r
    if op == "conj":
        return pconj(norm(a[0], env, ctx))
    if op == "inv":
        return pinv(norm(a[0], env, ctx))
    if op == "app":
        return papp(a[0], [norm(x, env, ctx) for x in a[1:]], ctx)
    if op == "int":
        return int_poly(ctx.canon(a[0].subst(env)))
    if op == "ite":
        c = ctx.resolve(a[0], env)
        d = ctx.decide(c)
        if d is None:
            if getattr(ctx, "ite_atoms", False) and has_scalar(c) and not c.op in ("and", "or"):
                x, y = norm(a[1], env, ctx), norm(a[2], env, ctx)
                return pite(c, x, y)
            raise NeedSplit(ctx.first_lit(c))
        return norm(a[1] if d else a[2], env, ctx)
    if op == "rd":
        return norm_read(a[0], a[1].subst(env) if env else a[1], a[2].subst(env) if env else a[2], env, ctx)
    if op == "arr":   # (Base, conj, idx...)  explicit read of a base array
        return norm_base(a[0], tuple(x.subst(env) if env else x for x in a[2:]), ctx)
    if op == "sum":
        return norm_sum(a[0], a[1].subst(env) if env else a[1], a[2].subst(env) if env else a[2],
                        lambda t, e=dict(env): norm(a[3], {**e, a[0]: t}, ctx), ctx)
    if op == "poly":
        return norm_poly(a[0], env, ctx)
    if op == "lazy":
        # python callback with integer arguments: (fn, IP...)
        return norm(a[0].call(*[ctx.canon(x.subst(env)) for x in a[1:]]), env if a[0].keep_env else None, ctx) \
            if not a[0].direct else a[0].call(ctx, *[ctx.canon(x.subst(env)) for x in a[1:]])
    raise Unsupported("norm " + op)


class LazyFn:
    """A named callback producing a node (or, when direct, a Poly)."""
    __slots__ = ("key", "id", "call", "keep_env", "direct")
    cnt = itertools.count()

    def __init__(self, call, direct=False):
        self.call = call
        self.direct = direct
        self.keep_env = False
        self.key = "lz%d" % next(LazyFn.cnt)
        self.id = self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o


def norm_sym(name, real, ctx):
    s = ctx.all_ssub().get(name)
    if s is not None:
        return s
    return patom(Atom("sym", (name, "r" if real else "c", 0), real=real))


def norm_read(st, i, j, env, ctx):
    while True:
        if st.op == "base":
            b = st.args[0]
            return norm_base(b, (i, j) + tuple(IP.sym(p).subst(env) for p in b.params), ctx)
        if st.op == "upd":
            prev, vi, vj, cond, val = st.args
            e = dict(env)
            e[vi] = i
            e[vj] = j
            if ctx.truth(cond, e):
                return norm(val, e, ctx)
            st = prev
        elif st.op == "ite":
            st = st.args[1] if ctx.truth(st.args[0], env) else st.args[2]
        else:
            raise AssertionError


def norm_base(b, idx, ctx):
    idx = tuple(ctx.canon(x) for x in idx)
    if b.interp is not None:
        return b.interp(ctx, *idx)
    return patom(Atom("arr", (b, idx, 0), real=b.real))


def pconj(p):
    d = {}
    for m, c in p.t.items():
        r = Poly({(): c})
        for a, e in m:
            r = r * aconj(a, e)
        for m2, c2 in r.t.items():
            n = d.get(m2, 0) + c2
            if n == 0:
                d.pop(m2, None)
            else:
                d[m2] = n
    return Poly(d)


def aconj(a, e):
    k = a.kind
    if k == "I":
        return Poly({((a, 1),): Fraction(-1)}) if e % 2 else Poly({(): Fraction(1)})
    if a.real:
        return patom(a, e)
    if k == "sym":
        return patom(Atom("sym", (a.args[0], a.args[1], 1 - a.args[2])), e)
    if k == "arr":
        return patom(Atom("arr", (a.args[0], a.args[1], 1 - a.args[2])), e)
    if k == "P":
        body, d, x = a.args
        bp = pconj(Poly({body: Fraction(1)}))
        r = PZERO
        for m, c in bp.t.items():
            r = r + prefix_poly(m, "@%d" % d, x, None).scale(c)
        return ppow(r, e)
    if k == "S":
        body, d, lo, hi = a.args
        bp = pconj(Poly({body: Fraction(1)}))
        r = PZERO
        for m, c in bp.t.items():
            r = r + mk_S(m, "@%d" % d, lo, hi).scale(c)
        return ppow(r, e)
    if k == "inv":
        return ppow(pinv(pconj(a.args[0])), e)
    if k == "app":
        if a.args[0] in ("sqrtc",):
            return patom(Atom("app", ("conj",) + a.args), e)
        return patom(a, e)
    if k == "ite":
        return ppow(pite(a.args[0], pconj(a.args[1]), pconj(a.args[2])), e)
    if k == "int":
        return patom(a, e)
    raise Unsupported("conj " + k)


def ppow(p, e):
    if e < 0:
        p = pinv(p)
        e = -e
    r = PONE
    for _ in range(e):
        r = r * p
    return r


def pmul(a, b, ctx):
    if ctx is not None:
        neg = None
        for p, o in ((a, b), (b, a)):
            for m in p.t:
                for at, e in m:
                    if e < 0:
                        for m2 in o.t:
                            for at2, e2 in m2:
                                if at2 is at and e2 > 0:
                                    ctx.nonzero.add(at)
    r = a * b
    return simp(r)


def simp(p):
    """sqrt(x)^2 = x and |x|^2 = x conj(x)."""
    sq = lambda at, e: at.kind == "app" and at.args[0] in ("sqrt", "abs") and (e >= 2 or e <= -2)
    if any(sq(at, e) for m in p.t for at, e in m):
        r = PZERO
        for m2, c in p.t.items():
            q_ = pconst(c)
            for a2, e2 in m2:
                if sq(a2, e2):
                    h = int(e2 / 2)
                    y = a2.args[1]
                    q_ = q_ * ppow(y if a2.args[0] == "sqrt" else y * pconj(y), h)
                    if e2 - 2 * h:
                        q_ = q_ * patom(a2, e2 - 2 * h)
                else:
                    q_ = q_ * patom(a2, e2)
            r = r + q_
        return simp(r)
    return p


def pinv(p):
    if not p.t:
        raise DivZero("division by zero polynomial")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a.kind == "I" for a, _ in m):
            return simp(Poly({tuple((a, -e) for a, e in m): 1 / c}))
        return simp(Poly({tuple((a, -e) if a.kind != "I" else (a, 1) for a, e in m): -1 / c}))
    lead = min(p.t.items(), key=lambda mc: mono_key(mc[0]))[1]
    q_ = p.scale(1 / lead)
    real = all(a.real for a in q_.atoms())
    return Poly({((Atom("inv", (q_,), depth=q_.depth(), real=real), 1),): 1 / lead})


REAL_APPS = {"abs", "sqrt", "log2", "pow", "ceil", "floor", "lim", "max", "min"}


def papp(f, ps, ctx):
    if f == "abs":
        p = ps[0]
        if p.is_const():
            return pconst(abs(p.cval()))
        lead = min(p.t.items(), key=lambda mc: mono_key(mc[0]))[1]
        if lead < 0:
            p = -p
        # |conj z| = |z|: canonical representative
        pc = pconj(p)
        if pc.key < p.key:
            p = pc
            lead = min(p.t.items(), key=lambda mc: mono_key(mc[0]))[1]
            if lead < 0:
                p = -p
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][0].kind == "app" and m[0][0].args[0] in ("abs",) and m[0][1] == 1:
                return p
        ps = [p]
    if f == "pow" and all(p.is_const() for p in ps):
        b, e = ps[0].cval(), ps[1].cval()
        if b > 0 and Fraction(e).denominator == 1 and abs(e) <= 5000:
            return pconst(Fraction(b) ** int(e))
    if f == "sqrt":
        p = ps[0]
        if p.is_const():
            c = p.cval()
            if c >= 0:
                import math
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return pconst(Fraction(a, b))
    at = Atom("app", (f,) + tuple(ps), depth=max([p.depth() for p in ps], default=0), real=f in REAL_APPS)
    return patom(at)


def pite(c, x, y):
    if x == y:
        return x
    if c.op == "not":
        return pite(c.args[0], y, x)
    at = Atom("ite", (c, x, y), depth=max(x.depth(), y.depth()),
              real=all(a.real for a in x.atoms() | y.atoms()))
    return patom(at)


def int_poly(p):
    """integer polynomial as a scalar polynomial."""
    r = PZERO
    for m, c in p.t:
        x = pconst(c)
        for a in m:
            nm = a if isinstance(a, str) else a.key
            x = x * patom(Atom("int", (nm,), real=True))
        r = r + x
    return r


# ------------------------------------------------------------------- sums


def norm_sum(var, lo, hi, body, ctx):
    """sum_{t=lo}^{hi-1} body(t); body: IP -> Poly."""
    lo, hi = ctx.canon(lo), ctx.canon(hi)
    ext = hi - lo
    if ext.is_const():
        n = ext.cval()
        if n <= 0:
            return PZERO
        if n <= 3:
            r = PZERO
            for k in range(n):
                r = r + body(lo + k)
            return r
    else:
        d = ctx.decide(blt(lo, hi))
        if d is False:
            return PZERO
        # an empty range is harmless (the normal form of its sum is zero)
        if d is None and ctx.decide(ble(lo, hi)) is not True:
            raise NeedSplit(blt(lo, hi))
    t = fresh("~s")
    T = IP.sym(t)
    split = None
    ctx.push()
    try:
        ctx.assume(ble(lo, T))
        ctx.assume(blt(T, hi))
        if t in ctx.all_isub():
            p = body(T)
            return p
        old = getattr(ctx, "ite_atoms", False)
        try:
            ctx.ite_atoms = True
            p = body(T)
        except NeedSplit as e:
            if t not in e.cond.free:
                raise
            split = e.cond
        finally:
            ctx.ite_atoms = old
    finally:
        ctx.pop()
    if split is not None:
        return split_sum(var, lo, hi, body, ctx, split, t)
    r = PZERO
    for m, c in p.t.items():
        r = r + sum_mono(m, t, lo, hi, ctx.keep_sums).scale(c)
    return r


def split_sum(var, lo, hi, body, ctx, cond, t):
    pos = cond
    while pos.op == "not":
        pos = pos.args[0]
    if pos.op not in ("le", "eq"):
        raise NeedSplitBound(cond)
    p = pos.args[0]
    c = p.coef(t)
    if c not in (1, -1):
        raise Unsupported("sum split on %s" % cond)
    rest = p - IP.sym(t) * c

    def piece(a, b):
        return norm_sum(var, a, b, body, ctx)

    def clampcut(x):
        """decide position of x relative to [lo,hi]."""
        if ctx.truth(ble(x, lo)):
            return -1
        if ctx.truth(ble(hi, x)):
            return 1
        return 0
    if pos.op == "le":
        # c*t + rest <= 0
        cut = (ONE - rest) if c == 1 else rest    # c=1: t <= -rest -> cut at -rest+1 ; c=-1: t >= rest
        k = clampcut(cut)
        if k != 0:
            # contradicts undecidedness, except for incompleteness
            raise Unsupported("sum split made no progress: %s in [%s,%s)" % (cond, lo, hi))
        return piece(lo, cut) + piece(cut, hi)
    e = -rest if c == 1 else rest
    if not ctx.truth(ble(lo, e)) or not ctx.truth(blt(e, hi)):
        raise Unsupported("sum split (eq) made no progress")
    return piece(lo, e) + body(e) + piece(e + 1, hi)


def sum_mono(m, t, lo, hi, keep):
    out, inn = [], []
    for a, e in m:
        (inn if t in a.free else out).append((a, e))
    if not inn:
        return Poly({tuple(out): Fraction(1)}) * int_poly(hi - lo) if out else int_poly(hi - lo)
    inn = tuple(inn)
    if keep:
        s = mk_S(inn, t, lo, hi)
    else:
        s = prefix_range(inn, t, lo, hi)
    return s if not out else simp(Poly({tuple(out): Fraction(1)}) * s)


def mk_S(m, t, lo, hi):
    d = mono_depth(m) + 1
    v = "@%d" % d
    if v != t:
        b = subst_mono(m, {t: IP.sym(v)})
        r = PZERO
        for m2, c in b.t.items():
            r = r + _mk_S(m2, d, lo, hi).scale(c)
        return r
    return _mk_S(m, d, lo, hi)


def _mk_S(m, d, lo, hi):
    return patom(Atom("S", (m, d, lo, hi), depth=d, real=all(a.real for a, _ in m)))


def anchor_candidates(m, t):
    """IPs linear (+-1) in t that occur as indices in the monomial."""
    r = []
    for a, _ in m:
        _anch(a, t, r)
    seen = []
    for p in r:
        if p not in seen:
            seen.append(p)
    return seen


def _anch(a, t, r):
    if a.kind == "arr":
        for x in a.args[1]:
            if t in x.free and x.coef(t) in (1, -1):
                if not any(isinstance(y, str) and y.startswith("@") and y != t for y in x.free):
                    r.append(x)
    elif a.kind == "P":
        x = a.args[2]
        if t in x.free and x.coef(t) in (1, -1):
            r.append(x)
        for b, _ in a.args[0]:
            _anch(b, t, r)
    elif a.kind in ("inv", "app", "ite"):
        for p in a.args:
            if isinstance(p, Poly):
                for b in p.atoms():
                    _anch(b, t, r)
    elif a.kind == "int":
        if a.args[0] == t:
            r.append(IP.sym(t))


def prefix_range(m, t, lo, hi):
    d = mono_depth(m) + 1
    v = "@%d" % d
    V = IP.sym(v)
    best = None
    for x in anchor_candidates(m, t):
        s = x.coef(t)
        off = x - IP.sym(t) * s
        b = subst_mono(m, {t: (V - off) * s})
        k = b.key
        if best is None or (k, s, off.key) < best[0]:
            best = ((k, s, off.key), b, s, off)
    if best is None:
        b = subst_mono(m, {t: V})
        s, off = 1, ZERO
    else:
        _, b, s, off = best
    if s == 1:
        l2, h2 = lo + off, hi + off
    else:
        l2, h2 = off - hi + 1, off - lo + 1
    r = PZERO
    for m2, c in b.t.items():
        out, inn = [], []
        for a, e in m2:
            (inn if v in a.free else out).append((a, e))
        if not inn:
            x = int_poly(h2 - l2)
        else:
            inn = tuple(inn)
            x = prefix_at(inn, d, h2) - prefix_at(inn, d, l2)
        if out:
            x = Poly({tuple(out): Fraction(1)}) * x
        r = r + x.scale(c)
    return r


def sum_over(p, v, hi):
    """formal antiderivative sum_{v<hi} of a polynomial, term by term."""
    r = PZERO
    for m, c in p.t.items():
        out, inn = [], []
        for a, e in m:
            (inn if v in a.free else out).append((a, e))
        x = prefix_range(tuple(inn), v, ZERO, hi) if inn else int_poly(hi)
        if out:
            x = Poly({tuple(out): Fraction(1)}) * x
        r = r + x.scale(c)
    return simp(r)


def _sig(m, o):
    """where the summation variable o occurs (offsets ignored)"""
    r = []

    def walk(a, e):
        if o not in a.free:
            return
        if a.kind == "arr":
            r.append((a.args[0].key, str(a.args[2]), str(e), tuple(str(x.coef(o)) if o in x.free else "0" for x in a.args[1])))
        elif a.kind == "P":
            for b, f in a.args[0]:
                walk(b, f)
        else:
            r.append((a.kind, "", str(e), ()))
    for a, e in m:
        walk(a, e)
    return sorted(r)


def swap_poly(p):
    """nested sums in a canonical order (interchange of finite sums)."""
    r = PZERO
    for m, c in p.t.items():
        x = pconst(c)
        for a, e in m:
            if a.kind == "P" and e == 1:
                x = x * swap_atom(a)
            else:
                x = x * patom(a, e)
        r = r + simp(x)
    return r


def swap_atom(a):
    m, d, e = a.args
    v = "@%d" % d
    b = swap_poly(Poly({m: Fraction(1)}))
    if b.t != {m: Fraction(1)}:
        return swap_poly(sum_over(b, v, e))
    for k, (x, xe) in enumerate(m):
        if x.kind == "P" and xe == 1 and v in x.free:
            m2, d2, e2 = x.args
            w = "@%d" % d2
            if d2 == d:
                continue
            co = e2.coef(v) if v in e2.free else 0
            if co not in (0, 1):
                continue
            S, T = fresh("~s"), fresh("~t")
            F = subst_mono(m[:k] + m[k + 1:], {v: IP.sym(S)}) * subst_mono(subst1(m2, v, S), {w: IP.sym(T)})
            if len(F.t) != 1:
                continue
            (fm, fc), = F.t.items()
            ko, ki = _sig(fm, S), _sig(fm, T)
            if ko <= ki:
                continue
            off = e2 - IP.sym(v) * co if co else e2
            if v in off.free:
                continue
            if not co:
                r = sum_over(sum_over(F, S, e), T, e2)
            else:
                G = subst_poly(F, {T: IP.sym(T) + off})
                r = sum_over(sum_over(G, S, e) - sum_over(G, S, IP.sym(T) + 1), T, e)
                if off.t:
                    r = r + sum_over(sum_over(F, S, e), T, off)
            return swap_poly(r)
    return patom(a)


def subst1(m, v, S):
    p = subst_mono(m, {v: IP.sym(S)})
    (mm, c), = p.t.items()
    assert c == 1
    return mm


def prefix_at(m, d, e):
    """P(m, e) with constant offsets peeled."""
    c = 0
    for mm, cc in e.t:
        if mm == ():
            c = cc
    base = e - c
    v = "@%d" % d
    if abs(c) > 6:
        if not base.t:
            return patom(Atom("P", (m, d, e), depth=d, real=all(a.real for a, _ in m)))
        return patom(Atom("P", (m, d, e), depth=d, real=all(a.real for a, _ in m)))
    r = PZERO if not base.t else patom(Atom("P", (m, d, base), depth=d, real=all(a.real for a, _ in m)))
    if c > 0:
        for k in range(c):
            r = r + subst_mono(m, {v: base + k})
    else:
        for k in range(-c):
            r = r - subst_mono(m, {v: base - 1 - k})
    return r


def prefix_poly(m, v, e, ctx):
    """prefix sum up to e of monomial m in variable v, recanonicalised."""
    return prefix_range_from0(m, v, e)


def prefix_range_from0(m, v, e):
    # P(m,e) = formal antiderivative; express with canonical anchoring relative to 0
    return prefix_range(m, v, ZERO, e)


def subst_mono(m, env):
    r = PONE
    for a, e in m:
        if any(k in a.free for k in env):
            r = r * ppow(subst_atom(a, env), e)
        else:
            r = r * patom(a, e)
    return simp(r)


def subst_poly(p, env):
    r = PZERO
    for m, c in p.t.items():
        r = r + subst_mono(m, env).scale(c)
    return r


def subst_atom(a, env):
    k = a.kind
    if k == "arr":
        return patom(Atom("arr", (a.args[0], tuple(x.subst(env) for x in a.args[1]), a.args[2]), real=a.real))
    if k == "P":
        m, d, e = a.args
        v = "@%d" % d
        env2 = {k2: x for k2, x in env.items() if k2 != v}
        b = subst_mono(m, env2)
        e2 = e.subst(env)
        r = PZERO
        for m2, c in b.t.items():
            r = r + prefix_range(m2, v, ZERO, e2).scale(c)
        return r
    if k == "S":
        m, d, lo, hi = a.args
        v = "@%d" % d
        b = subst_mono(m, {k2: x for k2, x in env.items() if k2 != v})
        r = PZERO
        for m2, c in b.t.items():
            r = r + mk_S(m2, v, lo.subst(env), hi.subst(env)).scale(c)
        return r
    if k == "inv":
        return pinv(subst_poly(a.args[0], env))
    if k == "app":
        return papp(a.args[0], [subst_poly(p, env) for p in a.args[1:]], None)
    if k == "ite":
        return pite(subst_b(a.args[0], env), subst_poly(a.args[1], env), subst_poly(a.args[2], env))
    if k == "int":
        return int_poly(IP.sym(a.args[0]).subst(env))
    raise Unsupported("subst " + k)


def subst_b(b, env):
    if b.op == "opq":
        return B("opq", (b.args[0],) + tuple(subst_poly(x, env) if isinstance(x, Poly) else x for x in b.args[1:]))
    if b.op == "not":
        return bnot(subst_b(b.args[0], env))
    if b.op in ("and", "or"):
        f = band if b.op == "and" else bor
        return f(*[subst_b(x, env) for x in b.args])
    return b.subst(env)


def norm_poly(p, env, ctx):
    """re-normalise a polynomial (kept-sums form) under env: atoms over
    interpreted bases are expanded."""
    r = PZERO
    for m, c in p.t.items():
        x = pconst(c)
        for a, e in m:
            x = pmul(x, ppow(norm_atom(a, env, ctx), e), ctx)
        r = r + x
    return r


def norm_atom(a, env, ctx):
    k = a.kind
    if k == "I":
        return patom(a)
    if k == "sym":
        r = norm_sym(a.args[0], a.args[1] == "r", ctx)
        return pconj(r) if a.args[2] else r
    if k == "arr":
        r = norm_base(a.args[0], tuple(x.subst(env) for x in a.args[1]), ctx)
        return pconj(r) if a.args[2] else r
    if k == "S":
        m, d, lo, hi = a.args
        v = "@%d" % d
        pm = Poly({m: Fraction(1)})
        return norm_sum(v, lo.subst(env), hi.subst(env), lambda t: norm_poly(pm, {**env, v: t}, ctx), ctx)
    if k == "inv":
        return pinv(norm_poly(a.args[0], env, ctx))
    if k == "app":
        if a.args[0] == "conj":
            return pconj(papp(a.args[1], [norm_poly(p, env, ctx) for p in a.args[2:]], ctx))
        return papp(a.args[0], [norm_poly(p, env, ctx) for p in a.args[1:]], ctx)
    if k == "ite":
        c = subst_b_norm(a.args[0], env, ctx)
        d = ctx.decide(c)
        if d is True:
            return norm_poly(a.args[1], env, ctx)
        if d is False:
            return norm_poly(a.args[2], env, ctx)
        if getattr(ctx, "ite_atoms", False):
            return pite(c, norm_poly(a.args[1], env, ctx), norm_poly(a.args[2], env, ctx))
        raise NeedSplit(ctx.first_lit(c))
    if k == "int":
        return int_poly(ctx.canon(IP.sym(a.args[0]).subst(env)))
    if k == "P":
        raise Unsupported("prefix atom in kept-sums polynomial")
    raise Unsupported("norm_atom " + k)


def subst_b_norm(b, env, ctx):
    if b.op == "opq":
        args = [norm_poly(x, env, ctx) if isinstance(x, Poly) else (ctx.canon(x.subst(env)) if isinstance(x, IP) else x)
                for x in b.args[1:]]
        if b.args[0] in ("eq", "lt", "le"):
            return ctx.scalar_lit(b.args[0], args[0])
        r = B("opq", (b.args[0],) + tuple(args))
        ctx.opq[r.key] = (b.args[0], tuple(args))
        return r
    if b.op == "not":
        return bnot(subst_b_norm(b.args[0], env, ctx))
    if b.op in ("and", "or"):
        f = band if b.op == "and" else bor
        return f(*[subst_b_norm(x, env, ctx) for x in b.args])
    return ctx.resolve(b, env)


class NeedSplitBound(Unsupported):
    pass


# ------------------------------------------------------------ case splitting


def cases(ctx, fn, maxcases=4000):
    """Run fn() under ctx, splitting on NeedSplit; yields (conds, result)."""
    out = []

    def go(path):
        if len(out) > maxcases:
            raise Unsupported("too many cases")
        try:
            r = fn()
        except NeedSplit as e:
            Stats.splits += 1
            c = e.cond
            for b in (c, bnot(c)):
                ctx.push()
                try:
                    ctx.assume(b)
                    if not ctx.infeasible():
                        go(path + [b])
                finally:
                    ctx.pop()
            return
        out.append((path, r))
    go([])
    return out
