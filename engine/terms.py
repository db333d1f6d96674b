"""Term language of the verifier.

Integers   : polynomials (IP) over integer symbols, with lazy IntIte / IntDiv atoms.
Conditions : linear (in)equalities, scalar comparison atoms, and/or/not.
Scalars    : hash-consed nodes (lazy: array-state reads, ite, sums) that are
             normalised, under a context of assumptions, to polynomials over
             atoms.  Finite sums are represented by prefix-sum atoms
             P(body, e) = sum_{t<e} body(t), with sum_{lo}^{hi-1} = P(hi)-P(lo)
             (used only after lo <= hi has been established).
"""
from fractions import Fraction
from math import gcd
import itertools
import z3

# ----------------------------------------------------------------- integers


class IAtom:
    """Non-symbol integer atom: ('ite', cond, a, b) or ('div', a, c)."""
    __slots__ = ("op", "args", "key", "_free")
    table = {}

    def __new__(cls, op, args):
        key = op + "(" + ",".join(a.key for a in args) + ")"
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.op, o.args, o.key, o._free = op, args, key, None
            cls.table[key] = o
        return o

    @property
    def free(self):
        if self._free is None:
            s = frozenset()
            for a in self.args:
                s |= a.free
            self._free = s
        return self._free


def _akey(a):
    return a if isinstance(a, str) else a.key


class IP:
    """Integer polynomial, immutable and interned."""
    __slots__ = ("t", "key", "_free", "_lazy", "__weakref__")
    table = {}

    def __new__(cls, terms):
        t = tuple(sorted(((m, c) for m, c in terms.items() if c != 0),
                         key=lambda mc: tuple(_akey(a) for a in mc[0])))
        if not t:
            key = "0"
        else:
            parts = []
            for m, c in t:
                ms = "*".join(_akey(a) for a in m)
                parts.append((str(c) if not ms else (ms if c == 1 else "%s*%s" % (c, ms))))
            key = "+".join(parts)
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.t, o.key, o._free, o._lazy = t, key, None, None
            cls.table[key] = o
        return o

    def __reduce__(self):
        raise TypeError

    @staticmethod
    def const(c):
        return IP({(): c})

    @staticmethod
    def sym(s):
        return IP({(s,): 1})

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m, _ in self.t:
                for a in m:
                    if isinstance(a, str):
                        s.add(a)
                    else:
                        s |= a.free
            self._free = frozenset(s)
        return self._free

    @property
    def lazy(self):
        """True when some atom is not a plain symbol."""
        if self._lazy is None:
            self._lazy = any(not isinstance(a, str) for m, _ in self.t for a in m)
        return self._lazy

    def __add__(self, o):
        o = ip(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return IP(d)

    __radd__ = __add__

    def __neg__(self):
        return IP({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-ip(o))

    def __rsub__(self, o):
        return ip(o) - self

    def __mul__(self, o):
        o = ip(o)
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n, key=_akey))
                d[k] = d.get(k, 0) + c * e
        return IP(d)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def cval(self):
        return self.t[0][1] if self.t else 0

    def coef(self, s):
        """Coefficient of plain symbol s if s occurs only linearly, else None."""
        r = 0
        for m, c in self.t:
            if m == (s,):
                r = c
            else:
                for a in m:
                    if a == s or (not isinstance(a, str) and s in a.free):
                        return None
        return r

    def subst(self, env):
        if not env or not any(f in env for f in self.free):
            return self
        r = ZERO
        for m, c in self.t:
            p = IP.const(c)
            for a in m:
                if isinstance(a, str):
                    p = p * env.get(a, IP.sym(a))
                else:
                    p = p * iatom_subst(a, env)
            r = r + p
        return r

    def __repr__(self):
        return self.key


def ip(x):
    if isinstance(x, IP):
        return x
    if isinstance(x, int):
        return IP.const(x)
    if isinstance(x, str):
        return IP.sym(x)
    raise TypeError(x)


ZERO = IP({})
ONE = IP.const(1)


def iatom_subst(a, env):
    if not any(f in env for f in a.free):
        return IP({(a,): 1})
    if a.op == "ite":
        return iite(a.args[0].subst(env), a.args[1].subst(env), a.args[2].subst(env))
    if a.op == "div":
        return idiv(a.args[0].subst(env), a.args[1].subst(env))
    if a.op == "app":
        return iapp(a.args[0], *[x.subst(env) for x in a.args[1:]])
    raise AssertionError(a.op)


class IFun:
    """uninterpreted integer function (entries of an integer array, a
    permutation); interp(ctx, args) may give a definition"""
    free = frozenset()
    lazy = False

    def __init__(self, name):
        self.key = fresh(name)
        self.interp = None

    def __call__(self, *a):
        return iapp(self, *[ip(x) for x in a])


def iapp(f, *a):
    return IP({(IAtom("app", (f,) + a),): 1})


class IState:
    """contents of an integer array: a list of writes over a function"""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def read(self, ctx, i):
        s, pend = self, []
        while True:
            if s.op == "w":
                c = beq(s.args[0], i)
                d = ctx.decide(ctx.resolve(c, None)) if ctx is not None else None
                if c is TRUE or d is True:
                    r = s.args[1]
                    break
                if not (c is FALSE or d is False):
                    pend.append((c, s.args[1]))
                s = s.args[2]
            elif s.op == "ite":
                r = iite(s.args[0], s.args[1].read(ctx, i), s.args[2].read(ctx, i))
                break
            else:
                r = s.args[0](i)
                break
        for c, x in reversed(pend):
            r = iite(c, x, r)
        return r


def iite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return IP({(IAtom("ite", (c, a, b)),): 1})


def idiv(a, c):
    """floor division of a by c."""
    if a.is_const() and c.is_const() and c.cval() != 0:
        return IP.const(a.cval() // c.cval())
    if c.is_const() and c.cval() == 1:
        return a
    return IP({(IAtom("div", (a, c)),): 1})


def imax(a, b):
    return iite(ble(b, a), a, b)


def imin(a, b):
    return iite(ble(a, b), a, b)


# --------------------------------------------------------------- conditions


class B:
    """Boolean condition, interned.
    ops: 'c' const; 'le' IP (p<=0); 'eq' IP (p==0); 'not'; 'and'; 'or';
         'scmp' (rel, Node a, Node b); 'opq' (name, args Nodes)"""
    __slots__ = ("op", "args", "key", "_free")
    table = {}

    def __new__(cls, op, args):
        key = op + "[" + ";".join(x.key if hasattr(x, "key") else str(x) for x in args) + "]"
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.op, o.args, o.key, o._free = op, args, key, None
            cls.table[key] = o
        return o

    @property
    def free(self):
        if self._free is None:
            s = frozenset()
            for a in self.args:
                if hasattr(a, "free"):
                    s |= a.free
            self._free = s
        return self._free

    def subst(self, env):
        if not env or not any(f in env for f in self.free):
            return self
        if self.op == "le":
            return ble(self.args[0].subst(env), ZERO)
        if self.op == "eq":
            return beq(self.args[0].subst(env), ZERO)
        if self.op == "not":
            return bnot(self.args[0].subst(env))
        if self.op == "and":
            return band(*[a.subst(env) for a in self.args])
        if self.op == "or":
            return bor(*[a.subst(env) for a in self.args])
        if self.op == "scmp":
            return bscmp(self.args[0], closure(self.args[1], env), closure(self.args[2], env))
        if self.op == "opq":
            return B("opq", (self.args[0],) + tuple(closure(a, env) if isinstance(a, N) else a.subst(env) for a in self.args[1:]))
        return self

    def __repr__(self):
        return self.key


TRUE = B("c", (1,))
FALSE = B("c", (0,))


def ble(a, b):
    p = a - b
    if p.is_const():
        return TRUE if p.cval() <= 0 else FALSE
    g = 0
    for m, c in p.t:
        if m:
            g = gcd(g, c)
    if g > 1:       # integer variables: g*x + c <= 0  iff  x + ceil(c/g) <= 0
        p = IP({m: c // g if m else -(-c // g) for m, c in p.t})
    return B("le", (p,))


def blt(a, b):
    return ble(a + 1, b)


def beq(a, b):
    p = a - b
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    # canonical sign
    if p.t[0][1] < 0 if p.t[0][0] != () else p.t[1][1] < 0:
        p = -p
    return B("eq", (p,))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return ble(ONE - a.args[0], ZERO)
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    return B("not", (a,))


def band(*xs):
    r = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in r:
                r.append(y)
    for y in r:
        if bnot1(y) in r:
            return FALSE
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return B("and", tuple(r))


def bnot1(y):
    """negation of a literal, without descending."""
    if y.op == "not":
        return y.args[0]
    if y.op == "le":
        return ble(ONE - y.args[0], ZERO)
    return B("not", (y,)) if y.op in ("eq", "scmp", "opq", "and", "or") else bnot(y)


def bor(*xs):
    r = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.op == "or" else (x,)):
            if y not in r:
                r.append(y)
    for y in r:
        if bnot1(y) in r:
            return TRUE
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    # factor a common conjunction prefix: (p&a)|(p&!a) -> p
    sets = [set(y.args) if y.op == "and" else {y} for y in r]
    common = set.intersection(*sets)
    if common:
        order = [a for a in (r[0].args if r[0].op == "and" else (r[0],)) if a in common]
        rest = [band(*[a for a in (y.args if y.op == "and" else (y,)) if a not in common]) for y in r]
        return band(*order, bor(*rest))
    # absorption: a | (!a & b) -> a | b
    changed = False
    for i, y in enumerate(r):
        if y.op == "and":
            keep = tuple(a for a in y.args if bnot1(a) not in r)
            if len(keep) != len(y.args):
                r[i] = band(*keep)
                changed = True
    if changed:
        return bor(*r)
    return B("or", tuple(r))


def bscmp(rel, a, b):
    return B("scmp", (rel, a, b))


# ------------------------------------------------------------------- scalars

_fresh = itertools.count()


def fresh(prefix="t"):
    return "%s!%d" % (prefix, next(_fresh))


class N:
    """Scalar node, hash-consed."""
    __slots__ = ("op", "args", "key", "id", "_free")
    table = {}

    def __new__(cls, op, args):
        k = (op,) + tuple(a.key if isinstance(a, (IP, B)) else (a.id if isinstance(a, (N, State)) else a) for a in args)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.op, o.args = op, args
            o.id = ("n", len(cls.table))
            o.key = "n%d" % len(cls.table)
            o._free = None
            cls.table[k] = o
        return o

    @property
    def free(self):
        if self._free is None:
            s = frozenset()
            for a in self.args:
                if isinstance(a, (N, IP, B, State)):
                    s |= a.free
                elif isinstance(a, tuple):
                    for x in a:
                        if isinstance(x, (N, IP, B, State)):
                            s |= x.free
                elif isinstance(a, Poly):
                    s |= a.free
            if self.op == "sum":
                s = (self.args[3].free - {self.args[0]}) | self.args[1].free | self.args[2].free
            elif self.op == "clo":
                inner = self.args[0].free
                env = dict(self.args[1])
                s = frozenset(x for x in inner if x not in env)
                for k2, v in self.args[1]:
                    if k2 in inner:
                        s |= v.free
            self._free = s
        return self._free

    def __repr__(self):
        return "%s%r" % (self.op, self.args)


class NT(tuple):
    """tuple argument with a key usable in N's table"""


def q(x):
    return N("q", (Fraction(x),))




def nsym(name, real=False):
    return N("sym", (name, real))


def nadd(*a):
    a = [x for x in a if x is not NZERO]
    if not a:
        return NZERO
    if len(a) == 1:
        return a[0]
    return N("add", tuple(a))


def nmul(*a):
    if any(x is NZERO for x in a):
        return NZERO
    a = [x for x in a if x is not NONE_]
    if not a:
        return NONE_
    if len(a) == 1:
        return a[0]
    return N("mul", tuple(a))


def nneg(a):
    return nmul(q(-1), a)


def nsub(a, b):
    return nadd(a, nneg(b))


def nconj(a):
    if a.op == "conj":
        return a.args[0]
    if a.op == "q":
        return a
    return N("conj", (a,))


def ninv(a):
    return N("inv", (a,))


def ndiv(a, b):
    return nmul(a, ninv(b))


def nite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return N("ite", (c, a, b))


def nsum(lo, hi, f):
    """f: IP -> N"""
    v = fresh("s")
    return N("sum", (v, ip(lo), ip(hi), f(IP.sym(v))))


def nread(state, i, j=ZERO):
    return N("rd", (state, ip(i), ip(j)))


def nreal(x):
    return nmul(q(Fraction(1, 2)), nadd(x, nconj(x)))


def closure(n, env):
    """n with integer symbols substituted (lazily)."""
    env = {k: v for k, v in env.items() if k in n.free}
    if not env:
        return n
    if n.op == "clo":
        inner = {k: v.subst(env) for k, v in n.args[1]}
        for k, v in env.items():
            if k not in inner:
                inner[k] = v
        return _mkclo(n.args[0], inner)
    return _mkclo(n, env)


_clo_table = {}


def _mkclo(n, env):
    items = tuple(sorted(env.items()))
    k = (n.id, tuple((a, b.key) for a, b in items))
    r = _clo_table.get(k)
    if r is None:
        r = _raw_clo(n, items)
        _clo_table[k] = r
    return r


def _raw_clo(n, items):
    o = object.__new__(N)
    o.op, o.args = "clo", (n, items)
    o.id = ("n", "c%d" % len(_clo_table))
    o.key = "nc%d" % len(_clo_table)
    o._free = None
    return o


# -------------------------------------------------------------- array states


class State:
    """Array state: a total map from (i,j) to scalars, as a chain.
    ops: 'base' (Base,), 'upd' (prev, vi, vj, cond, val), 'ite' (cond, a, b)"""
    __slots__ = ("op", "args", "id", "key", "_free", "array")
    count = itertools.count()
    table = {}

    def __new__(cls, op, args, array):
        k = (op, array.name) + tuple(a.key if hasattr(a, "key") else a for a in args)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.op, o.args, o.array = op, args, array
            o.id = ("S", next(cls.count))
            o.key = "S%d" % o.id[1]
            o._free = None
            cls.table[k] = o
        return o

    @property
    def free(self):
        if self._free is None:
            if self.op == "base":
                s = frozenset(self.args[0].params)
            elif self.op == "upd":
                prev, vi, vj, cond, val = self.args
                s = prev.free | ((cond.free | val.free) - {vi, vj})
            elif self.op == "ite":
                s = self.args[0].free | self.args[1].free | self.args[2].free
            self._free = s
        return self._free


NZERO = q(0)
NONE_ = q(1)


class Base:
    """A symbolic array.  params: extra integer symbols (enclosing iteration
    counters) the array's contents depend on.  interp: None (opaque) or a
    function (i, j, params) -> N giving its meaning."""
    __slots__ = ("name", "real", "params", "interp", "unfold", "key", "kind", "opaque_ok")
    count = itertools.count()

    def __init__(self, name, real=False, params=(), kind="input"):
        self.name = name
        self.real = real
        self.params = tuple(params)
        self.interp = None
        self.unfold = None
        self.kind = kind
        self.key = "%s#%d" % (name, next(Base.count))


def base_state(b, array):
    return State("base", (b,), array)


def upd(prev, cond_f, val_f):
    vi, vj = fresh("u"), fresh("u")
    I, J = IP.sym(vi), IP.sym(vj)
    c = cond_f(I, J)
    if c is FALSE:
        return prev
    return State("upd", (prev, vi, vj, c, val_f(I, J)), prev.array)


def sta_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return State("ite", (c, a, b), a.array)


# -------------------------------------------------------------- normal forms


class Atom:
    """Atom of a normal-form polynomial, interned by key.
    kinds:
     'I'                     imaginary unit
     'sym'  (name, real, conj)
     'arr'  (Base, idx tuple of IP, conj)
     'P'    (Mono body with bound symbol '@d', d, IP e)
     'inv'  (Poly,)
     'app'  (f, Polys..., )
     'int'  (symbolname,)    integer symbol used as a scalar
     'ite'  (Bkey/B, Poly, Poly)
    """
    __slots__ = ("kind", "args", "key", "_free", "depth", "real")
    table = {}

    def __new__(cls, kind, args, depth=0, real=False):
        key = kind + "{" + ",".join(_argkey(a) for a in args) + "}"
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args, o.key, o._free, o.depth, o.real = kind, args, key, None, depth, real
            cls.table[key] = o
        return o

    @property
    def free(self):
        if self._free is None:
            s = set()
            k = self.kind
            if k == "arr":
                for x in self.args[1]:
                    s |= x.free
            elif k == "P":
                s |= mono_free(self.args[0])
                s.discard("@%d" % self.args[1])
                s |= self.args[2].free
            elif k in ("inv", "app", "ite"):
                for x in self.args:
                    if hasattr(x, "free"):
                        s |= x.free
            elif k == "int":
                s.add(self.args[0])
            self._free = frozenset(s)
        return self._free

    def __repr__(self):
        return self.key


def _argkey(a):
    if isinstance(a, str):
        return a
    if hasattr(a, "key"):
        return a.key
    if isinstance(a, tuple):
        if a and isinstance(a[0], tuple):
            return mono_key(a)
        return "(" + ",".join(_argkey(x) for x in a) + ")"
    return str(a)


def mono_key(m):
    return ".".join(a.key if e == 1 else "%s^%d" % (a.key, e) for a, e in m)


def mono_free(m):
    s = set()
    for a, _ in m:
        s |= a.free
    return s


def mono_depth(m):
    return max([a.depth for a, _ in m], default=0)


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        n = d.get(a, 0) + e
        d[a] = n
    sign = 1
    r = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "I":
            e4 = e % 4
            if e4 >= 2:
                sign = -sign
            if e4 % 2:
                r.append((a, 1))
            continue
        r.append((a, e))
    r.sort(key=lambda ae: ae[0].key)
    return tuple(r), sign


class Poly:
    __slots__ = ("t", "_key", "_free")

    def __init__(self, d):
        self.t = d
        self._key = None
        self._free = None

    @property
    def key(self):
        if self._key is None:
            self._key = "{" + " + ".join(sorted("%s*%s" % (c, mono_key(m)) for m, c in self.t.items())) + "}"
        return self._key

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                s |= mono_free(m)
            self._free = frozenset(s)
        return self._free

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return Poly(d)

    def scale(self, c):
        if c == 0:
            return PZERO
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, s = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2 * s
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return Poly(d)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def depth(self):
        return max([mono_depth(m) for m in self.t], default=0)

    def __repr__(self):
        return self.key


PZERO = Poly({})


def pconst(c):
    c = Fraction(c)
    return Poly({(): c}) if c != 0 else PZERO


PONE = pconst(1)


def patom(a, e=1):
    return Poly({((a, e),): Fraction(1)})


A_I = Atom("I", ())
