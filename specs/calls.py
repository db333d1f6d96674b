"""Calls are checked against the callee's contract: the handler of a kept
callee binds the actual arguments to the *same* contract object that is proved
for the callee, generates its precondition / frame / separation obligations,
and replaces the written region by what the contract promises."""
import re
import subprocess
from task import *
import norm as NM

ENUM = {"Side": {76: "L", 82: "R"}, "Uplo": {76: "L", 85: "U", 71: "G"},
        "Op": {78: "N", 84: "T", 67: "C", 3: "J"}, "Diag": {78: "N", 85: "U"},
        "Direction": {70: "F", 66: "B"}, "StoreV": {67: "C", 82: "R"}}
EMPTY = {"UpperTriangle": "U", "LowerTriangle": "L", "GeneralAccess": "G", "NoTranspose": "N", "Transpose": "T", "ConjTranspose": "C",
         "Conjugate": "J", "LeftSide": "L", "RightSide": "R", "NonUnitDiagonal": "N", "UnitDiagonal": "U",
         "Forward": "F", "Backward": "B", "ColumnwiseStorage": "C", "RowwiseStorage": "R"}
_sig = {}


def signature(sym):
    """parameter types of a mangled function."""
    if sym not in _sig:
        s = subprocess.run(["llvm-cxxfilt-18", sym], stdout=subprocess.PIPE, text=True).stdout.strip()
        # last top-level parenthesis group
        depth, end = 0, len(s) - 1
        while s[end] != ")":
            end -= 1
        k = end
        while True:
            if s[k] == ")":
                depth += 1
            elif s[k] == "(":
                depth -= 1
                if depth == 0:
                    break
            k -= 1
        _sig[sym] = IRM.split_top(s[k + 1:end].replace("> >", ">>"))
    return _sig[sym]


class View:
    """matrix (dr=dc=None) or vector view of a storage object"""
    __slots__ = ("b", "r", "c", "m", "n", "dr", "dc", "real")

    def cell(self, i, j):
        if self.dr is None:
            return self.r + i, self.c + j
        return self.r + self.dr * i, self.c + self.dc * i

    def has(self, I, J):
        """storage cell (I,J) belongs to the view"""
        if self.dr is None:
            return band(ble(self.r, I), blt(I, self.r + self.m), ble(self.c, J), blt(J, self.c + self.n))
        if self.dr == ONE and self.dc == ZERO:
            return band(ble(self.r, I), blt(I, self.r + self.m), beq(J, self.c))
        if self.dr == ZERO and self.dc == ONE:
            return band(ble(self.c, J), blt(J, self.c + self.m), beq(I, self.r))
        if self.dr == ONE and self.dc == ONE:
            return band(ble(self.r, I), blt(I, self.r + self.m), beq(J - self.c, I - self.r))
        raise Unsupported("vector direction")

    def inside(self, i, j):
        return band(ble(ZERO, i), blt(i, self.m), ble(ZERO, j), blt(j, self.n))

    def local(self, I, J):
        if self.dr is None:
            return I - self.r, J - self.c
        if self.dr == ZERO:
            return J - self.c, ZERO
        return I - self.r, ZERO

    def rect(self):
        if self.dr is None:
            return self.r, self.r + self.m, self.c, self.c + self.n
        return self.r, self.r + self.dr * (self.m - 1) + 1, self.c, self.c + self.dc * (self.m - 1) + 1

    def empty(self):
        if self.dr is None:
            return bor(ble(self.m, ZERO), ble(self.n, ZERO))
        return ble(self.m, ZERO)


def decode(E, st, p, ty):
    if p[0] != "al":
        raise Unsupported("view passed as %r" % (p,))
    vec = "VVec" in ty
    v = View()
    f = []
    for k in range(6 if vec else 5):
        x = st.mem.get((p[1], p[2] + 8 * k))
        if x is None or not isinstance(x[0], IP):
            raise Unsupported("view field not known")
        f.append(E.ctx.canon(x[0], True))
    if not f[0].is_const():
        raise Unsupported("symbolic base")
    v.b = f[0].cval()
    v.real = "VR>" in ty
    if vec:
        v.r, v.c, v.dr, v.dc, v.m = f[1:]
        v.n = ONE
    else:
        v.r, v.c, v.m, v.n = f[1:]
        v.dr = v.dc = None
    return v


def args_of(E, sym, A, I, st):
    """actual arguments: list of (kind, value): ('e',char) enum, ('v',View), ('s',N), ('i',IP), ('o',ptr)"""
    r = []
    k = 0
    # drop sret / attributes are handled by the parser
    for ty in signature(sym):
        base = ty.replace(" const", "").replace("const ", "").strip()
        ref = base.endswith("&")
        core = base.rstrip("& ").strip()
        m = re.match(r"tlapack::internal::(\w+)$", core)
        if m and m.group(1) in EMPTY:
            if ref:
                k += 1
            r.append(("e", EMPTY[m.group(1)]))
            continue
        if core == "tlapack::StrongZero":
            if ref:
                k += 1
            r.append(("z", None))
            continue
        if k >= len(A):
            raise Unsupported("argument count of " + sym)
        a = A[k]
        k += 1
        m = re.match(r"tlapack::(\w+)$", core)
        if m and m.group(1) in ENUM:
            if ref:
                a = E.load("i8", a, st)
            if not (isinstance(a, IP) and a.is_const()):
                raise Unsupported("symbolic flag")
            r.append(("e", ENUM[m.group(1)].get(a.cval(), "?")))
        elif core.startswith(("vt::VMat", "vt::VVec")):
            r.append(("v", decode(E, st, a, core)))
        elif core in ("vt::VR", "vt::VC") or core.startswith("tlapack::traits::entry_type_trait<"):
            if isinstance(a, tuple):
                if ref and "const" not in ty:
                    r.append(("r", a))
                    continue
                a = E.load("ptr", a, st)
            r.append(("s", E.sc(a)))
        elif re.match(r"(unsigned )?(int|long|short|char)$", core):
            if isinstance(a, tuple):
                a = E.load("i64", a, st)
            r.append(("i", a))
        else:
            r.append(("o", a))
    return r


def rd(st, v):
    s = st.arrays[v.b]
    if v.dr is None:
        return lambda i, j=ZERO: nread(s, ip(i) + v.r, ip(j) + v.c)
    return lambda i, j=ZERO: nread(s, v.r + v.dr * ip(i), v.c + v.dc * ip(i))


def region_ob(E, v, reg, kind):
    """the region of the view that the callee may touch is one that the caller's
    own contract allows it to touch."""
    a = E.arrays[v.b]
    fn = a.access if kind == "read" else a.waccess
    if fn is None:
        return
    ctx = E.ctx
    i, j = IP.sym(fresh("i")), (IP.sym(fresh("j")) if v.dr is None else ZERO)
    ctx.push()
    try:
        ctx.assume(band(ble(ZERO, i), blt(i, v.m)))
        if v.dr is None:
            ctx.assume(band(ble(ZERO, j), blt(j, v.n)))
        if reg is not None:
            ctx.assume(ctx.resolve(reg(i, j), None))
        if not ctx.infeasible():
            E.oblige("frame-" + kind, "%s by callee of %s only inside the documented region" % (kind, a.name), fn(*v.cell(i, j)))
    finally:
        ctx.pop()


def disjoint(E, what, v, w, regv=None, regw=None):
    if v.b != w.b:
        return
    ctx = E.ctx
    r1, R1, c1, C1 = v.rect()
    r2, R2, c2, C2 = w.rect()
    b = bor(v.empty(), w.empty(), ble(R1, r2), ble(R2, r1), ble(C1, c2), ble(C2, c1))
    if E.ctx.decide(b) is True or (regv is None and regw is None):
        E.oblige("separation", what, b)
        return
    # element-wise
    i, j, k, l = [IP.sym(fresh(x)) for x in "ijkl"]
    ctx.push()
    try:
        for vv, ii, jj, rg in ((v, i, j, regv), (w, k, l, regw)):
            ctx.assume(band(ble(ZERO, ii), blt(ii, vv.m)))
            if vv.dr is None:
                ctx.assume(band(ble(ZERO, jj), blt(jj, vv.n)))
            if rg is not None:
                ctx.assume(ctx.resolve(rg(ii, jj), None))
        a, b_ = v.cell(i, j)
        c, d = w.cell(k, l)
        E.oblige("separation", what, bnot(band(beq(a, c), beq(b_, d))))
    finally:
        ctx.pop()


def apply_contract(E, T, st, bind_scalars, views, where, ints=None):
    """use contract T (a Task) at a call."""
    ctx = E.ctx
    NM.Stats.used.add((T.fn, T.name, T.assumed or ""))
    v = Env()
    v.E, v.ctx = E, ctx
    dimnames = T.dims
    dims = {}
    for a, kind, ds, t in T.arrays:
        w = views[a]
        for d, x in zip(ds, (w.m, w.n)):
            if d in dimnames and d not in dims:
                dims[d] = x
    for d in (ints or {}):
        dims.setdefault(d, ints[d])
    for d in dimnames + T.ints:
        if d not in dims:
            raise Unsupported("dimension %s of %s not bound" % (d, T.name))
        setattr(v, d, dims[d])
    for a, kind, ds, t in T.arrays:
        w = views[a]
        for d, x in zip(ds, (w.m, w.n)):
            y = ip(eval(d, dict(dims)))
            if y is not x:
                E.oblige("precondition", "dimensions agree in call of " + where, beq(x, y))
    for s, t in T.scalars:
        setattr(v, s, bind_scalars[s])
    for a, kind, ds, t in T.arrays:
        setattr(v, a, rd(st, views[a]))
    if T.pre:
        for b in T.pre(v):
            E.oblige("precondition", "precondition of " + where, b)
    outs = [a for a, *_ in T.arrays if a in T.post or (T.eqs is not None and a in T.eqs(v, None, None))]
    acc, wacc = {}, {}
    for a, *_ in T.arrays:
        acc[a] = (lambda f: lambda i, j: f(v, i, j))(T.access[a]) if a in T.access else None
        wacc[a] = (lambda f: lambda i, j: f(v, i, j))(T.waccess[a]) if a in T.waccess else acc[a]
        region_ob(E, views[a], acc[a], "read")
        if a in outs:
            region_ob(E, views[a], wacc[a], "write")
    for a in outs:
        for b, *_ in T.arrays:
            if a != b and not (b in outs and b < a):
                disjoint(E, "arguments %s and %s of %s do not overlap" % (a, b, where), views[a], views[b], wacc[a], acc[b])
    new = {}
    params = tuple(E.loopstack)
    old = {a: st.arrays[views[a].b] for a in outs}
    fresh_bases = {}
    ret = None
    if T.ret in ("int", "idx"):
        ret = N_ret(E, params)
        v.ret = ret
    if T.ghost:
        gb = Base("piv", True, params, "callee")
        g = N("arr", (gb, 0, ZERO, ZERO) + tuple(IP.sym(s) for s in params))
        st.mem[("ghost", "cmp")] = (g, 0)
        v.ghost = g
    opaque = T.fn in getattr(getattr(E, "task", None), "opaque", ())
    if opaque:
        ent = Env()
        ent.__dict__.update(v.__dict__)
        v.posteq = {a: (lambda f: lambda i, j: f(ent, i, j))(T.post[a]) for a in outs if a in T.post}
    for a in outs:
        w = views[a]
        if a in T.post and not opaque:
            continue
        X = Base("X_" + where + "_" + a, E.arrays[w.b].real, params, "callee")
        fresh_bases[a] = X
        setattr(v, a + "1", (lambda X, w: lambda i, j=ZERO: N("arr", (X, 0) + tuple(w.cell(ip(i), ip(j))) + tuple(IP.sym(s) for s in params)))(X, w))
    for a in outs:
        w = views[a]

        def cond(I, J, w=w, reg=wacc[a]):
            c = w.has(I, J)
            return c if reg is None else band(c, reg(*w.local(I, J)))
        if a in T.post and not opaque:
            def val(I, J, w=w, f=T.post[a]):
                return f(v, *w.local(I, J))
        else:
            def val(I, J, X=fresh_bases[a]):
                return N("arr", (X, 0, I, J) + tuple(IP.sym(s) for s in params))
        st.arrays[w.b] = upd(st.arrays[w.b], cond, val)
    for a, X in fresh_bases.items():
        X.unfold = unfolder(E, T, v, a, views[a], params)
    if T.back is not None:
        for a, X in fresh_bases.items():
            back_substitute(E, T, v, a, views[a], old[a], params)
    if T.ghost:
        gb.unfold = ghost_unfolder(E, T, v, params)
    if T.retpost is not None and ret is not None:
        for nm, b in T.retpost(v, ret, None):
            if isinstance(b, B):
                E.axioms.append(b)
                try:
                    E.ctx.assume(E.ctx.resolve(b, None))
                except NeedSplit:
                    pass
    v.task, v.pc, v.views = T, E.call_pc, views
    old_calls = st.mem.get(("calls",), ((), 0))[0]
    st.mem[("calls",)] = (old_calls + (v,), 0)
    if T.retval is not None:
        return T.retval(v)
    return ret


def N_ret(E, params):
    s = IP.sym(fresh("ret"))
    if params:
        raise Unsupported("integer result of a call inside a loop")
    return s


def equations(T, v, i, j, a=None):
    """what the contract promises about the result, as equations"""
    pe = getattr(v, "posteq", None)
    if pe is None:
        return T.eqs(v, i, j)
    return [("result", TRUE, getattr(v, x + "1")(i, j), f(i, j)) for x, f in pe.items() if a in (None, x)]


def unfolder(E, T, v, a, w, params):
    def unf(ctx, I, J, *ps):
        env = dict(zip(params, ps))
        i, j = w.local(I, J)
        r = []
        dom0 = w.has(I, J)
        for eq in equations(T, v, i, j, a):
            nm, dom, lhs, rhs = eq[:4]
            if len(eq) > 5 and eq[5] != a:
                continue
            d = band(dom0, dom)
            d = closure_b(d, env)
            x = try_truth(E, ctx, d)
            if x is None:
                return None
            if not x:
                continue
            p = norm(nsub(lhs, rhs), env, ctx)
            if p.t:
                r.append(p)
        return r
    return unf


def back_substitute(E, T, v, a, w, old, params):
    """the callee promises  old(i,j) = back(new)(i,j):  if the old contents are
    an opaque array, that is what they are from now on."""
    ctx = E.ctx
    if params:
        return
    f = T.back(v)
    if f is None:
        return
    i, j = IP.sym(fresh("i")), (IP.sym(fresh("j")) if w.dr is None else ZERO)
    ctx.push()
    try:
        ctx.assume(band(ble(ZERO, i), blt(i, w.m)))
        if w.dr is None:
            ctx.assume(band(ble(ZERO, j), blt(j, w.n)))
        cell = w.cell(i, j)
        p = norm(nread(old, *cell), None, ctx)
    except NeedSplit:
        return
    finally:
        ctx.pop()
    if len(p.t) != 1:
        return
    (m, c), = p.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "arr":
        return
    at = m[0][0]
    Y, idx = at.args[0], at.args[1]
    if Y.kind != "callee" or Y.interp is not None or at.args[2] or idx[0] != cell[0] or idx[1] != cell[1]:
        return

    def interp(ctx, I, J, *ps):
        if ctx.truth(w.has(I, J)):
            li, lj = w.local(I, J)
            return norm(f(li, lj), None, ctx)
        return patom(Atom("arr", (Y, (I, J) + ps, 0), real=Y.real))
    Y.interp = interp
    for L in ctx.levels:
        L.memo.clear()
    if Y.unfold is not None:
        E.hyps.append(lambda ctx, I, J: Y.unfold(ctx, I, J) or [])


def ghost_unfolder(E, T, v, params):
    def unf(ctx, I, J, *ps):
        env = dict(zip(params, ps))
        r = []
        for nm, dom, lhs, rhs in T.ghost(v):
            x = try_truth(E, ctx, closure_b(dom, env))
            if x is None:
                return None
            if x:
                r.append(norm(nsub(lhs, rhs), env, ctx))
        return r
    return unf


def closure_b(b, env):
    return b.subst(env) if env else b


def try_truth(E, ctx, b):
    if getattr(E, "hyp_split", False):
        return ctx.truth(b)
    try:
        return ctx.decide(ctx.resolve(b, None))
    except NeedSplit:
        return None


# ------------------------------------------------------------------ registry
class Callee:
    def __init__(self, roles, pick, tasks):
        self.roles, self.pick, self.tasks = roles, pick, tasks
        self.map = None

    def task(self, name):
        if self.map is None:
            self.map = {}
            for g in self.tasks:
                for t in g():
                    self.map[t.name] = t
        if name not in self.map:
            raise Unsupported("no contract " + name)
        return self.map[name]

    def __call__(self, E, sym, A, I, pc, st):
        args = args_of(E, sym, A, I, st)
        E.call_pc = pc
        fn = IRM.tl_name(sym)
        roles = self.roles(args) if callable(self.roles) else self.roles
        flags, scal, views, ints, back, room = [], {}, {}, {}, [], []
        for r, (k, x) in zip(roles, args):
            off = 0
            if callable(r):   # a workspace: what the callee needs of it
                room.append((r, x if k == "v" else None))
                continue
            if "@" in r:
                r, off = r.split("@")[0], int(r.split("@")[1])
            if k == "r" and not r.startswith("&"):
                k, x = "s", E.sc(E.load("ptr", x, st))
            if r.startswith("&"):
                if k != "r":
                    raise Unsupported("reference argument of " + fn + " " + repr(signature(sym))[:400])
                views[r[1:]], p = cellview(E, x, st), x
                if x[0] == "al":
                    back.append((x, views[r[1:]]))
            elif r == "f":
                if k != "e":
                    raise Unsupported("flag of " + fn)
                flags.append(x)
            elif r == "_":
                pass
            elif k == "z":
                flags.append("z")
            elif r.startswith("o:"):
                # options object: its first field
                if k == "o" and isinstance(x, tuple):
                    x = E.load("i64", (x[0], x[1], x[2] + off), st)
                if not isinstance(x, IP):
                    raise Unsupported("options of " + fn)
                ints[r[2:]] = x
            elif k == "s":
                scal[r] = x
            elif k == "v":
                views[r] = x
            elif k == "i":
                ints[r] = x
            else:
                raise Unsupported("argument %s of %s" % (r, fn))
        T = self.task(self.pick(flags, len(args), views))
        for need, w in room:
            # the workspace argument has room for what the callee is proved to need
            if w is None:
                raise Unsupported("workspace of " + fn)
            E.oblige("precondition", "room in the workspace of " + fn, ble(need(views), w.m * w.n))
        ret = apply_contract(E, T, st, scal, views, fn, ints)
        for x, w in back:
            E.store("ptr", nread(st.arrays[w.b], ZERO, ZERO), x, st)
        return ret


def cellview(E, p, st):
    """a scalar passed by reference, as a one-element vector"""
    v = View()
    v.m = v.n = v.dr = ONE
    v.dc = ZERO
    v.real = False
    if p[0] == "el":
        v.b, v.r, v.c = p[1], p[2], p[3]
    elif p[0] == "al":
        v.b, v.r, v.c = 1000 + len(E.arrays), ZERO, ZERO
        E.add_array(v.b, "ref%d" % v.b, local=True)
        x = E.load("ptr", p, st)
        st.arrays[v.b] = base_state(E.arrays[v.b].base, E.arrays[v.b])
        if isinstance(x, N):
            st.arrays[v.b] = upd(st.arrays[v.b], lambda i, j: TRUE, lambda i, j: x)
    else:
        raise Unsupported("scalar reference %r" % (p,))
    return v


def recursive(roles, pick, tasks, measure):
    """contract of the function being proved, used for its recursive calls:
    the measure must decrease."""
    c = Callee(roles, pick, tasks)

    def h(E, sym, A, I, pc, st):
        args = args_of(E, sym, A, I, st)
        views = {r: x for r, (k, x) in zip(roles, args) if k == "v" and isinstance(r, str)}
        if getattr(E, "measure", None) is not None and IRM.tl_name(sym) == getattr(E, "self_fn", None):
            mu = measure(views)
            E.oblige("termination", "recursion on a strictly smaller problem", band(ble(ZERO, mu), blt(mu, E.measure)))
        return c(E, sym, A, I, pc, st)
    return h
