"""Proof tasks: a wrapper instantiating one real template, a contract, and the
obligations that the verifier must discharge for it."""
import time
import traceback
from symex import *
import symex as SX
import ir as IRM


class Env:
    calls = ()

    def call(self, fn):
        """environments of the calls of fn made on this path, in order"""
        return [c for c in self.calls if c.task.fn == fn]


def data_branches(module, fname):
    """comparisons of values that derive from array elements (flow-insensitive
    taint over the SSA form); used when the executor cannot follow the code."""
    f = next(f for k, f in module.funcs.items() if k.strip('@"') == fname)
    insts = [I for b in f.blocks.values() for I in b.insts]
    tainted = set()

    def ops(I):
        if I.op == "phi":
            return [x for x, _ in I.args]
        return [x[1] if isinstance(x, tuple) else x for x in I.args]
    hits = set()
    while True:
        n = len(tainted)
        for I in insts:
            if I.op == "call":
                name = I.extra.strip('@"')
                if name == "v_at":
                    tainted.add(I.res)
                elif name in ("v_eq", "v_lt", "v_le", "v_isnan", "v_isinf"):
                    if any(x in tainted for x in ops(I)):
                        hits.add(I.res)
                elif name.startswith("v_") and I.res and any(x in tainted for x in ops(I)):
                    tainted.add(I.res)
                elif "memcpy" in name and ops(I)[1] in tainted:
                    tainted.add(ops(I)[0])
            elif I.op == "store":
                if I.args[0] in tainted:
                    tainted.add(I.args[1])
            elif I.res and I.op != "alloca" and any(x in tainted for x in ops(I)):
                tainted.add(I.res)
        if len(tainted) == n:
            return len(hits)


def disjuncts(pc):
    """the paths that were joined in a path condition"""
    xs = pc.args if pc.op == "and" else (pc,)
    for k, x in enumerate(xs):
        if x.op == "or" and len(x.args) <= 8:
            return [d for y in x.args for d in disjuncts(band(*xs[:k], y, *xs[k + 1:]))]
    return [pc]


def decided(ctx, b):
    try:
        return ctx.decide(ctx.resolve(b, None)) is True
    except NeedSplit:
        return False


class SumEq:
    """lemma: an equation promised by the contract of a call made on this path,
    multiplied by mult and summed over the ranges (valid because the equation
    holds at every index of the ranges: checked)."""

    def __init__(self, v, call, idx, ranges=(), mult=None, which=0, conj=False):
        self.v, self.call, self.idx, self.ranges, self.mult, self.which, self.conj = v, call, idx, ranges, mult, which, conj

    def polys(self, E):
        ctx, c = E.ctx, self.call
        ks = [IP.sym(fresh("k")) for _ in self.ranges]
        def eq(ks):
            i, j = self.idx(*ks)
            pe = getattr(c, "posteq", None)
            if pe is None:
                return c.task.eqs(c, i, j)[self.which]
            a = sorted(pe)[self.which]
            return "result", c.views[a].inside(i, j), getattr(c, a + "1")(i, j), pe[a](i, j)
        ctx.push()
        try:
            for n, k in enumerate(ks):
                lo, hi = self.ranges[n](*ks[:n])
                ctx.assume(band(ble(lo, k), blt(k, hi)))
            dom = ctx.resolve(eq(ks)[1], None)
            if not ctx.infeasible() and ctx.decide(dom) is not True:
                if SX.DEBUG:
                    print("lemma domain not established", dom)
                return []
        finally:
            ctx.pop()

        def build(n, ks):
            if n == len(self.ranges):
                _, _, l, r = eq(ks)[:4]
                d = nconj(nsub(l, r)) if self.conj else nsub(l, r)
                return d if self.mult is None else nmul(self.mult(*ks), d)
            lo, hi = self.ranges[n](*ks)
            return nsum(lo, hi, lambda k: build(n + 1, ks + [k]))
        p = norm(build(0, []), None, ctx)
        return [p] if p.t else []


def raw_decode(how, D, ev):
    """offset (in elements) from a pointer argument -> element.
    how = ('cm', ld), ('rm', ld): matrix with leading dimension ld;
          ('v', inc), ('b', inc): vector with stride inc > 0, stored backward for 'b'."""
    kind = how[0]
    ld = ev(str(how[1]))

    def split(o):
        hi, lo = {}, {}
        for m, c in o.t:
            if m.count(s) == 1:
                r = list(m)
                r.remove(s)
                hi[tuple(r)] = c
            elif s in m:
                raise Unsupported("raw offset %r" % (o,))
            else:
                lo[m] = c
        return IP(hi), IP(lo)
    if not ld.is_const():
        (mono, c), = ld.t
        s, = mono
        assert c == 1

    def f(E, o):
        if any(not isinstance(a, str) for m, _ in o.t for a in m):
            o = E.ctx.canon(o)
        if ld.is_const():
            if kind in "vb" and ld.cval() == 1:
                hi, lo = o, ZERO
            else:
                raise Unsupported("raw layout")
        else:
            hi, lo = split(o)
        if kind == "cm":
            return lo, hi
        if kind == "rm":
            return hi, lo
        if lo.t:
            raise Unsupported("raw offset %r is not a multiple of the stride" % (o,))
        return (hi if kind == "v" else D[0] - 1 - hi), ZERO
    return f


class Task:
    """dims: names; scalars: [(name,'R'|'C')]; arrays: [(name,'M'|'V',(dims),'R'|'C')]
    code: C++ statement(s) over those names.  ret: None|'int'|'idx'|'H'|'b'
    pre(v): list of B; post: {array: fn(v,i,j)->N on in-range cells}
    eqs(v,i,j): list of (name, domain B, lhs N, rhs N)
    access/waccess: {array: fn(v,i,j)->B}
    retpost(v, r, i): list of (name, B) or N equalities"""

    def __init__(self, name, dims, scalars, arrays, code, **kw):
        self.name, self.dims, self.scalars, self.arrays, self.code = name, dims.split(), scalars, arrays, code
        self.ret = kw.pop("ret", None)
        self.pre = kw.pop("pre", None)
        self.post = kw.pop("post", {})
        self.eqs = kw.pop("eqs", None)
        self.access = kw.pop("access", {})
        self.waccess = kw.pop("waccess", {})
        self.retpost = kw.pop("retpost", None)
        self.expect_fail = kw.pop("expect_fail", False)
        self.ints = kw.pop("ints", "").split()      # extra int parameters
        self.contracts = kw.pop("contracts", None)
        self.fn = kw.pop("fn", name)                 # function(s) under contract
        self.nobranch = kw.pop("nobranch", False)
        self.hyps = kw.pop("hyps", None)
        self.inv = kw.pop("inv", None)
        self.back = kw.pop("back", None)             # back(v)(i,j): entry contents as a function of the result
        self.setup = kw.pop("setup", None)
        self.ghost = kw.pop("ghost", None)           # equations about the last compared scalar
        self.retval = kw.pop("retval", None)         # explicit scalar result
        self.measure = kw.pop("measure", None)       # variant of the recursion
        if self.retval is not None and self.retpost is None:
            self.retpost = lambda v, r, i: [("result", (r, self.retval(v)))]
        self.given = kw.pop("given", None)           # given(v,i,j): hypothesis for every i, j (about an arbitrary bound)
        self.assumed = kw.pop("assumed", None)       # contract decided by bounded evaluation only
        self.ipost = kw.pop("ipost", {})             # {integer array: fn(v,k) -> [(name, B)]} for every entry
        self.opaque = kw.pop("opaque", ())           # callees whose results are named, not substituted
        self.loops = kw.pop("loops", None)           # stated loop invariants, in order
        self.lemmas = kw.pop("lemmas", None)         # lemmas(v,i,j): consequences of callee contracts (Sum instances)
        self.defs = kw.pop("defs", "")               # extra C++ before the wrapper
        assert not kw, kw

    def wrong(self):
        """a known-wrong variant of this contract (the verifier must reject it)."""
        import copy
        c = copy.copy(self)
        c.cname = self.name
        c.name = self.name + "_wrong"
        if self.post:
            c.post = {a: (lambda f: lambda v, i, j: nadd(f(v, i, j), NONE_))(f) for a, f in self.post.items()}
        elif self.eqs is not None:
            f = self.eqs

            def eqs(v, i, j):
                if i is None:
                    return f(v, i, j)
                return [(n, d, l, nadd(r, NONE_), cs) for n, d, l, r, cs in f(v, i, j)]
            c.eqs = eqs
        elif self.retpost is not None:
            g = self.retpost
            c.retpost = lambda v, r, i: [(x[0], bnot(x[1]) if isinstance(x[1], B) else (nadd(x[1][0], NONE_), x[1][1])) for x in g(v, r, i)]
        else:
            return None
        return c

    def cpp(self):
        ps, body = [], []
        for d in self.dims:
            ps.append("idx " + d)
        for d in self.ints:
            ps.append("long " + d)
        for s, t in self.scalars:
            ps.append("H %s_h" % s)
            body.append("%s %s = %s(%s_h);" % ("VR" if t == "R" else "VC", s, "mk" if t == "R" else "mkc", s))
        for k, (a, kind, ds, t) in enumerate((x[:4] for x in self.arrays)):
            T = {"R": "VR", "C": "VC", "I": "idx"}[t]
            ps.append("long %s_b" % a)
            if kind == "P":
                body.append("%s* %s = static_cast<%s*>(v_raw(%s_b));" % (T, a, T, a))
            elif kind == "M":
                body.append("VMat<%s> %s{%s_b,0,0,idx(%s),idx(%s)};" % (T, a, a, ds[0], ds[1]))
            else:
                body.append("VVec<%s> %s{%s_b,0,0,1,0,idx(%s)};" % (T, a, a, ds[0]))
        rt = {None: "void", "int": "int", "idx": "idx", "H": "H", "b": "bool"}[self.ret]
        code = self.code
        return '%s\nextern "C" %s w_%s(%s){ %s %s }\n' % (self.defs, rt, self.name, ", ".join(ps), " ".join(body), code)

    # ----------------------------------------------------------------- run
    def run(self, module):
        t0 = time.time()
        z0, zt0 = Stats.z3_calls, Stats.z3_time
        Stats.used = set()
        res = {"task": self.name, "fn": self.fn, "status": "proved", "obs": [], "detail": "", "branches": 0}
        try:
            E = self.run_cases(module, res, ())
        except Unsupported as e:
            res["status"] = "unsupported"
            res["detail"] = str(e)[:1500]
        except ProofFail as e:
            res["status"] = "failed"
            res["raised"] = e.name.split("-")[0]
            res["detail"] = "%s: %s" % (e.name, e.detail[:1500])
        except NeedSplit as e:
            res["status"] = "unsupported"
            res["detail"] = "unresolved case split " + repr(e.cond)[:500]
        except RecursionError:
            res["status"] = "unsupported"
            res["detail"] = "recursion limit"
        E = self.E
        res["undecided"] = res["status"] == "unsupported"
        if res["status"] == "unsupported" and self.nobranch:
            try:
                n = data_branches(module, "w_" + self.name)
            except StopIteration:
                n = 0
            E.obs.append(Ob("no-data-branch", "no branch depends on an array element", n == 0, "%d comparisons of array elements (data-flow analysis)" % n, "syntactic"))
        bad = [o for o in E.obs if not o.ok]
        if bad:
            infer_bad = [o for o in bad if o.kind.startswith("invariant")]
            real_bad = [o for o in bad if not o.kind.startswith("invariant")]
            if real_bad:
                res["status"] = "failed"
                res["detail"] = "; ".join("%s [%s] %s" % (o.kind, o.name, o.detail[:600]) for o in real_bad[:4])
            elif res["status"] == "proved":
                res["status"] = "unsupported"
        res["obs"] = [(o.kind, o.name, o.ok, o.backend) for o in E.obs]
        res["nobs"] = len(E.obs)
        res["loops"] = E.loops_done
        res["branches"] = getattr(E, "scalar_branches", 0)
        res["divisors"] = sorted({a.kind for a in E.ctx.nonzero})
        res["wall"] = time.time() - t0
        res["used"] = sorted(Stats.used)
        res["z3_calls"] = Stats.z3_calls - z0
        res["z3_time"] = Stats.z3_time - zt0
        return res

    def run_cases(self, module, res, splits):
        """a case distinction that the executor needs on the entry values is
        made at the top: the whole task is redone for each case."""
        E = self.E = Exec(module, contracts=self.contracts)
        try:
            self._run(E, res, splits)
            return E
        except NeedSplit as e:
            # (ci, cj): the arbitrary entry that a task about a bound fixes at the start
            ok = set(self.dims) | set(self.ints) | ({"ci", "cj"} if self.given else set())
            if len(splits) >= 5 or not set(e.cond.free) <= ok:
                raise
            cond = e.cond
        E1 = self.run_cases(module, res, splits + (cond,))
        obs, n = E1.obs, E1.loops_done
        if any(not o.ok for o in obs):
            return E1
        E2 = self.run_cases(module, res, splits + (bnot(cond),))
        E2.obs = obs + E2.obs
        E2.loops_done += n
        E2.scalar_branches = max(E1.scalar_branches, E2.scalar_branches)
        E2.zero_muls = max(E1.zero_muls, E2.zero_muls)
        E2.ctx.nonzero |= E1.ctx.nonzero
        self.E = E2
        return E2

    def impossible(self, E, pre):
        E.ctx.push()
        try:
            for b in pre:
                E.ctx.assume(b)
            return E.ctx.infeasible()
        finally:
            E.ctx.pop()

    def _run(self, E, res, splits=()):
        v = Env()
        v.E = E
        v.ctx = E.ctx
        args = []
        pre = []
        for d in self.dims:
            s = IP.sym(d)
            setattr(v, d, s)
            pre.append(ble(ZERO, s))
            args.append(s)
        for d in self.ints:
            s = IP.sym(d)
            setattr(v, d, s)
            args.append(s)
        for s, t in self.scalars:
            n = nsym(s, t == "R")
            setattr(v, s, n)
            args.append(n)
        bids = {}
        for k, (a, kind, ds, t) in enumerate(x[:4] for x in self.arrays):
            E.add_array(k + 1, a, t == "R")
            if t == "I":
                E.arrays[k + 1].isint = True
                E.arrays[k + 1].entry = IFun(a)
            args.append(IP.const(k + 1))
            bids[a] = k + 1
        dimv = {}
        import ast

        def ev(e):
            return ip(eval(e, {d: getattr(v, d) for d in self.dims + self.ints}))
        indom = {}
        for a, kind, ds, t in (x[:4] for x in self.arrays):
            D = [ev(x) for x in ds]
            if kind == "V":
                D = [D[0], ONE]
            dimv[a] = D
            if kind == "P":
                if len(D) == 1:
                    D.append(ONE)
                E.arrays[bids[a]].shape = D
                E.arrays[bids[a]].how = next(x for x in self.arrays if x[0] == a)[4]
                E.arrays[bids[a]].ld = ev(str(E.arrays[bids[a]].how[1]))
                E.arrays[bids[a]].decode = raw_decode(next(x for x in self.arrays if x[0] == a)[4], D, ev)
            indom[a] = (lambda D: lambda i, j: band(ble(ZERO, i), blt(i, D[0]), ble(ZERO, j), blt(j, D[1])))(D)
            if t == "I":
                setattr(v, a, E.arrays[bids[a]].entry)
                continue
            A0 = base_state(E.arrays[bids[a]].base, E.arrays[bids[a]])
            setattr(v, a, (lambda st: lambda i, j=ZERO: nread(st, i, j))(A0))
            indom[a] = (lambda D: lambda i, j: band(ble(ZERO, i), blt(i, D[0]), ble(ZERO, j), blt(j, D[1])))(D)
            if a in self.access:
                E.arrays[bids[a]].access = (lambda f: lambda i, j: f(v, i, j))(self.access[a])
            if a in self.waccess:
                E.arrays[bids[a]].waccess = (lambda f: lambda i, j: f(v, i, j))(self.waccess[a])
        v.ci, v.cj = IP.sym("ci"), IP.sym("cj")
        if self.pre:
            pre += self.pre(v)
        pre += list(splits)
        if self.setup:
            self.setup(v, E)
        v.indom = indom
        E.v, E.task, E.loop_invs = v, self, self.loops
        if self.measure is not None:
            E.measure, E.self_fn = self.measure(v), self.fn
        exits = E.run("w_" + self.name, args, pre=pre, start=lambda: [g.prove(E, self) for g in getattr(v, "ghosts", [])])
        if not exits and splits and self.impossible(E, pre):
            return
        if not exits:
            raise Unsupported("no exit reached")
        # outputs, per exit path
        I, J = IP.sym("ci"), IP.sym("cj")
        covered = 0
        for ex in [(e[0], e[1], d) + tuple(e[3:]) for e in exits for d in disjuncts(e[2])]:
            pc, st = ex[2], ex[3]
            rv = ex[4] if len(ex) > 4 else None
            E.ctx.push()
            try:
                E.assume_pc(pc)
                if E.ctx.infeasible():
                    continue
                covered += 1
                for a, kind, ds, t in (x[:4] for x in self.arrays):
                    b = bids[a]
                    if t == "I":
                        setattr(v, a + "1", (lambda s: lambda k: s.read(E.ctx, ip(k)))(st.mem[("iarr", b)][0]))
                        continue
                    setattr(v, a + "1", (lambda s: lambda i, j=ZERO: nread(s, i, j))(st.arrays[b]))
                v.st = st
                v.ret = rv
                E.assume_axioms()
                v.calls = [c for c in st.mem.get(("calls",), ((), 0))[0] if decided(E.ctx, c.pc)]
                if self.lemmas is not None:
                    def hyp(ctx, i, j, st=st):
                        v.calls = [c for c in st.mem.get(("calls",), ((), 0))[0] if decided(ctx, c.pc)]
                        return [x for l in self.lemmas(v, i, j) for x in l.polys(E)]
                    E.hyps = [hyp]
                for a, kind, ds, t in (x[:4] for x in self.arrays):
                    if t == "I":
                        if a in self.ipost:
                            ck = IP.sym("ck")
                            E.ctx.push()
                            try:
                                E.ctx.assume(indom[a](ck, ZERO))
                                for h in E.ifact_hyps:
                                    for x in h(ck):
                                        E.ctx.assume(E.ctx.resolve(x, None))
                                for nm, g in self.ipost[a](v, ck):
                                    E.oblige("post", nm, g)
                            finally:
                                E.ctx.pop()
                        elif st.mem[("iarr", bids[a])][0].op != "f":
                            E.obs.append(Ob("frame", "%s unchanged" % a, False, "written", backend="syntactic"))
                        continue
                    if self.eqs is not None and a in getattr(self.eqs, "defines", ()):
                        continue
                    b = bids[a]
                    if a in self.post:
                        spec = nite(indom[a](I, J), self.post[a](v, I, J), getattr(v, a)(I, J))
                    elif self.eqs is not None and a in self.eqs(v, None, None):
                        # only out-of-range cells must be unchanged (bounds obligations)
                        continue
                    else:
                        spec = getattr(v, a)(I, J)
                        if st.arrays[b].op == "base":
                            E.obs.append(Ob("frame", "%s unchanged" % a, True, backend="syntactic"))
                            continue
                    self.goal(E, "post", a, nread(st.arrays[b], I, J), spec, [(I, J)], getattr(v, a)(I, J))
                if self.eqs is not None:
                    for nm, dom, lhs, rhs, cells, *_ in self.eqs(v, I, J):
                        E.ctx.push()
                        try:
                            E.ctx.assume(E.ctx.resolve(dom, None))
                            if E.ctx.infeasible():
                                if len(exits) > 1 or self.ret:
                                    continue
                                raise ProofFail("vacuous", nm)
                            self.goal(E, "post", nm, lhs, rhs, cells)
                        finally:
                            E.ctx.pop()
                if self.ghost is not None:
                    gh = st.mem.get(("ghost", "cmp"))
                    v.ghost = gh[0] if gh else nsym(fresh("nocmp"), True)
                    for nm, dom, lhs, rhs in self.ghost(v):
                        E.ctx.push()
                        try:
                            E.ctx.assume(E.ctx.resolve(dom, None))
                            if not E.ctx.infeasible():
                                self.goal(E, "post", nm, lhs, rhs, [])
                        finally:
                            E.ctx.pop()
                if self.retpost is not None:
                    for nm, g in self.retpost(v, rv, I):
                        if isinstance(g, B):
                            E.oblige("post", nm, g)
                        else:
                            self.goal(E, "post", nm, g[0], g[1], [(I, J)])
            finally:
                E.ctx.pop()
        if not covered and not splits:
            raise ProofFail("vacuous", "no feasible path")
        if self.nobranch:
            n = getattr(E, "scalar_branches", 0)
            E.obs.append(Ob("no-data-branch", "no branch depends on an array element", n == 0, "%d data-dependent branches" % n, "syntactic"))
            n = getattr(E, "zero_muls", 0)
            E.obs.append(Ob("no-zero-product", "no element is multiplied by a literal zero", n == 0, "%d" % n, "syntactic"))

    def goal(self, E, kind, nm, got, spec, cells, entry=None):
        ctx = E.ctx

        def g():
            sp = norm(spec, None, ctx)
            d = norm(got, None, ctx) - sp
            if d.t:
                d = E.close(d, cells)
            if d.t and entry is not None:
                # the contract says "unchanged" here: a frame violation
                if not (sp - norm(entry, None, ctx)).t:
                    frame.append(repr(d)[:300])
                    return PZERO
            return d
        g0 = g

        def g():
            d = g0()
            pend = [x for L in ctx.levels for x in L.pend]
            if not d.t or not pend:
                return d
            # path conditions that had no normal form before this case was fixed
            ctx.push()
            try:
                ctx.noraw = True
                for x in pend:
                    y = ctx.resolve(x, None)
                    ctx.assume(y)
                ctx.noraw = False
                return PZERO if ctx.infeasible() else g0()
            finally:
                ctx.noraw = False
                ctx.pop()
        frame = []
        rs = cases(ctx, g)
        bad = [(p, r) for p, r in rs if r.t]
        if frame:
            E.obs.append(Ob("frame", nm + " unchanged outside the documented region", False, "difference " + frame[0], "normaliser+z3"))
        E.obs.append(Ob(kind, "%s (%d cases)" % (nm, len(rs)), not bad,
                        "case %r: difference %s" % (bad[0][0], repr(bad[0][1])[:2000]) if bad else "", "normaliser+z3"))


HDR = '#include "vt.hpp"\n%s\nusing namespace vt; using namespace tlapack;\n'


def build(tasks, includes, workdir, name, keep=(), defines=()):
    src = HDR % "\n".join('#include "tlapack/%s"' % i for i in includes)
    seen = set()
    for t in tasks:
        if t.name in seen:
            raise AssertionError("duplicate task " + t.name)
        seen.add(t.name)
        src += t.cpp()
    return IRM.extract(src, workdir, name, keep=keep, defines=defines)
