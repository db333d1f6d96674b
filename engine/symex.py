"""Symbolic execution of the extracted IR with inferred, then proved, loop invariants."""
import re
import struct
from norm import *
import ir as IRM


class ProofFail(Exception):
    def __init__(self, name, detail=""):
        self.name, self.detail = name, detail


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Array:
    """A storage object (matrix/vector argument or workspace)."""

    def __init__(self, name, real=False, local=False):
        self.name = name
        self.real = real
        self.local = local
        self.isint = False
        self.base = Base(name + "0", real)
        self.access = None       # optional fn(i,j)->B : cells that may be read
        self.waccess = None      # optional fn(i,j)->B : cells that may be written


class St:
    __slots__ = ("arrays", "mem")

    def __init__(self, arrays, mem):
        self.arrays, self.mem = arrays, mem

    def copy(self):
        return St(dict(self.arrays), dict(self.mem))


class Ob:
    """one proof obligation"""
    __slots__ = ("kind", "name", "ok", "detail", "backend")

    def __init__(self, kind, name, ok, detail="", backend="z3"):
        self.kind, self.name, self.ok, self.detail, self.backend = kind, name, ok, detail, backend


class LoopInfo:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.latches = []


def dominators(f):
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(f.blocks[b].succ))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    return rpo, idx, idom


def find_loops(f):
    rpo, idx, idom = dominators(f)
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            x = b
            while True:
                if x == s:
                    L = loops.setdefault(s, LoopInfo(s))
                    L.latches.append(b)
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in L.blocks:
                            L.blocks.add(y)
                            st.extend(p for p in f.blocks[y].pred if p in idx)
                    break
                if idom[x] == x:
                    break
                x = idom[x]
    for b in rpo:
        for s in f.blocks[b].succ:
            if idx[s] <= idx[b] and s not in loops:
                raise Unsupported("irreducible control flow")
    for L in loops.values():
        cands = [M for M in loops.values() if M is not L and L.header in M.blocks]
        if cands:
            L.parent = min(cands, key=lambda M: len(M.blocks))
    return rpo, idx, loops


class Seg:
    __slots__ = ("guard", "lo", "hi", "kind", "poly", "single", "path", "own")


class HBase(Base):
    """array contents at the start of iteration k of a loop."""
    __slots__ = ("loop", "arr", "segs", "s0", "recursive", "fin", "ci", "cj", "k", "outer", "K", "explicit")


MAXDEPTH = 24
import os
DEBUG = bool(os.environ.get('VDEBUG'))


class LoopInv:
    """stated invariant of an outermost loop.
    facts(v, *ts): conditions on the loop's integer variables
    posts: {array: fn(v, ts, i, j) -> N} contents at the start of an iteration
    eqs(v, ts, i, j): equations about the contents v.<A>t, arrays: names they define
    scal(v, ts, ss): [(name, variable, value)]"""

    def __init__(self, facts=None, posts=None, eqs=None, arrays=(), scal=None, nints=1, nscal=0, variant=None, bysteps=False,
                 icells=None, iposts=None, ifacts=None, each=None, skolem=None, ghosts=None, split=None, inst=None, keep=False, doms=None, sinit=None):
        self.sinit = sinit          # (v) -> values the scalar loop variables start with (None: any), which fixes their order
        self.doms = doms or {}      # cells of a local array that a contents clause is about
        self.keep = keep            # the body leaves local arrays alone (checked)
        self.split = split          # (v, ts) -> conditions on which the iteration is case-split
        self.inst = inst            # (v, ts) -> [(i, j)]: instances of the task's universally quantified hypothesis
        self.facts, self.posts, self.eqs, self.arrays, self.scal = facts, posts or {}, eqs, tuple(arrays), scal
        self.nints, self.nscal, self.variant = nints, nscal, variant
        self.icells = icells        # (v, ts) -> [(int array, index)]: cells the loop changes, known by the facts about v.ival[array]
        self.iposts = iposts or {}  # {int array: fn(v, ts, k) -> IP}
        self.ifacts = ifacts        # (v, ts, k) -> [B]: facts about the entries of integer arrays, for every k
        self.ghosts = ghosts        # (v) -> recursively defined specification functions
        self.each = each            # (v, ts, i, j) -> equations established by every iteration about the values it defines
        self.skolem = skolem        # (v, ts) -> [(Skolem, value)]: names for values chosen by an iteration
        self.bysteps = bysteps      # stated over the number of completed iterations, whatever the loop variable is


class Exec:
    def __init__(self, module, contracts=None, label=""):
        self.mod = module
        self.ctx = Ctx()
        self.arrays = {}
        self.obs = []
        self.contracts = contracts or {}
        self.label = label
        self.loopstack = []       # iteration symbols of enclosing loops
        self.hyps = []            # functions ctx,cells -> [Poly] hypothesis instances
        self.fins = []
        self.ifact_hyps = []      # facts about integer arrays
        self.loops_done = 0
        self.wrap_checks = True
        self.allocn = 0
        self.newbase = 1000
        self.returns = None
        self.tb = 0
        self.rec_depth = 0
        self.covers = 0
        self.scalar_branches = 0
        self.zero_muls = 0
        self.divs = {}
        self.axioms = []          # facts about fresh results of calls

    # ---------------------------------------------------------- obligations
    def oblige(self, kind, name, b, pc=None):
        """prove condition b under ctx (pc already assumed by caller)."""
        try:
            b = self.ctx.resolve(b, None)
        except NeedSplit as e:
            return self.by_cases(kind, name, b)
        d = self.ctx.decide(b)
        ok = d is True
        if not ok and any(L.pend for L in self.ctx.levels):
            return self.by_cases(kind, name, b)
        det = ""
        if not ok:
            det = "cannot prove %r under %r" % (b, self.ctx.facts())
            if self.ctx.solver.check(z3.Not(z_b(b))) == z3.sat:
                mdl = self.ctx.solver.model()
                det += " countermodel %s" % (sorted(("%s=%s" % (v, mdl[v])) for v in mdl.decls()))
        self.obs.append(Ob(kind, name, ok, det))
        return ok

    def by_cases(self, kind, name, b):
        ctx = self.ctx
        budget = [80]

        def fn():
            t = ctx.truth(b)
            if t:
                return t
            pend = [x for L in ctx.levels for x in L.pend]
            if has_scalar(b):
                for f in ctx.facts():
                    if f.op == "le" and not f.args[0].lazy:
                        p = ctx.apply_isub(f.args[0])
                        if not p.is_const() and not p.lazy and ctx._check(z_int(p) < 0) == z3.unsat:
                            ctx.learn_eq(p)
            isub = ctx.all_isub()
            old = []
            if isub:
                # scalar facts stated before these indices were known to be equal
                for f in ctx.facts():
                    if has_scalar(f):
                        g = subst_b(f, isub)
                        if g.key != f.key:
                            old.append(g)
            if not pend and not old:
                return t
            # path conditions that had no normal form before this case was fixed
            split = None
            ctx.push()
            try:
                for x in old:
                    ctx.assume(x)
                ctx.noraw = True
                for x in pend:
                    try:
                        ctx.assume(ctx.resolve(x, None))
                    except NeedSplit as e:
                        split = split or e
                ctx.noraw = False
                if ctx.truth(b) or ctx.infeasible():
                    return True
            except NeedSplit as e:
                split = split or e
            finally:
                ctx.noraw = False
                ctx.pop()
            if split is not None and budget[0] > 0:
                budget[0] -= 1
                raise split
            return False
        ok = True
        bad = None
        for path, r in cases(ctx, fn):
            ok = ok and r
            if not r and bad is None:
                bad = path
        self.obs.append(Ob(kind, name, ok, "" if ok else "case %r of %r" % (bad, b)))
        return ok

    def add_array(self, bid, name, real=False, local=False):
        a = Array(name, real, local)
        self.arrays[bid] = a
        return a

    # ------------------------------------------------------------ function
    def run(self, fname, args, arrays_init=None, pre=(), start=None):
        f = self.mod.funcs["" + fname]
        self.f = f
        self.rpo, self.ridx, self.loops = find_loops(f)
        for p in pre:
            self.ctx.assume(self.ctx.resolve(p, None))
        if self.ctx.infeasible():
            raise ProofFail("vacuous-precondition", fname)
        if start is not None:
            start()
        env = {}
        for (ty, nm), v in zip(f.params, args):
            env[nm] = v
        arrays = {}
        for bid, a in self.arrays.items():
            arrays[bid] = (arrays_init or {}).get(bid) or base_state(a.base, a)
        st = St(arrays, {})
        for bid, a in self.arrays.items():
            if a.isint:
                st.mem[("iarr", bid)] = (IState("f", a.entry), 0)
        exits = self.exec_dag(None, f.entry, [(None, TRUE, st)], env)
        # returns: list of (pc, st, value)
        return exits

    def parent_loop(self, header):
        return self.loops[header].parent

    def exec_dag(self, L, entry, entries, env, stop_back=True):
        """Execute the acyclic region of loop L (None: function) starting at
        entry.  Returns exits: list of (src, dst, pc, st); dst == L.header for
        back edges, dst is None for returns (value in 5th slot)."""
        pending = {entry: list(entries)}
        exits = []
        blocks = self.f.blocks
        todo = sorted([entry], key=lambda b: self.ridx[b])
        first = True
        while todo:
            b = todo.pop(0)
            ents = pending.pop(b)
            inner = b in self.loops and not (L is not None and b == L.header and first)
            if inner:
                outs = self.exec_loop(self.loops[b], ents, env)
            else:
                outs = self.exec_block(b, ents, env, skip_phis=(L is not None and b == L.header and first))
            first = False
            for o in outs:
                src, dst, pc, st = o[:4]
                if pc is FALSE:
                    continue
                if dst is None:
                    exits.append(o)
                elif L is not None and (dst == L.header or dst not in L.blocks):
                    exits.append(o)
                else:
                    if dst not in pending:
                        pending[dst] = []
                        todo.append(dst)
                        todo.sort(key=lambda x: self.ridx[x])
                    pending[dst].append((src, pc, st))
        return exits

    # ------------------------------------------------------------- merging
    def merge(self, ents):
        """entries [(pred, pc, st)] -> (pc, st, select(values))"""
        if len(ents) == 1:
            return ents[0][1], ents[0][2].copy(), (lambda vals: vals[0])
        pcs = [e[1] for e in ents]
        pc = bor(*pcs)
        # guard of entry i relative to merged pc: drop common conjuncts
        sets = [set(p.args) if p.op == "and" else ({p} if p is not TRUE else set()) for p in pcs]
        common = set.intersection(*sets)
        g = [band(*[x for x in (p.args if p.op == "and" else (p,)) if x not in common]) for p in pcs]

        def sel(vals):
            r = vals[-1]
            for v, c in list(zip(vals, g))[-2::-1]:
                r = self.vite(c, v, r)
            return r
        st = ents[0][2].copy()
        for bid in st.arrays:
            # an array allocated on one path only is not accessible on the others
            vals = [e[2].arrays.get(bid, ents[0][2].arrays[bid]) for e in ents]
            r = vals[-1]
            for v, c in list(zip(vals, g))[-2::-1]:
                r = sta_ite(c, v, r)
            st.arrays[bid] = r
        for e in ents[1:]:
            for bid in e[2].arrays:
                if bid not in st.arrays:
                    st.arrays[bid] = e[2].arrays[bid]
        keys = set()
        for e in ents:
            keys |= set(e[2].mem)
        for k in keys:
            vals = [e[2].mem.get(k, (UNDEF, 0)) for e in ents]
            if all(v == vals[0] for v in vals):
                st.mem[k] = vals[0]
            elif k == ("calls",):
                r = []
                for l in [v[0] for v in vals if v[0] is not UNDEF]:
                    r += [c for c in l if not any(c is x for x in r)]
                st.mem[k] = (tuple(r), 0)
            else:
                st.mem[k] = (sel([v[0] for v in vals]), max(v[1] for v in vals))
        return pc, st, sel

    def vite(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, IP) and isinstance(b, IP):
            return iite(c, a, b)
        if isinstance(a, IState) and isinstance(b, IState):
            return IState("ite", c, a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bor(band(c, a), band(bnot(c), b))
        if isinstance(a, N) and isinstance(b, N):
            return nite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b:
                return a
            if a[0] == "el" and b[0] == "el" and a[1] == b[1]:
                return ("el", a[1], iite(c, a[2], b[2]), iite(c, a[3], b[3]))
            return ("sel", c, a, b)
        return UNDEF

    # -------------------------------------------------------------- blocks
    def with_pc(self, pc, fn):
        if pc is TRUE and not self.axioms:
            return fn()
        self.ctx.push()
        try:
            self.assume_axioms()
            self.assume_pc(pc)
            return fn()
        finally:
            self.ctx.pop()

    def assume_axioms(self):
        for x in self.axioms:
            try:
                self.ctx.assume(self.ctx.resolve(x, None))
            except NeedSplit:
                pass

    def assume_pc(self, pc):
        for x in (pc.args if pc.op == "and" else (pc,)):
            try:
                self.ctx.assume(self.ctx.resolve(x, None))
            except NeedSplit:
                if has_scalar(x):
                    self.ctx.levels[-1].pend.append(x)
                try:
                    self.ctx.assume(self.ctx.resolve(self.weaken(x), None))
                except NeedSplit:
                    pass          # dropping an assumption is sound
            # the very condition of this path, whatever its normal form becomes later
            y, pos = (x.args[0], FALSE) if x.op == "not" else (x, TRUE)
            if y.op == "scmp":
                self.ctx.levels[-1].raw[y.key] = pos

    def weaken(self, b):
        """a consequence of b without the literals that cannot be resolved."""
        if b.op in ("and", "or"):
            return (band if b.op == "and" else bor)(*[self.weaken(x) for x in b.args])
        try:
            self.ctx.resolve(b, None)
            return b
        except NeedSplit:
            return TRUE

    def exec_block(self, b, ents, env, skip_phis=False):
        blk = self.f.blocks[b]
        pc, st, sel = self.merge(ents)
        if not skip_phis:
            new = {}
            for I in blk.insts:
                if I.op != "phi":
                    break
                vals = []
                for e in ents:
                    v = [x for x, p in I.args if p == e[0]]
                    vals.append(self.val(I.ty, v[0], env))
                new[I.res] = sel(vals)
            env.update(new)
        return self.with_pc(pc, lambda: self._exec_insts(blk, pc, st, env))

    def _exec_insts(self, blk, pc, st, env):
        if pc is not TRUE and self.ctx.infeasible():
            return []
        for I in blk.insts:
            if I.op == "phi" or I.op == "nop":
                continue
            if I.op == "br":
                return [(blk.name, blk.succ[0], pc, st)]
            if I.op == "cbr":
                c = self.val("i1", I.args[0], env)
                if isinstance(c, B) and reads_array(c):
                    self.scalar_branches += 1
                try:
                    rc = self.ctx.resolve(c, None)
                    d = self.ctx.decide(rc)
                    if not has_scalar(rc):
                        c = rc
                except NeedSplit:
                    d = None
                if d is True:
                    return [(blk.name, blk.succ[0], pc, st)]
                if d is False:
                    return [(blk.name, blk.succ[1], pc, st)]
                if blk.succ[0] == blk.succ[1]:
                    return [(blk.name, blk.succ[0], pc, st)]
                return [(blk.name, blk.succ[0], band(pc, c), st), (blk.name, blk.succ[1], band(pc, bnot(c)), st.copy())]
            if I.op == "switch":
                v = self.val(I.ty, I.args[0], env)
                outs, rest = [], pc
                for cv, tgt in I.extra:
                    c = beq(v, IP.const(int(cv)))
                    d = self.ctx.decide(c)
                    if d is True:
                        return [(blk.name, tgt, pc, st)]
                    if d is False:
                        continue
                    outs.append((blk.name, tgt, band(rest, c), st.copy()))
                    rest = band(rest, bnot(c))
                outs.append((blk.name, blk.succ[0], rest, st))
                return outs
            if I.op == "ret":
                v = self.val(I.ty, I.args[0], env) if I.args else None
                return [(blk.name, None, pc, st, v)]
            if I.op == "unreachable":
                ok = self.ctx.infeasible()
                self.obs.append(Ob("unreachable", "no abort/throw", ok, "" if ok else "reachable: " + blk.name))
                return []
            self.inst(I, pc, st, env)
        raise Unsupported("block without terminator")

    # -------------------------------------------------------------- values
    def val(self, ty, s, env):
        if s.startswith("%"):
            if s not in env:
                raise Unsupported("undefined value " + s)
            return env[s]
        if ty == "i1":
            return {"true": TRUE, "false": FALSE, "1": TRUE, "0": FALSE}.get(s, UNDEF)
        if re.match(r"i\d+$", ty):
            if s in ("undef", "poison"):
                return UNDEF
            if s == "true":
                return IP.const(1)
            if s == "false":
                return ZERO
            return IP.const(int(s))
        if ty == "ptr":
            if s == "null":
                return ("null",)
            if s in ("undef", "poison"):
                return UNDEF
            if s.startswith("@"):
                return ("gl", s, 0)
            return ("cexpr", s)
        if ty in ("double", "float"):
            if s in ("undef", "poison"):
                return UNDEF
            return ("d", parse_fp(s))
        if s in ("undef", "poison", "zeroinitializer"):
            return UNDEF if s != "zeroinitializer" else {}
        raise Unsupported("constant %s %s" % (ty, s))

    def inst(self, I, pc, st, env):
        op = I.op
        V = lambda k=0: self.val(I.ty, I.args[k], env)
        if op in ("add", "sub", "mul"):
            a, b = V(0), V(1)
            if isinstance(a, B) or isinstance(b, B):
                raise Unsupported("i1 arithmetic")
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            env[I.res] = r
        elif op in ("udiv", "sdiv", "lshr", "ashr", "urem", "srem", "shl"):
            a, b = V(0), V(1)
            if op == "shl":
                if not b.is_const():
                    raise Unsupported("shl by variable")
                env[I.res] = a * IP.const(2 ** b.cval())
                return
            if op in ("lshr", "ashr"):
                b = IP.const(2 ** b.cval())
            if op in ("sdiv", "srem", "udiv", "urem", "lshr"):
                self.oblige("nowrap", "division operand nonnegative", ble(ZERO, a))
                if not b.is_const():
                    self.oblige("nowrap", "divisor positive", blt(ZERO, b))
            qd = self.quotient(a, b)
            env[I.res] = qd if op in ("udiv", "sdiv", "lshr", "ashr") else a - qd * b
        elif op in ("and", "or", "xor"):
            a, b = V(0), V(1)
            if I.ty == "i1":
                if op == "and":
                    env[I.res] = band(a, b)
                elif op == "or":
                    env[I.res] = bor(a, b)
                else:
                    env[I.res] = bnot(a) if b is TRUE else bnot(b) if a is TRUE else bor(band(a, bnot(b)), band(bnot(a), b))
            else:
                if op == "and" and b.is_const() and b.cval() == 1:
                    env[I.res] = a - idiv(a, IP.const(2)) * 2
                elif op == "and" and b.is_const() and b.cval() == 2**32 - 1:
                    # zero extension of a truncation: value preserving, as for trunc
                    self.oblige("nowrap", "zero-extended value nonnegative", ble(ZERO, a))
                    env[I.res] = a
                elif op == "and" and b.is_const() and b.cval() == -2:
                    env[I.res] = self.quotient(a, IP.const(2)) * 2
                elif op == "or" and b.is_const() and b.cval() == 1 and not a.is_const() and all(c % 2 == 0 for _, c in a.t):
                    env[I.res] = a + 1
                elif op == "xor" and b.is_const() and b.cval() == -1:
                    env[I.res] = -a - 1
                elif a.is_const() and b.is_const():
                    x, y = a.cval(), b.cval()
                    env[I.res] = IP.const(x & y if op == "and" else x | y if op == "or" else x ^ y)
                else:
                    env[I.res] = ("bits", op, a, b)
        elif op == "icmp":
            a, b = V(0), V(1)
            env[I.res] = self.icmp(I.extra, a, b)
        elif op in ("zext", "sext"):
            v = self.val(I.extra, I.args[0], env)
            if isinstance(v, B):
                env[I.res] = iite(v, IP.const(1 if op == "zext" else -1), ZERO)
            else:
                if op == "zext" and isinstance(v, IP) and not (v.is_const() and v.cval() >= 0):
                    self.oblige("nowrap", "zext of nonnegative", ble(ZERO, v))
                env[I.res] = v
        elif op == "trunc":
            v = self.val(I.extra, I.args[0], env)
            if I.ty == "i1":
                if isinstance(v, IP):
                    env[I.res] = bnot(beq(v - idiv(v, IP.const(2)) * 2, ZERO)) if not v.is_const() else (TRUE if v.cval() & 1 else FALSE)
                else:
                    env[I.res] = v
            else:
                if isinstance(v, IP) and v.is_const():
                    bits = int(I.ty[1:])
                    x = v.cval() & ((1 << bits) - 1)
                    if x >= 1 << (bits - 1):
                        x -= 1 << bits
                    v = IP.const(x)
                env[I.res] = v          # machine truncation treated as value preserving (listed assumption)
        elif op == "freeze":
            env[I.res] = self.val(I.extra, I.args[0], env)
        elif op == "select":
            c = self.val("i1", I.args[0], env)
            a, b = self.val(I.ty, I.args[1], env), self.val(I.ty, I.args[2], env)
            if isinstance(c, B) and reads_array(c):
                self.scalar_branches += 1
            try:
                rc = self.ctx.resolve(c, None)
                d = self.ctx.decide(rc)
            except NeedSplit:
                d = None
            env[I.res] = a if d is True else b if d is False else self.vite(c, a, b)
        elif op == "alloca":
            self.allocn += 1
            env[I.res] = ("al", self.allocn, 0)
        elif op == "gep":
            env[I.res] = self.gep(I, env)
        elif op == "load":
            env[I.res] = self.load(I.ty, self.val("ptr", I.args[0], env), st)
        elif op == "store":
            self.store(I.ty, self.val(I.ty, I.args[0], env), self.val("ptr", I.args[1], env), st)
        elif op == "extractvalue":
            v = self.val(I.ty, I.args[0], env)
            for ix in I.args[1:]:
                v = v.get(int(ix), UNDEF) if isinstance(v, dict) else UNDEF
            env[I.res] = v
        elif op == "insertvalue":
            v = self.val(I.ty, I.args[0], env)
            v = dict(v) if isinstance(v, dict) else {}
            t = IRM.first_type(I.args[1])
            x = self.val(t, I.args[1][len(t):].strip(), env)
            v[int(I.args[2])] = x
            env[I.res] = v
        elif op == "call":
            env_res = self.call(I, pc, st, env)
            if I.res:
                env[I.res] = env_res
        elif op in ("sitofp", "uitofp"):
            v = self.val(I.extra, I.args[0], env)
            env[I.res] = ("di", v)
        elif op in ("fpext", "fptrunc"):
            env[I.res] = self.val(I.extra, I.args[0], env)
        elif op in ("ptrtoint", "inttoptr") and isinstance(self.val(I.extra, I.args[0], env), N):
            env[I.res] = self.val(I.extra, I.args[0], env)      # a scalar passed in an integer register
        else:
            env[I.res] = ("fop", I.text)

    def quotient(self, a, b):
        """a div b; outside loops a fresh symbol with its defining inequalities."""
        qd = idiv(a, b)
        if qd.is_const() or not b.is_const() or b.cval() < 1 or a.lazy or self.loopstack:
            return qd
        key = (a, b)
        if key not in self.divs:
            h = IP.sym(fresh("q"))
            for x in (ble(h * b, a), ble(a, h * b + (b - 1)), beq(h, qd)):
                self.axioms.append(x)
            self.divs[key] = h
            self.assume_axioms()
        return self.divs[key]

    def icmp(self, pred, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ("eq", "ne") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] != b[0]:
                return FALSE if pred == "eq" else TRUE
            return B("opq", ("ptrcmp:%s:%r:%r" % (pred, a, b),))
        if isinstance(a, B) or isinstance(b, B):
            x = bor(band(a, b), band(bnot(a), bnot(b)))
            return x if pred == "eq" else bnot(x)
        if pred == "eq":
            return beq(a, b)
        if pred == "ne":
            return bnot(beq(a, b))
        if pred[0] == "s":
            p = pred[1:]
            return blt(a, b) if p == "lt" else ble(a, b) if p == "le" else blt(b, a) if p == "gt" else ble(b, a)
        p = pred[1:]
        if p in ("gt", "ge"):
            a, b = b, a
            p = {"gt": "lt", "ge": "le"}[p]
        # unsigned compare of values in [-2^62, 2^62): negatives are huge
        core = blt(a, b) if p == "lt" else ble(a, b)
        na = self.nonneg(a)
        nb = self.nonneg(b)
        if na is True and nb is True:
            return core
        if na is True and nb is False:
            return TRUE
        if na is False and nb is True:
            return FALSE
        if na is False and nb is False:
            return core
        an, bn = blt(a, ZERO), blt(b, ZERO)
        same = bor(band(an, bn), band(bnot(an), bnot(bn)))
        return bor(band(same, core), band(bnot(an), bn))

    def nonneg(self, a):
        if a.is_const():
            return a.cval() >= 0
        return self.ctx.decide(ble(ZERO, a))

    # -------------------------------------------------------------- memory
    def gep(self, I, env):
        p = self.val("ptr", I.args[0][1], env)
        idxs = [self.val(t, v, env) for t, v in I.args[1:]]
        if p[0] in ("al", "gl"):
            off = 0
            sz = self.mod.sizeof(I.ty)
            if not all(isinstance(x, IP) and x.is_const() for x in idxs):
                return ("algep", p, I.ty, tuple(idxs))
            off += idxs[0].cval() * sz
            ty = I.ty
            for x in idxs[1:]:
                s, a, fl = self.mod.layout(ty)
                o, t = fl[x.cval()]
                off += o
                ty = t
            return (p[0], p[1], p[2] + off)
        if p[0] == "raw" and all(x.is_const() and x.cval() == 0 for x in idxs[1:]):
            sz = self.mod.sizeof(I.ty)
            o = idxs[0] * IP.const(sz)
            if any(c % 8 for _, c in o.t):
                raise Unsupported("raw offset " + I.text)
            return ("raw", p[1], p[2] + IP({m: c // 8 for m, c in o.t}))
        if p[0] in ("el",) and len(idxs) == 1 and idxs[0].is_const() and idxs[0].cval() == 0:
            return p
        raise Unsupported("gep " + I.text)

    def raw_el(self, p):
        """the array element that a raw offset denotes."""
        a = self.arrays[p[1]]
        i, j = a.decode(self, p[2])
        m, n = a.shape
        self.oblige("bounds", "access to %s inside the documented array" % a.name, band(ble(ZERO, i), blt(i, m), ble(ZERO, j), blt(j, n)))
        return ("el", p[1], i, j)

    def load(self, ty, p, st):
        if p is not UNDEF and p[0] == "raw":
            p = self.raw_el(p)
        if p is UNDEF:
            raise Unsupported("load from undef")
        if p[0] == "el":
            if self.arrays[p[1]].isint:
                return st.mem[("iarr", p[1])][0].read(self.ctx, p[2])
            self.access_ob(p, "read")
            return nread(st.arrays[p[1]], p[2], p[3])
        if p[0] == "al":
            v = st.mem.get((p[1], p[2]))
            if v is None:
                return UNDEF
            return v[0]
        if p[0] == "sel":
            return self.vite(p[1], self.load(ty, p[2], st), self.load(ty, p[3], st))
        if p[0] == "gl":
            return self.load_global(ty, p)
        raise Unsupported("load from %r" % (p,))

    def load_global(self, ty, p):
        g = self.mod.globals.get(p[1], "")
        m = re.search(r"constant (\S+) (-?\d+|true|false)", g)
        if m and p[2] == 0 and m.group(1) == ty:
            return self.val(ty, m.group(2), {})
        m = re.search(r"(?:constant|global) (%\"[^\"]+\"|%\S+) (\{[^}]*\}|zeroinitializer)", g)
        if m:
            s, a, fl = self.mod.layout(m.group(1))
            for k, (o, t) in enumerate(fl or []):
                if o == p[2] and t == ty:
                    if m.group(2) == "zeroinitializer":
                        return ZERO if t != "i1" else FALSE
                    el = IRM.split_top(m.group(2).strip()[1:-1])[k]
                    return self.val(t, el.split()[-1], {})
        raise Unsupported("load global " + p[1])

    def access_ob(self, p, kind):
        a = self.arrays[p[1]]
        fn = a.access if kind == "read" else a.waccess
        if fn is not None:
            c = fn(p[2], p[3])
            if c is not TRUE:
                self.oblige("frame-" + kind, "%s of %s only inside the documented region" % (kind, a.name), c)

    def store(self, ty, v, p, st):
        if p[0] == "raw":
            p = self.raw_el(p)
        if p[0] == "el":
            if self.arrays[p[1]].isint:
                if not isinstance(v, IP):
                    raise Unsupported("store of %r to an integer array" % (v,))
                k = ("iarr", p[1])
                st.mem[k] = (IState("w", p[2], v, st.mem[k][0]), 0)
                return
            self.access_ob(p, "write")
            if not isinstance(v, N):
                if v is UNDEF:
                    v = nsym(fresh("undef"))
                else:
                    raise Unsupported("store of %r to element" % (v,))
            r, c = p[2], p[3]
            st.arrays[p[1]] = upd(st.arrays[p[1]], lambda i, j: band(beq(i, r), beq(j, c)), lambda i, j: v)
            return
        if p[0] == "al":
            sz = self.mod.sizeof(ty)
            for k in [k for k in st.mem if k[0] == p[1] and k[1] != p[2] and k[1] < p[2] + sz and p[2] < k[1] + st.mem[k][1]]:
                del st.mem[k]
            if isinstance(v, dict):
                s, a, fl = self.mod.layout(ty)
                for k, (o, t) in enumerate(fl):
                    if k in v:
                        st.mem[(p[1], p[2] + o)] = (v[k], self.mod.sizeof(t))
                return
            st.mem[(p[1], p[2])] = (v, sz)
            return
        if p[0] == "sel":
            a, b = p[2], p[3]
            old_a, old_b = self.load(ty, a, st), self.load(ty, b, st)
            self.store(ty, self.vite(p[1], v, old_a), a, st)
            self.store(ty, self.vite(p[1], old_b, v), b, st)
            return
        raise Unsupported("store to %r" % (p,))

    # --------------------------------------------------------------- calls
    def call(self, I, pc, st, env):
        fn = I.extra.strip('@"') if I.extra.startswith("@") else I.extra
        A = [self.val(t, v, env) if t not in ("metadata",) else None for t, v in I.args]
        if fn.startswith("v_"):
            return self.vcall(fn, A, pc, st)
        if fn.startswith("llvm."):
            return self.intrinsic(fn, A, I, st)
        name = IRM.tl_name(fn)
        if name == "legacy":
            name = IRM.legacy_name(fn)
        if name in self.contracts:
            self.calls = getattr(self, "calls", [])
            return self.contracts[name](self, fn, A, I, pc, st)
        if fn.startswith("_ZNSolsEPFRSoS_E"):
            return None          # std::ostream << std::endl: no effect on the contract
        raise Unsupported("call to " + fn)

    def sc(self, v):
        if isinstance(v, N):
            return v
        if v is UNDEF:
            raise Unsupported("use of an uninitialised scalar")
        if isinstance(v, tuple) and v[0] == "null":
            raise Unsupported("null scalar")
        raise Unsupported("not a scalar: %r" % (v,))

    def vcall(self, fn, A, pc, st):
        S = self.sc
        if fn == "v_at":
            b = self.ctx.canon(A[0])
            if not b.is_const():
                raise Unsupported("symbolic base")
            return ("el", b.cval(), A[1], A[2])
        if fn == "v_raw":
            return ("raw", self.ctx.canon(A[0]).cval(), ZERO)
        if fn == "v_bounds":
            i, n = A
            self.oblige("bounds", "index in range", band(ble(ZERO, i), blt(i, n)))
            return None
        if fn == "v_assert":
            if A[0] is not TRUE:
                self.oblige("assert", {1: "range ordered", 2: "range within dimension", 3: "row/column exists"}.get(
                    A[1].cval(), "assertion %s" % A[1]), A[0])
            return None
        if fn == "v_check":
            if A[0] is not TRUE:
                self.oblige("check", "argument check of callee holds", A[0])
            return None
        if fn == "v_int":
            if A[0].is_const():
                return q(A[0].cval())
            return N("int", (A[0],))
        if fn == "v_dbl":
            if A[0][0] == "di":
                return q(A[0][1].cval()) if A[0][1].is_const() else N("int", (A[0][1],))
            if A[0][0] != "d":
                raise Unsupported("double arithmetic")
            return q(A[0][1])
        if fn == "v_add":
            return nadd(S(A[0]), S(A[1]))
        if fn == "v_sub":
            return nsub(S(A[0]), S(A[1]))
        if fn == "v_mul":
            if (A[0] is NZERO or A[1] is NZERO) and (reads_array(A[0]) or reads_array(A[1])):
                self.zero_muls += 1
            return nmul(S(A[0]), S(A[1]))
        if fn == "v_div":
            return ndiv(S(A[0]), S(A[1]))
        if fn == "v_neg":
            return nneg(S(A[0]))
        if fn == "v_conj":
            return nconj(S(A[0]))
        if fn == "v_real":
            return nreal(S(A[0]))
        if fn == "v_imag":
            x = S(A[0])
            return nmul(q(Fraction(-1, 2)), NI, nsub(x, nconj(x)))
        if fn == "v_cplx":
            return nadd(S(A[0]), nmul(NI, S(A[1])))
        if fn in ("v_abs", "v_sqrt", "v_log2", "v_ceil", "v_floor"):
            return N("app", (fn[2:], S(A[0])))
        if fn == "v_pow":
            return N("app", ("pow", S(A[0]), S(A[1])))
        if fn == "v_lim":
            return nsym("lim%d" % A[0].cval(), True)
        if fn in ("v_eq", "v_lt", "v_le"):
            if fn == "v_lt":
                z, x = S(A[0]), S(A[1])
                if z is NZERO:
                    st.mem[("ghost", "cmp")] = (x, 0)
            return bscmp(fn[2:], S(A[0]), S(A[1]))
        if fn in ("v_isnan", "v_isinf"):
            return FALSE if not getattr(self, "nan_model", False) else B("opq", (fn[2:], S(A[0])))
        if fn == "v_newbase":
            self.newbase += 1
            a = self.add_array(self.newbase, "work%d" % self.newbase, real=bool(A[0].cval()) if A else False, local=True)
            st.arrays[self.newbase] = base_state(a.base, a)
            return IP.const(self.newbase)
        raise Unsupported(fn)

    def intrinsic(self, fn, A, I, st):
        if fn.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.stack")):
            return None
        if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memmove"):
            d, s, n = A[0], A[1], A[2].cval()
            if d[0] == "el" and n == 8:
                self.store("ptr", self.load("ptr", s, st), d, st)
                return None
            if s[0] == "el" and n == 8:
                self.store("ptr", self.load("ptr", s, st), d, st)
                return None
            if s[0] == "al" and d[0] == "al":
                items = [(k, v) for k, v in st.mem.items() if k[0] == s[1] and s[2] <= k[1] < s[2] + n]
                for k in [k for k in st.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + n]:
                    del st.mem[k]
                for k, v in items:
                    st.mem[(d[1], d[2] + k[1] - s[2])] = v
                return None
            if s[0] == "gl" and d[0] == "al":
                for off, v, sz in self.global_fields(s[1]):
                    if s[2] <= off < s[2] + n:
                        st.mem[(d[1], d[2] + off - s[2])] = (v, sz)
                return None
            raise Unsupported("memcpy")
        if fn.startswith("llvm.memset"):
            d, b, n = A[0], A[1], A[2].cval()
            if d[0] == "al" and b.is_const() and b.cval() == 0:
                for k in [k for k in st.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + n]:
                    del st.mem[k]
                for o in range(0, n, 8):
                    st.mem[(d[1], d[2] + o)] = (ZERO, 8)
                return None
        m = re.match(r"llvm\.([us])(min|max)\.i\d+", fn)
        if m:
            a, b = A
            c = self.icmp("ult" if m.group(1) == "u" else "slt", a, b)
            return iite(c, a, b) if m.group(2) == "min" else iite(c, b, a)
        if fn.startswith("llvm.usub.sat"):
            a, b = A
            return iite(self.icmp("ult", a, b), ZERO, a - b)
        if fn.startswith("llvm.abs."):
            return iite(blt(A[0], ZERO), -A[0], A[0])
        raise Unsupported(fn)

    def global_fields(self, g):
        d = self.mod.globals.get(g, "")
        m = re.search(r"(?:constant|global) (\{[^{}]*\}|%\"[^\"]+\"|%\S+|\[[^\]]*\]) (.*?)(, align.*|, comdat.*)?$", d)
        if not m:
            raise Unsupported("global " + g)
        ty = m.group(1)
        s, a, fl = self.mod.layout(ty)
        init = m.group(2)
        if init == "zeroinitializer":
            return [(o, FALSE if t == "i1" else ZERO, self.mod.sizeof(t)) for o, t in fl]
        els = IRM.split_top(init.strip()[1:-1])
        return [(o, self.val(t, e.split()[-1], {}), self.mod.sizeof(t)) for (o, t), e in zip(fl, els)]

    # --------------------------------------------------------------- loops
    def induction(self, L, phi, back):
        """constant step of an induction phi, or None."""
        defs = {I.res: I for b in L.blocks for I in self.f.blocks[b].insts if I.res}
        step = ZERO
        x = back
        for _ in range(20):
            if x == phi:
                return step
            I = defs.get(x)
            if I is None:
                return None
            if I.op in ("add", "sub") and re.match(r"-?\d+$", I.args[1]):
                c = int(I.args[1])
                step = step + (c if I.op == "add" else -c)
                x = I.args[0]
            elif I.op in ("add", "sub") and I.args[1] not in defs and (I.args[1].startswith("%")):
                v = self.curenv.get(I.args[1])
                if not isinstance(v, IP):
                    return None
                step = step + (v if I.op == "add" else -v)
                x = I.args[0]
            elif I.op == "phi" and all(a[0] == I.args[0][0] for a in I.args):
                x = I.args[0][0]
            else:
                return None
        return None

    def exec_loop(self, L, ents, env):
        ctx = self.ctx
        hdr = self.f.blocks[L.header]
        pc0, st0, sel = self.merge(ents)
        init = {}
        phis = [I for I in hdr.insts if I.op == "phi"]
        for I in phis:
            vals = [self.val(I.ty, [x for x, p in I.args if p == e[0]][0], env) for e in ents]
            init[I.res] = sel(vals)
        inv = None
        if not self.loopstack and getattr(self, "loop_invs", None):
            mp = self.__dict__.setdefault("inv_map", {})
            if L.header not in mp:
                mp[L.header] = self.loop_invs[len(mp)] if len(mp) < len(self.loop_invs) else None
            inv = mp[L.header]
        if inv is not None:
            return self.with_pc(pc0, lambda: self._exec_annotated(inv, L, hdr, pc0, st0, init, phis, env))
        return self.with_pc(pc0, lambda: self._exec_loop(L, hdr, pc0, st0, init, phis, env))

    # ------------------------------------------------- annotated invariants
    def _exec_annotated(self, inv, L, hdr, pc0, st0, init, phis, env):
        """loop with a stated invariant: holds on entry, is preserved by an
        arbitrary iteration, and is all that is known afterwards."""
        ctx, v = self.ctx, self.v
        if pc0 is not TRUE and ctx.infeasible():
            return []
        if len(L.latches) != 1:
            raise Unsupported("several latches")
        latch = L.latches[0]
        backv = {I.res: [x for x, p in I.args if p == latch][0] for I in phis}
        ints = [I for I in phis if re.match(r"i\d+$", I.ty) and I.ty != "i1"]
        scal = [I for I in phis if I not in ints]
        undef = [I for I in phis if init[I.res] is UNDEF]       # meaningful only on the way out
        ints = [I for I in ints if I not in undef]
        scal = [I for I in scal if I not in undef]
        if inv.sinit:
            want, left = inv.sinit(v), list(scal)
            if len(want) == len(left):
                order = []
                for w in want:
                    hit = [I for I in left if w is not None and getattr(init[I.res], "key", None) == w.key]
                    order.append(hit[0] if hit else None)
                    left = [I for I in left if not hit or I is not hit[0]]
                if len(left) == order.count(None):
                    scal = [o or left.pop(0) for o in order]
        self.curenv = env
        derived = []
        stepped = []
        if inv.bysteps:
            for I in ints:
                st_ = self.induction(L, I.res, backv[I.res])
                if st_ is None or not isinstance(init[I.res], IP):
                    raise Unsupported("loop variable without a fixed step")
                stepped.append((I, st_))
            ints = []
        elif inv.nints == 1 and len(ints) > 1:
            st_ = {I.res: self.induction(L, I.res, backv[I.res]) for I in ints}
            p0 = ints[0]
            if st_[p0.res] is not None:
                for I in ints[1:]:
                    s_, sp = st_[I.res], st_[p0.res]
                    if s_ is not None and (s_ == sp or s_ == -sp):
                        derived.append((I, 1 if s_ == sp else -1))
                ints = [I for I in ints if all(I is not d for d, _ in derived)]
        if (len(ints) != inv.nints and not inv.bysteps) or len(scal) != inv.nscal:
            raise Unsupported("annotated loop has %d integer and %d other variables" % (len(ints), len(scal)))
        ts0 = [init[I.res] for I in ints]
        if any(not isinstance(x, IP) for x in ts0):
            raise Unsupported("loop variable not initialised")
        ss0 = [init[I.res] for I in scal]
        ts = [IP.sym(fresh("t")) for I in ints]
        env1 = dict(env)
        if inv.bysteps:
            ts0, ts = [ZERO], [IP.sym(fresh("t"))]
            for I, s_ in stepped:
                env1[I.res] = init[I.res] + ts[0] * s_
        for I, t in zip(ints, ts):
            env1[I.res] = t
        for I, sg in derived:
            if not isinstance(init[I.res], IP):
                raise Unsupported("loop variable not initialised")
            env1[I.res] = init[I.res] + (ts[0] - ts0[0]) * sg
        for I in undef:
            env1[I.res] = UNDEF
        ss = []
        for I in scal:
            if I.ty == "i1":
                n = B("opq", ("flag:" + fresh("f"),))
                ctx.opq[n.key] = (n.args[0], ())
            else:
                b = Base("s" + I.res, inv.scal is None, (), "inv")
                n = N("arr", (b, 0, ZERO, ZERO))
            ss.append(n)
            env1[I.res] = n
        # which arrays does the loop change?  (run once on the entry state)
        arrs = {self.arrays[b].name: b for b in st0.arrays}

        iarr = {a.name: ("iarr", b) for b, a in self.arrays.items() if a.isint}

        def iread(st, a):
            return lambda k: st.mem[iarr[a]][0].read(ctx, ip(k))

        def cells_of(st, tsx):
            cs = inv.icells(v, tsx) if inv.icells else []
            v.ival = {a: iread(st, a)(k) for a, k in cs}
            return cs

        def havoc(tsx):
            st1 = St(dict(st0.arrays), dict(st0.mem))
            for a, f in inv.iposts.items():
                st1.mem[iarr[a]] = (IState("f", (lambda f: lambda k: f(v, tsx, k))(f)), 0)
            cs = inv.icells(v, tsx) if inv.icells else []
            v.ival = {}
            for a, k in cs:
                v.ival[a] = IP.sym(fresh("p"))
                st1.mem[iarr[a]] = (IState("w", k, v.ival[a], st1.mem[iarr[a]][0]), 0)
            bases = {}
            for a in set(inv.posts) | set(inv.arrays):
                b = arrs[a]
                reg = self.arrays[b].waccess
                dom = inv.doms.get(a) or v.indom.get(a, lambda I, J: TRUE)
                cond = (lambda reg, dom: dom if reg is None else lambda I, J: band(dom(I, J), reg(I, J)))(reg, dom)
                if a in inv.posts:
                    val = (lambda f: lambda I, J: f(v, tsx, I, J))(inv.posts[a])
                else:
                    X = Base("Inv_" + a, self.arrays[b].real, (), "inv")
                    bases[a] = X
                    val = (lambda X: lambda I, J: N("arr", (X, 0, I, J)))(X)
                st1.arrays[b] = upd(st0.arrays[b], cond, val)
            for b, a in self.arrays.items():
                if a.local and not inv.keep and b in st0.arrays and a.name not in inv.posts and a.name not in inv.arrays:
                    X = Base("Havoc_" + a.name, a.real, (), "havoc")
                    st1.arrays[b] = upd(st0.arrays[b], lambda I, J: TRUE, (lambda X: lambda I, J: N("arr", (X, 0, I, J)))(X))
            return st1, bases

        def readers(st):
            for a in set(inv.posts) | set(inv.arrays):
                setattr(v, a + "t", (lambda s: lambda i, j=ZERO: nread(s, i, j))(st.arrays[arrs[a]]))

        def facts(tsx):
            return list(inv.facts(v, *tsx)) if inv.facts else []

        def check(st, tsx, ssx, what):
            n0 = len(self.obs)
            cs = cells_of(st, tsx)
            readers(st)
            v.ss = ssx
            for b in facts(tsx):
                self.oblige("invariant-" + what, "facts about the loop variable", b)
            ck = IP.sym(fresh("ck"))
            for a in iarr:
                if a in inv.iposts:
                    ctx.push()
                    try:
                        ctx.assume(v.indom[a](ck, ZERO))
                        self.oblige("invariant-" + what, "contents of " + a, beq(iread(st, a)(ck), inv.iposts[a](v, tsx, ck)))
                    finally:
                        ctx.pop()
                elif what == "step" and st.mem[iarr[a]][0] is not head[0].mem[iarr[a]][0]:
                    same = beq(iread(st, a)(ck), iread(head[0], a)(ck))
                    self.oblige("invariant-" + what, "contents of " + a, bor(same, *[beq(ck, k) for b, k in cs if b == a]))
            if inv.ifacts:
                ctx.push()
                try:
                    for b in self.ifact_hyps:
                        for x in b(ck):
                            ctx.assume(ctx.resolve(x, None))
                    for b in inv.ifacts(v, tsx, ck):
                        self.oblige("invariant-" + what, "facts about integer arrays", b)
                finally:
                    ctx.pop()
            v.st = st
            I, J = IP.sym("ci"), IP.sym("cj")
            for a, f in inv.posts.items():
                spec = f(v, tsx, I, J)
                if a in inv.doms:
                    spec = nite(inv.doms[a](I, J), spec, nread(st0.arrays[arrs[a]], I, J))
                elif a in v.indom:
                    spec = nite(v.indom[a](I, J), spec, getattr(v, a)(I, J))
                self.task.goal(self, "invariant-" + what, a, nread(st.arrays[arrs[a]], I, J), spec, [(I, J)])
            for nm, got, spec in (inv.scal(v, tsx, ssx) if inv.scal else []):
                self.task.goal(self, "invariant-" + what, nm, got, spec, [])
            if inv.eqs:
                for nm, dom, lhs, rhs, cells, *_ in inv.eqs(v, tsx, I, J):
                    ctx.push()
                    try:
                        ctx.assume(ctx.resolve(dom, None))
                        if ctx.infeasible():
                            continue
                        self.task.goal(self, "invariant-" + what, nm, lhs, rhs, cells)
                    finally:
                        ctx.pop()
            if inv.each and what == "step":
                for nm, dom, lhs, rhs, cells, *_ in inv.each(v, ts, I, J):
                    ctx.push()
                    try:
                        ctx.assume(ctx.resolve(dom, None))
                        if not ctx.infeasible():
                            self.task.goal(self, "invariant-" + what, nm, lhs, rhs, cells)
                    finally:
                        ctx.pop()
            bad = [o for o in self.obs[n0:] if not o.ok]
            if bad:
                raise Unsupported("stated invariant of loop %s, %s: %s" % (L.header, what, bad[0].name + " " + bad[0].detail[:700]))
        head = [st0]
        check(st0, ts0, ss0, "init")
        for g in (inv.ghosts(v) if inv.ghosts else []):
            g.mark(ts[0])
        v.ss = ss
        st1, bases = havoc(ts)
        head[0] = st1
        if inv.ifacts:
            self.ifact_hyps.append(lambda k: inv.ifacts(v, ts, k))
        cells_v = dict(v.ival)
        readers(st1)
        for a in iarr:
            setattr(v, a + "t", iread(st1, a))
        for a, X in bases.items():
            rd1 = (lambda X: lambda i, j=ZERO: N("arr", (X, 0, ip(i), ip(j))))
            X.unfold = self.inv_unfolder(inv, v, a, ts, {b: rd1(Y) for b, Y in bases.items()}, st1, arrs)
        # scalar loop variables: known by the invariant only
        if inv.scal:
            known = {id(got): spec for nm, got, spec in inv.scal(v, ts, ss)}
            for I, n in zip(scal, ss):
                if id(n) not in known:
                    raise Unsupported("no invariant for scalar loop variable")
                env1[I.res] = known[id(n)]
        v.ss = ss
        fs = facts(ts)
        env2 = {}
        # header test
        ctx.push()
        try:
            for b in fs:
                ctx.assume(ctx.resolve(b, None))
            e = dict(env1)
            t = hdr.term
            if t.op != "cbr":
                raise Unsupported("loop without header exit")
            self.curenv = e
            n = len(self.obs)
            for I in hdr.insts:
                if I.op == "phi":
                    continue
                if I is t:
                    break
                self.inst(I, TRUE, st1.copy(), e)
            del self.obs[n:]
            c = self.val("i1", t.args[0], e)
            insd = [x in L.blocks for x in hdr.succ]
            if insd == [True, False]:
                stay, ex = c, hdr.succ[1]
            elif insd == [False, True]:
                stay, ex = bnot(c), hdr.succ[0]
            else:
                raise Unsupported("loop header is not the exit test")
            outs = []
            import itertools as _it
            lits = [ctx.resolve(x, None) for x in (inv.split(v, ts) if inv.split else [])]
            for combo in _it.product((True, False), repeat=len(lits)):
                extra = [x if y else bnot(x) for x, y in zip(lits, combo)]
                ctx.push()
                try:
                    for x in extra:
                        ctx.assume(x)
                    ctx.assume(ctx.resolve(stay, None))
                    for i_, j_ in (inv.inst(v, ts) if inv.inst else []):
                        self.assume_pc(self.task.given(v, i_, j_))
                    if not ctx.infeasible():
                        entry = st1
                        for attempt in range(2):
                            nob = len(self.obs)
                            env2 = dict(env1)
                            v.ts = getattr(v, "ts", []) + [ts]
                            try:
                                exits = self.exec_dag(L, L.header, [(None, TRUE, entry.copy())], env2)
                            finally:
                                v.ts = v.ts[:-1]
                            backs = [x for x in exits if x[1] == L.header]
                            changed = [m for m, vv in ((m, vv) for x in backs for m, vv in x[3].mem.items()) if entry.mem.get(m) != vv and m != ("calls",) and m[0] != "iarr"]
                            if attempt == 0 and any(m in entry.mem for m in changed):
                                entry = entry.copy()
                                for m in changed:
                                    entry.mem.pop(m, None)
                                del self.obs[nob:]
                                continue
                            break
                        for x in exits:
                            if x[1] != L.header:
                                outs.append((x[0], x[1], band(pc0, *fs, *extra, stay, x[2])) + tuple(x[3:]))
                        for src, dst, bpc, bst in [x[:4] for x in backs]:
                            for b in st0.arrays:
                                if bst.arrays[b] is not st1.arrays[b] and self.arrays[b].name not in inv.posts and \
                                        self.arrays[b].name not in inv.arrays and (inv.keep or not self.arrays[b].local):
                                    raise Unsupported("loop changes %s, which the stated invariant does not mention" % self.arrays[b].name)
                            ctx.push()
                            sk = []
                            try:
                                self.assume_axioms()
                                self.assume_pc(bpc)
                                if ctx.infeasible():
                                    continue
                                nts = [self.val(I.ty, backv[I.res], env2) for I in ints] if not inv.bysteps else [ts[0] + 1]
                                nss = [self.val(I.ty, backv[I.res], env2) for I in scal]
                                if any(not isinstance(x, IP) for x in nts):
                                    raise Unsupported("loop variable not an integer")
                                if inv.skolem:
                                    readers(bst)
                                    for a in iarr:
                                        setattr(v, a + "t", iread(bst, a))
                                    sk = inv.skolem(v, ts)
                                    for o, f in sk:
                                        o.bind(ctx, ts[0], f)
                                if inv.variant:
                                    self.oblige("termination", "loop variant decreases", band(ble(ZERO, inv.variant(v, *ts)), blt(inv.variant(v, *nts), inv.variant(v, *ts))))
                                check(bst, nts, nss, "step")
                            finally:
                                for o, f in sk:
                                    o.unbind(ctx)
                                ctx.pop()
                        for m in changed:
                            st1.mem.pop(m, None)
                finally:
                    ctx.pop()
        finally:
            ctx.pop()
        self.loops_done += 1
        readers(st1)
        env.update({k_: x for k_, x in env1.items() if k_ not in env})
        for I in ints + [I for I, _ in stepped]:
            env[I.res] = env1[I.res]
        for I in scal:
            env[I.res] = env1[I.res]
        # definitions of header instructions and loop-local values used after a break
        for k_, x in e.items():
            env[k_] = x
        for k_, x in env2.items():
            env.setdefault(k_, x)
        return [(L.header, ex, band(pc0, *fs, bnot(stay)), st1)] + outs

    def inv_unfolder(self, inv, v, a, ts, rds, st1, arrs):
        def unf(ctx, I, J, *ps):
            save = {b: getattr(v, b + "t", None) for b in rds}
            for b, f in rds.items():
                setattr(v, b + "t", f)
            r = []
            try:
                for eq in inv.eqs(v, ts, I, J):
                    nm, dom, lhs, rhs = eq[:4]
                    if len(eq) > 5 and eq[5] != a:
                        continue
                    if getattr(self, "hyp_split", False):
                        x = ctx.truth(dom)
                    else:
                        try:
                            x = ctx.decide(ctx.resolve(dom, None))
                        except NeedSplit:
                            x = None
                    if x is None:
                        return None
                    if x:
                        p = norm(nsub(lhs, rhs), None, ctx)
                        if p.t:
                            r.append(p)
            finally:
                for b, f in save.items():
                    setattr(v, b + "t", f)
            return r
        return unf

    def _exec_loop(self, L, hdr, pc0, st0, init, phis, env):
        ctx = self.ctx
        if pc0 is not TRUE and ctx.infeasible():
            return []
        if len(L.latches) != 1:
            raise Unsupported("several latches")
        latch = L.latches[0]
        backv = {I.res: [x for x, p in I.args if p == latch][0] for I in phis}
        kname = fresh("k")
        k = IP.sym(kname)
        env1 = dict(env)
        self.curenv = env1
        outer = tuple(self.loopstack)
        steps = {}
        scal, others = [], []
        for I in phis:
            v0 = init[I.res]
            if re.match(r"i\d+$", I.ty) and I.ty != "i1":
                s = self.induction(L, I.res, backv[I.res])
                if s is not None and isinstance(v0, IP):
                    steps[I.res] = (v0, s)
                    continue
                others.append(I)
            elif I.ty == "ptr" and isinstance(v0, N):
                scal.append(I)
            elif I.ty == "ptr" and v0 is UNDEF:
                scal.append(I)
            else:
                others.append(I)
        for r, (v0, s) in steps.items():
            env1[r] = v0 + k * s
        # opaque start-of-iteration contents
        H = {}
        for bid, s0 in st0.arrays.items():
            h = HBase("H%s_%s" % (kname, self.arrays[bid].name), self.arrays[bid].real, outer + (kname,), "h")
            h.loop, h.arr, h.segs, h.s0, h.recursive, h.fin = kname, bid, None, s0, False, None
            h.ci, h.cj = fresh("_i"), fresh("_j")
            h.k, h.outer, h.K = kname, outer, None
            H[bid] = h
        for I in scal:
            h = HBase("H%s_%s" % (kname, I.res), False, outer + (kname,), "h")
            h.loop, h.arr, h.segs, h.recursive, h.fin = kname, I.res, None, False, None
            h.s0 = init[I.res] if isinstance(init[I.res], N) else nsym(fresh("undef"))
            h.ci, h.cj = None, None
            h.k, h.outer, h.K = kname, outer, None
            h.real = self.is_real_node(h.s0)
            H[I.res] = h
            env1[I.res] = N("arr", (h, 0, ZERO, ZERO) + tuple(IP.sym(s) for s in h.params))
        for I in others:
            env1[I.res] = UNDEF
        st1 = St({bid: base_state(H[bid], self.arrays[bid]) for bid in st0.arrays}, dict(st0.mem))
        self.loopstack.append(kname)
        ctx.push()
        try:
            ctx.assume(ble(ZERO, k))
            K, hdr_exit = self.trip_count(L, hdr, env1, st1, k)
            ctx.assume(blt(k, K))
            if ctx.infeasible():
                dead = True
            else:
                dead = False
                nob = len(self.obs)
                # memory changed in the body is loop-local: poison it first
                exits = self.exec_dag(L, L.header, [(None, TRUE, st1.copy())], env1)
                backs = [e for e in exits if e[1] == L.header]
                brks = [e for e in exits if e[1] != L.header]
                if brks:
                    raise Unsupported("loop with break/early return")
                if len(backs) != 1:
                    raise Unsupported("no back edge")
                bpc, bst = backs[0][2], backs[0][3]
                changed = [m for m, v in bst.mem.items() if st1.mem.get(m) != v and m != ("calls",)]
                if any(m in st1.mem for m in changed):
                    for m in changed:
                        st1.mem.pop(m, None)
                    del self.obs[nob:]
                    env1b = {kk: vv for kk, vv in env1.items()}
                    exits = self.exec_dag(L, L.header, [(None, TRUE, st1.copy())], env1b)
                    env1 = env1b
                    backs = [e for e in exits if e[1] == L.header]
                    bpc, bst = backs[0][2], backs[0][3]
                for bid in bst.arrays:
                    if bid not in st0.arrays:
                        pass   # workspace created inside the body
                ends = {}
                for bid in st0.arrays:
                    if bst.arrays[bid] is not st1.arrays[bid]:
                        ends[bid] = ("A", bst.arrays[bid])
                    else:
                        H[bid].interp = self.unmodified(H[bid])
                for I in scal:
                    nv = self.val(I.ty, backv[I.res], env1)
                    if nv is UNDEF:
                        nv = nsym(fresh("undef"))
                    ends[I.res] = ("S", nv)
                for I in others:
                    pass
                nob = len(self.obs)
                err = None
                for mode in ("auto", "auto-", "pre", "plain", "pre-", "plain-"):
                    del self.obs[nob:]
                    try:
                        self.infer(H, ends, k, K, outer, mode)
                        self.verify_loop(H, ends, k, K, outer, L)
                        err = None
                        break
                    except Unsupported as e:
                        if DEBUG: print("MODE", mode, "failed", str(e)[:600])
                        err = err or e
                if err is not None:
                    raise err
        finally:
            ctx.pop()
            self.loopstack.pop()
        self.loops_done += 1
        # state at loop exit (k = K)
        if dead:
            exst = st0
            env.update({r: v for r, v in init.items()})
            outs = [(L.header, hdr_exit, pc0, exst)]
            self.exit_env(L, hdr, env, steps, scal, H, init, ZERO, dead, st0)
            return outs
        exst = st0.copy()
        for bid in list(st0.arrays):
            if bid in ends:
                h = H[bid]
                params = tuple(IP.sym(s) for s in h.outer)
                exst.arrays[bid] = State("upd", (st0.arrays[bid],) + self.exit_lambda(h, K), self.arrays[bid])
        for m in changed:
            exst.mem.pop(m, None)
        self.exit_env(L, hdr, env, steps, scal, H, init, K, dead, exst)
        return [(L.header, hdr_exit, pc0, exst)]

    def is_real_node(self, n):
        try:
            p = norm(n, None, self.ctx)
        except Exception:
            return False
        return all(a.real for a in p.atoms())

    def exit_lambda(self, h, K):
        vi, vj = fresh("u"), fresh("u")
        I, J = IP.sym(vi), IP.sym(vj)
        val = N("arr", (h, 0, I, J) + tuple(IP.sym(s) for s in h.outer) + (K,))
        return (vi, vj, TRUE, val)

    def exit_env(self, L, hdr, env, steps, scal, H, init, K, dead, st):
        """values of header instructions at the exit iteration."""
        for r, (v0, s) in steps.items():
            env[r] = v0 + K * s
        for I in scal:
            h = H[I.res]
            if dead:
                env[I.res] = init[I.res]
            else:
                env[I.res] = N("arr", (h, 0, ZERO, ZERO) + tuple(IP.sym(s) for s in h.outer) + (K,))
        for I in hdr.insts:
            if I.op == "phi":
                if I.res not in env:
                    env[I.res] = UNDEF
                continue
            if I.op in ("br", "cbr", "switch"):
                break
            n = len(self.obs)
            self.inst(I, TRUE, st, env)
            del self.obs[n:]

    def unmodified(self, h):
        def interp(ctx, i, j, *ps):
            env = dict(zip(h.params, ps))
            return norm(nread(h.s0, i, j), env, ctx) if h.ci is not None else norm(h.s0, env, ctx)
        return interp

    def trip_count(self, L, hdr, env1, st1, k):
        """number of iterations K, from the loop header's exit test."""
        ctx = self.ctx
        e = dict(env1)
        t = hdr.term
        if t.op != "cbr":
            raise Unsupported("loop without header exit")
        n = len(self.obs)
        for I in hdr.insts:
            if I.op == "phi":
                continue
            if I is t:
                break
            self.inst(I, TRUE, st1.copy(), e)
        del self.obs[n:]
        c = self.val("i1", t.args[0], e)
        ins = [s in L.blocks for s in hdr.succ]
        if ins == [True, False]:
            stay, ex = c, hdr.succ[1]
        elif ins == [False, True]:
            stay, ex = bnot(c), hdr.succ[0]
        else:
            raise Unsupported("loop header is not the exit test")
        return self.solve_count(stay, k), ex

    def solve_count(self, stay, k):
        try:
            return self._solve_count(stay, k)
        except Unsupported as e:
            K = self.guess_count(stay, k)
            if K is None:
                raise e
            return K

    def guess_count(self, stay, k):
        """condition with unsigned wrap-around alternatives: find a literal c
        such that cond <-> c whenever 0 <= k <= K(c)."""
        ctx = self.ctx
        s = ctx.resolve(stay, None)
        lits = []

        def walk(b):
            if b.op in ("and", "or"):
                for x in b.args:
                    walk(x)
            elif b.op == "not":
                walk(b.args[0])
            elif b.op == "le":
                for x in (b, bnot(b)):
                    if x.op == "le" and x.args[0].coef(k.key) == 1 and x not in lits:
                        lits.append(x)
        walk(s)
        for c in lits:
            n = len(self.obs)
            try:
                K = self._solve_count(c, k)
            except Unsupported:
                continue
            if len(self.obs) != n:
                continue
            ctx.push()
            try:
                ctx.assume(ble(k, K))
                eqv = bor(band(s, c), band(bnot(s), bnot(c)))
                if ctx.decide(eqv) is True:
                    self.obs.append(Ob("termination", "loop counts down to its bound", True))
                    return K
            finally:
                ctx.pop()
        return None

    def _solve_count(self, stay, k):
        ctx = self.ctx
        kn = k.key
        s = ctx.resolve(stay, None)
        lits = list(s.args) if s.op == "and" else [s]
        cands = []
        for lit in lits:
            neg = lit.op == "not"
            b = lit.args[0] if neg else lit
            if b.op == "le" and not neg:
                p = b.args[0]
                c = p.coef(kn)
                if c is None:
                    raise Unsupported("loop condition " + repr(s))
                if c == 0:
                    # must be loop invariant: then either always or never
                    cands.append(iite(b, None, None) if False else self.inv_count(b))
                    continue
                if c == -1:
                    raise Unsupported("loop condition decreasing " + repr(s))
                if c == 1:
                    cands.append(-(p - k) + 1)
                elif c > 1:
                    # c*k + e <= 0  -> k <= floor(-e/c)
                    cands.append(idiv(-(p - k * c), IP.const(c)) + 1)
                else:
                    raise Unsupported("loop condition " + repr(s))
            elif b.op == "eq" and neg:
                p = b.args[0]
                c = p.coef(kn)
                if c not in (1, -1):
                    raise Unsupported("loop condition " + repr(s))
                x = (k * c - p) * c       # value of k at which equality holds
                # must be reached counting up from 0
                ctx.push()
                self.oblige("termination", "loop exit value is reached", ble(ZERO, x))
                ctx.pop()
                cands.append(x)
            else:
                raise Unsupported("loop condition " + repr(s))
        K = None
        for x in cands:
            if x is None:
                continue
            K = x if K is None else imin(K, x)
        if K is None:
            raise Unsupported("unbounded loop")
        d = ctx.decide(ble(ZERO, K)) if not K.is_const() else K.cval() >= 0
        if d is True:
            return K
        if d is False:
            return ZERO
        return imax(K, ZERO)

    def inv_count(self, b):
        d = self.ctx.decide(b)
        if d is True:
            return None
        return iite(b, IP.const(10 ** 15), ZERO)

    # ----------------------------------------------------- invariant inference
    def infer(self, H, ends, k, K, outer, mode="auto"):
        ctx = self.ctx
        merge = not mode.endswith("-")
        mode = mode.rstrip("-")
        allcases = {}
        for key in ends:
            H[key].interp = H[key].fin = H[key].segs = None
        ctx.levels[-1].memo = {}
        for key, (kind, end) in ends.items():
            h = H[key]
            if kind == "A":
                ci, cj = IP.sym(h.ci), IP.sym(h.cj)
                node = nread(end, ci, cj)
            else:
                ci = cj = ZERO
                node = end
            own = patom(Atom("arr", (h, (ci, cj) + tuple(IP.sym(s) for s in h.params), 0), real=h.real))
            h.K = K
            ctx.push()
            old = ctx.keep_sums, getattr(ctx, "ite_atoms", False)
            ctx.keep_sums, ctx.ite_atoms = True, True
            try:
                def ev():
                    p = norm(node, None, ctx)
                    o = norm_poly(own, {}, ctx)
                    return p, o
                cs = cases(ctx, ev)
            finally:
                ctx.keep_sums, ctx.ite_atoms = old
                ctx.pop()
            allcases[key] = [(path, p, o) for path, (p, o) in cs if not (p == o)]
        # end-of-iteration monomials, for recognising values stored in this iteration
        repl = []
        for key, cs in allcases.items():
            h = H[key]
            for path, p, o in cs:
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    if any(a.kind == "arr" and a.args[0] is h for a, _ in m) and len(m) > 1 or \
                       (len(m) == 1 and m[0][0].kind == "app"):
                        repl.append((h, path, m, c))
        for h in H.values():
            h.fin, h.recursive = None, False
        for fold in ((False, True) if repl and mode == "auto" else (False,)):
            for key, cs in allcases.items():
                h = H[key]
                h.segs = []
                for path, p, o in cs:
                    d = p - o
                    # increment?
                    hit = [m for m in d.t if any(uses(a, o_atom(o)) for a, _ in m)]
                    if not hit:
                        kind_, poly = "inc", d
                    else:
                        kind_, poly = "gen", p
                    for seg in self.mkseg(h, path, k, K):
                        seg.kind, seg.poly, seg.path, seg.own = kind_, poly, path, o
                        h.segs.append(seg)
                self.order(h)
                if merge:
                    self.merge_segs(h, k)
                if fold:
                    for seg in h.segs:
                        seg.poly = self.fold_stored(seg.poly, repl, h, seg.path, k, seg.own)
            # interpretation
            for key in ends:
                h = H[key]
                h.explicit = self.explicit_fn(h)
                h.interp = self.interp_fn(h)
            # recursion: does an event read a cell that may already have been modified?
            self.rawrec = False
            for key, cs in allcases.items():
                h = H[key]
                h.recursive = self.is_recursive(h, H, k, K)
            if self.rawrec and mode == "auto" and (fold or not repl):
                raise Unsupported("recursive events not anchored at final values")
            if not any(H[key].recursive for key in allcases):
                break
        for key in allcases:
            h = H[key]
            if h.recursive and mode == "pre":
                lasts = [s_ for s_ in h.segs if s_.kind == "gen" and s_.single]
                if not lasts or lasts[-1] is not h.segs[-1]:
                    raise Unsupported("no final event to anchor a recursive definition of " + h.name)
                fb = Base("Pre_" + h.name, h.real, outer, "pre")

                def unf(ctx, i, j, *ps, hh=h, seg=lasts[-1]):
                    # value at the start of the iteration of the cell's last event
                    env = dict(zip(hh.outer, ps))
                    if hh.ci is not None:
                        env[hh.ci], env[hh.cj] = i, j
                    if not ctx.truth(seg.guard, env):
                        raise Unsupported("cell without final event")
                    lo, hi = ctx.canon(seg.lo.subst(env)), ctx.canon(seg.hi.subst(env))
                    if not ctx.truth(blt(lo, hi)):
                        raise Unsupported("cell without final event")
                    return hh.explicit(ctx, i, j, *(ps + (lo,)))
                fb.unfold = unf
                h.fin = (fb, lasts[-1])
                self.fins.append(fb)
            elif h.recursive:
                fb = Base("Fin_" + h.name, h.real, outer, "fin")
                fb.unfold = (lambda hh: lambda ctx, i, j, *ps: hh.explicit(ctx, i, j, *(ps + (hh.K.subst(dict(zip(hh.outer, ps))),))))(h)
                h.fin = fb
                self.fins.append(fb)

    def fold_stored(self, poly, repl, h, path, k, own):
        """replace monomials equal to the value stored at some cell in this
        iteration by that cell's end-of-iteration value."""
        if not repl:
            return poly
        ctx = self.ctx
        out = PZERO
        changed = False
        for m, c in poly.t.items():
            done = False
            for (h2, path2, m2, c2) in repl:
                r = self.match_store(m, h2, path2, m2, k, path, own)
                if r is not None:
                    rest, cell, cj_ = r
                    at = Atom("arr", (h2, cell + tuple(IP.sym(s) for s in h2.outer) + (k + 1,), 0), real=h2.real)
                    x = patom(at)
                    if cj_:
                        x = pconj(x)
                    out = out + (Poly({rest: c / c2}) * x)
                    done = changed = True
                    break
            if not done:
                out = out + Poly({m: c})
        return out

    def match_store(self, m, h2, path2, m2, k, path, own):
        """try to find m = m2[ci:=..,cj:=..] * rest"""
        md = dict(m)
        anchors = [a for a, e in m2 if a.kind == "arr" and a.args[0] is h2]
        if not anchors:
            anchors = [a for a, e in m2 if a.kind == "app"]
            if not anchors:
                return None
        an = anchors[0]
        for conj in (0, 1):
            for a, e in m:
                if a.kind != an.kind:
                    continue
                if an.kind == "arr":
                    if a.args[0] is not h2 or a.args[2] != (an.args[2] ^ conj if not h2.real else 0):
                        continue
                    cell = (a.args[1][0], a.args[1][1])
                    if a.args[1][-1] != k:
                        continue
                else:
                    if conj:
                        continue
                    inner = [x for x in deep_atoms(a) if x.kind == "arr" and x.args[0] is h2]
                    pat = [x for x in deep_atoms(an) if x.kind == "arr" and x.args[0] is h2]
                    if not inner or not pat:
                        continue
                    cell = (inner[0].args[1][0], inner[0].args[1][1])
                env = {}
                if h2.ci is not None:
                    env = {h2.ci: cell[0], h2.cj: cell[1]}
                inst = subst_mono(m2, env)
                # isub of path2 may have eliminated ci/cj: handled because cell is substituted through k
                if conj:
                    inst = pconj(inst)
                if len(inst.t) != 1:
                    continue
                (mi, ci_), = inst.t.items()
                if ci_ != 1:
                    continue
                if any((x not in md) or (md[x] > 0) != (ex > 0) or abs(md[x]) < abs(ex) for x, ex in mi):
                    continue
                # path condition of the store case must hold at this cell
                self.ctx.push()
                try:
                    ok = True
                    try:
                        for b in path:
                            self.ctx.assume(b)
                        for b in path2:
                            if self.ctx.decide(b.subst(env)) is not True:
                                ok = False
                                break
                    except NeedSplit:
                        ok = False
                finally:
                    self.ctx.pop()
                if not ok:
                    continue
                # not the cell's own event
                rest = dict(md)
                for x, ex in mi:
                    rest[x] -= ex
                rest = tuple(sorted(((x, ex) for x, ex in rest.items() if ex), key=lambda ae: ae[0].key))
                if own is not None and h2 is o_atom(own).args[0]:
                    oc = o_atom(own).args[1]
                    self.ctx.push()
                    try:
                        for b in path:
                            self.ctx.assume(b)
                        same = self.ctx.decide(band(beq(oc[0], cell[0]), beq(oc[1], cell[1])))
                    finally:
                        self.ctx.pop()
                    if same is not False:
                        continue
                return rest, cell, conj
        return None

    def mkseg(self, h, path, k, K):
        ctx = self.ctx
        kn = k.key
        los, his, guard = [[]], [[]], []
        variants = [([ZERO], [K])]
        for lit in path:
            neg = lit.op == "not"
            b = lit.args[0] if neg else lit
            if kn not in b.free:
                guard.append(lit)
                continue
            if b.op not in ("le", "eq"):
                raise Unsupported("loop-variant scalar condition %r" % lit)
            p = b.args[0]
            c = p.coef(kn)
            if c is None or c == 0:
                raise Unsupported("nonlinear loop condition %r" % lit)
            rest = p - k * c
            if b.op == "le" and not neg:
                if c > 0:
                    x = (-rest if c == 1 else idiv(-rest, IP.const(c))) + 1
                    variants = [(l, hh + [x]) for l, hh in variants]
                else:
                    x = rest if c == -1 else -idiv(-rest, IP.const(-c))
                    variants = [(l + [x], hh) for l, hh in variants]
            elif b.op == "eq":
                if c not in (1, -1):
                    raise Unsupported("loop condition %r" % lit)
                x = -rest * c
                if not neg:
                    variants = [(l + [x], hh + [x + 1]) for l, hh in variants]
                else:
                    variants = [(l, hh + [x]) for l, hh in variants] + [(l + [x + 1], hh) for l, hh in variants]
            else:
                raise Unsupported("loop condition %r" % lit)
        segs = []
        for l, hh in variants:
            s = Seg()
            g = list(guard)
            ctx.push()
            for b in path:
                ctx.assume(b)
            # restrict to this variant
            for x in l:
                ctx.assume(ble(x, k))
            for x in hh:
                ctx.assume(blt(k, x))
            if ctx.infeasible():
                ctx.pop()
                continue
            s.lo = self.best(l, g, lambda a, b: ble(a, b), imax)
            s.hi = self.best(hh, g, lambda a, b: ble(b, a), imin)
            s.guard = band(*g)
            s.single = ctx.decide(ble(s.hi, s.lo + 1)) is True
            ctx.pop()
            segs.append(s)
        return segs

    def best(self, xs, g, le, comb):
        """the extremal bound: one that provably dominates the others, adding
        the dominance facts to the guard."""
        ctx = self.ctx
        ys = []
        for x in xs:
            if x not in ys:
                ys.append(x)
        for x in ys:
            if all(y is x or ctx.decide(le(y, x)) is True for y in ys):
                for y in ys:
                    if y is not x:
                        f = le(y, x)
                        if f is not TRUE:
                            g.append(f)
                return x
        r = ys[0]
        for y in ys[1:]:
            r = comb(r, y)
        return r

    def order(self, h):
        ctx = self.ctx
        S = h.segs
        n = len(S)
        before = [[False] * n for _ in range(n)]
        kfree = [f for f in ctx.facts() if h.k not in f.free]
        sub = Ctx()
        sub.opq = ctx.opq
        for f in kfree:
            sub.assume(f)
        for a in range(n):
            for b in range(a + 1, n):
                sub.push()
                for s in (S[a], S[b]):
                    sub.assume(s.guard)
                    sub.assume(blt(s.lo, s.hi))
                if sub.infeasible():
                    pass
                elif sub.decide(ble(S[a].hi, S[b].lo)) is True:
                    before[a][b] = True
                elif sub.decide(ble(S[b].hi, S[a].lo)) is True:
                    before[b][a] = True
                else:
                    sub.pop()
                    raise Unsupported("cannot order loop events of %s: [%s,%s) if %r / [%s,%s) if %r" % (
                        h.name, S[a].lo, S[a].hi, S[a].guard, S[b].lo, S[b].hi, S[b].guard))
                sub.pop()
        res = []
        left = list(range(n))
        while left:
            for x in left:
                if not any(before[y][x] for y in left if y != x):
                    res.append(x)
                    left.remove(x)
                    break
            else:
                raise Unsupported("cyclic event order")
        h.segs = [S[x] for x in res]

    def merge_segs(self, h, k):
        """join adjacent events with the same effect (heuristic: the result is
        verified like any other candidate invariant)."""
        ctx = self.ctx
        again = True
        while again:
            again = False
            for x in range(len(h.segs)):
                for y in range(len(h.segs)):
                    a, b = h.segs[x], h.segs[y]
                    if x == y or a.kind != b.kind or not (a.single or b.single):
                        continue
                    if a.kind == "gen" and a.single and b.single:
                        continue
                    if a.hi is not b.lo:
                        continue
                    at = b.lo if b.single else a.lo
                    one = b if b.single else a
                    many = a if b.single else b
                    sub = {k.key: at}
                    pa, pb = subst_poly(many.poly, sub), subst_poly(one.poly, sub)
                    if pa != pb:
                        ctx.push()
                        try:
                            ctx.assume(one.guard)
                            ctx.assume(beq(k, at))
                            if ctx.infeasible():
                                continue
                            d = norm_poly(many.poly, {}, ctx) - norm_poly(one.poly, {}, ctx)
                            if d.t:
                                continue
                        except (NeedSplit, Unsupported):
                            continue
                        finally:
                            ctx.pop()
                    n = Seg()
                    n.kind, n.poly, n.path, n.own = many.kind, many.poly, many.path, many.own
                    n.lo, n.hi, n.single = a.lo, b.hi, False
                    n.guard = band(one.guard, many.guard)
                    # the cells of `many` outside one's guard keep their event
                    sub2 = Ctx()
                    sub2.opq = ctx.opq
                    for f in ctx.facts():
                        if h.k not in f.free:
                            sub2.assume(f)
                    sub2.assume(many.guard)
                    rests, toomany = [], 0
                    for g in (one.guard.args if one.guard.op == "and" else (one.guard,)):
                        if sub2.decide(g) is True:
                            continue
                        r_ = Seg()
                        r_.kind, r_.poly, r_.path, r_.own = many.kind, many.poly, many.path, many.own
                        r_.lo, r_.hi, r_.single = many.lo, many.hi, many.single
                        r_.guard = band(many.guard, bnot(g), *rest_lits(one.guard, g))
                        sub2.push()
                        sub2.assume(bnot(g))
                        if not sub2.infeasible():
                            rests.append(r_)
                        sub2.pop()
                        sub2.assume(g)
                    if len(rests) > 2:
                        continue
                    h.segs = [s for z, s in enumerate(h.segs) if z not in (x, y)]
                    h.segs[min(x, y):min(x, y)] = [n] + rests
                    again = True
                    break
                if again:
                    break

    def explicit_fn(self, h):
        def explicit(ctx, i, j, *ps):
            T = ps[-1]
            env = dict(zip(h.params, ps))
            if h.ci is not None:
                env[h.ci], env[h.cj] = i, j
            e0 = {x: v for x, v in env.items() if x != h.k}
            self.rec_depth += 1
            if self.rec_depth > MAXDEPTH:
                self.rec_depth = 0
                raise Unsupported("recursion too deep in closed form of " + h.name)
            try:
                for s in reversed(h.segs):
                    if not ctx.truth(s.guard, e0):
                        continue
                    lo, hi = s.lo.subst(e0), s.hi.subst(e0)
                    lo, hi = ctx.canon(lo), ctx.canon(hi)
                    if not ctx.truth(blt(lo, hi)):
                        continue
                    if not ctx.truth(blt(lo, T)):
                        continue
                    if s.kind == "inc" and s.single:
                        prev = norm_base(h, (i, j) + tuple(ps[:-1]) + (lo,), ctx)
                        return prev + norm_poly(s.poly, {**e0, h.k: lo}, ctx)
                    if s.kind == "inc":
                        prev = norm_base(h, (i, j) + tuple(ps[:-1]) + (lo,), ctx)
                        top = T if ctx.truth(ble(T, hi)) else hi
                        return prev + norm_sum("t", lo, top, lambda t: norm_poly(s.poly, {**e0, h.k: t}, ctx), ctx)
                    if s.single:
                        return norm_poly(s.poly, {**e0, h.k: lo}, ctx)
                    top = T if ctx.truth(ble(T, hi)) else hi
                    return norm_poly(s.poly, {**e0, h.k: top - 1}, ctx)
                if h.ci is not None:
                    return norm(nread(h.s0, i, j), {x: v for x, v in e0.items() if x in h.outer}, ctx)
                return norm(h.s0, {x: v for x, v in e0.items() if x in h.outer}, ctx)
            finally:
                self.rec_depth = max(0, self.rec_depth - 1)
        return explicit

    def interp_fn(self, h):
        ex = h.explicit

        def interp(ctx, i, j, *ps):
            if isinstance(h.fin, tuple):
                T = ps[-1]
                env = dict(zip(h.params, ps))
                if h.ci is not None:
                    env[h.ci], env[h.cj] = i, j
                e0 = {x: v for x, v in env.items() if x != h.k}
                fb, seg = h.fin
                if ctx.truth(seg.guard, e0):
                    lo, hi = ctx.canon(seg.lo.subst(e0)), ctx.canon(seg.hi.subst(e0))
                    if ctx.truth(blt(lo, hi)) and ctx.truth(beq(lo, T)):
                        return patom(Atom("arr", (fb, (i, j) + tuple(ps[:-1]), 0), real=fb.real))
            elif h.fin is not None:
                T = ps[-1]
                env = dict(zip(h.params, ps))
                if h.ci is not None:
                    env[h.ci], env[h.cj] = i, j
                e0 = {x: v for x, v in env.items() if x != h.k}
                anyseg, allfull = False, True
                for s in h.segs:
                    if not ctx.truth(s.guard, e0):
                        continue
                    lo, hi = ctx.canon(s.lo.subst(e0)), ctx.canon(s.hi.subst(e0))
                    if not ctx.truth(blt(lo, hi)):
                        continue
                    anyseg = True
                    if not ctx.truth(ble(hi, T)):
                        allfull = False
                if anyseg and allfull:
                    return patom(Atom("arr", (h.fin, (i, j) + tuple(ps[:-1]), 0), real=h.fin.real))
            return ex(ctx, i, j, *ps)
        return interp

    def untouched(self, h, i, j, T, outer_env=None):
        """provably no event of cell (i,j) before T, under the current ctx."""
        ctx = self.ctx
        e0 = {}
        if h.ci is not None:
            e0 = {h.ci: i, h.cj: j}
        for s in h.segs:
            c = band(s.guard.subst(e0), blt(s.lo.subst(e0), s.hi.subst(e0)), blt(s.lo.subst(e0), T))
            if ctx.decide(c) is not False:
                return False
        return True

    def finished(self, h, i, j, T):
        """provably all events of cell (i,j) lie before T."""
        ctx = self.ctx
        e0 = {h.ci: i, h.cj: j} if h.ci is not None else {}
        for s in h.segs:
            c = band(s.guard.subst(e0), blt(s.lo.subst(e0), s.hi.subst(e0)), bnot(ble(s.hi.subst(e0), T)))
            if ctx.decide(c) is not False:
                return False
        return True

    def is_recursive(self, h, H, k, K):
        ctx = self.ctx
        hs = set(id(x) for x in H.values() if x.segs is not None)
        res = False
        for s in h.segs:
            ctx.push()
            ctx.assume(s.guard)
            ctx.assume(ble(s.lo, k))
            ctx.assume(blt(k, s.hi))
            try:
                if self._rec_poly(s.poly, h, hs):
                    res = True
            finally:
                ctx.pop()
        return res

    def _rec_poly(self, poly, h, hs):
        for a in poly.atoms():
            if self._rec_atom(a, h, hs):
                return True
        return False

    def _rec_atom(self, a, h, hs):
        ctx = self.ctx
        if a.kind == "arr" and id(a.args[0]) in hs:
            h2 = a.args[0]
            if h2 is h and h.ci is not None:
                if ctx.decide(band(beq(a.args[1][0], IP.sym(h.ci)), beq(a.args[1][1], IP.sym(h.cj)))) is True:
                    return False
            if h2 is h and h.ci is None:
                return False
            if self.untouched(h2, a.args[1][0], a.args[1][1], a.args[1][-1]):
                return False
            if not self.finished(h2, a.args[1][0], a.args[1][1], a.args[1][-1]):
                self.rawrec = True
            return True
        if a.kind == "S":
            m, d, lo, hi = a.args
            V = IP.sym("@%d" % d)
            ctx.push()
            try:
                ctx.assume(ble(lo, V))
                ctx.assume(blt(V, hi))
                return any(self._rec_atom(b, h, hs) for b, _ in m)
            finally:
                ctx.pop()
        if a.kind in ("app", "inv", "ite"):
            return any(self._rec_poly(p, h, hs) for p in a.args if isinstance(p, Poly))
        return False

    # ------------------------------------------------------ invariant proof
    def verify_loop(self, H, ends, k, K, outer, L):
        ctx = self.ctx
        for key, (kind, end) in ends.items():
            h = H[key]
            outs = tuple(IP.sym(s) for s in outer)
            if kind == "A":
                ci, cj = IP.sym(h.ci), IP.sym(h.cj)
                node = nread(end, ci, cj)
                s0 = nread(h.s0, ci, cj)
            else:
                ci = cj = ZERO
                node, s0 = end, h.s0
            # base: contents before the first iteration
            ctx.push()
            try:
                def ini():
                    d = norm_base(h, (ci, cj) + outs + (ZERO,), ctx) - norm(s0, None, ctx)
                    return self.close(d, [(ci, cj)]) if d.t else d
                rs = cases(ctx, ini)
                bad = [(p, r) for p, r in rs if r.t]
                self.obs.append(Ob("invariant-init", "%s before loop %s" % (h.name, L.header), not bad,
                                   repr(bad[:1]) if bad else "", "normaliser+z3"))
                def step():
                    d = norm(node, None, ctx) - norm_base(h, (ci, cj) + outs + (k + 1,), ctx)
                    if d.t:
                        d = self.close(d, [(ci, cj)])
                    return d
                rs = cases(ctx, step)
                bad = [(p, r) for p, r in rs if r.t]
                self.obs.append(Ob("invariant-step", "%s preserved by loop %s (%d cases)" % (h.name, L.header, len(rs)),
                                   not bad, repr(bad[:1]) if bad else "", "normaliser+z3"))
                if bad:
                    raise Unsupported("loop invariant of %s not preserved: %s" % (h.name, repr(bad[:1])[:1500]))
            finally:
                ctx.pop()

    # ------------------------------------------------------------- closing
    def close(self, d, cells):
        """try to show d == 0 using equalities of indices and hypothesis instances."""
        ctx = self.ctx
        d = self.unify_indices(d)
        if not d.t:
            return d
        dens = [a for m in d.t for a, e in m if a.kind == "inv" or (e < 0 and a.kind == "app" and a.args[0] == "sqrt")]
        if dens:
            r = clear_inv(d)
            if not r.t:
                ctx.nonzero.update(dens)
                return r
        hyps = []
        seen = set()
        work = [d]
        for rnd in range(2):
            new = []
            for p in work:
                for a in list(p.atoms()):
                    self.collect_hyps(a, new, seen)
            if rnd == 0:
                for c in cells:
                    for hf in self.hyps:
                        new.extend(x for x in hf(ctx, *c) if x.t)
            for h in ctx.all_hyps() if rnd == 0 else []:
                new.append(renorm_hyp(h, ctx))
            hyps.extend(new)
            if new:
                r = linear_close(d, hyps)
                if not r.t:
                    return r
            work = new
        if self.hyps:
            r = self.close_swapped(d, hyps)
            if not r.t:
                return r
        # speculative instances of the recursive definitions at goal cells and
        # at cells combined from goal and occurring indices
        fins = {}
        for a in d.atoms():
            for x in deep_atoms(a):
                if x.kind == "arr" and x.args[0].unfold is not None:
                    fins.setdefault(x.args[0], []).append(x)
        split = None
        stages = [[], [], []]
        idxs = []
        for a in d.atoms():
            for x in deep_atoms(a):
                if x.kind == "arr":
                    for y in x.args[1][:2]:
                        if not any("@" in s for s in y.free) and y not in idxs:
                            idxs.append(y)
        bd = lambda p: any("@" in s for s in p.free)
        for b, ats in fins.items():
            rows, cols, rest = [], [], []
            for x in ats:
                i, j, ps = x.args[1][0], x.args[1][1], x.args[1][2:]
                if not bd(i) and i not in rows:
                    rows.append(i)
                if not bd(j) and j not in cols:
                    cols.append(j)
                if not any(bd(z) for z in ps) and ps not in rest:
                    rest.append(ps)
            for ps in rest[:4]:
                for ci, cj in cells:
                    stages[0].append((b, (ci, cj) + ps))
                    for j in cols:
                        stages[1].append((b, (ci, j) + ps))
                    for i in rows:
                        stages[1].append((b, (i, cj) + ps))
                for i in rows[:5]:
                    for j in cols[:5]:
                        stages[1].append((b, (i, j) + ps))
                for u in idxs[:8]:
                    for j in cols[:3] or [c[1] for c in cells]:
                        stages[2].append((b, (u, j) + ps))
                    for i in rows[:3] or [c[0] for c in cells]:
                        stages[2].append((b, (i, u) + ps))
        for sn, stage in enumerate(stages):
            new = []
            for b, idx in stage[:24]:
                idx = tuple(ctx.canon(x) for x in idx)
                at = Atom("arr", (b, idx, 0), real=b.real)
                self.hyp_split = sn == 0
                try:
                    self.collect_hyps(at, new, seen)
                except NeedSplit as ee:
                    if split is None and sn == 0:
                        split = ee
                except Unsupported as ee:
                    if DEBUG: print("spec", at, repr(ee))
                finally:
                    self.hyp_split = False
            if new:
                hyps.extend(new)
                r = linear_close(d, hyps)
                if not r.t:
                    return r
            if split is not None:
                raise split
        r = self.close_swapped(d, hyps)
        if not r.t:
            return r
        if DEBUG: print("D",d,"\nHYPS",hyps)
        return d

    def close_swapped(self, d, hyps):
        """the same with nested sums brought into a canonical order."""
        def nested(p):
            return any(a.kind == "P" and any(b.kind == "P" for b, _ in a.args[0]) for a in p.atoms())
        if not nested(d) and not any(nested(h) for h in hyps):
            return d
        try:
            ds = self.unify_indices(swap_poly(d))
            if not ds.t:
                return ds
            hs = [swap_poly(h) for h in hyps]
        except (RecursionError, ValueError, AssertionError):
            return d
        if DEBUG: print("SWAPPED", ds, "\nHYPS", hs)
        return linear_close(ds, hs)

    def collect_hyps(self, a, new, seen):
        if a.kind == "arr" and a.args[0].unfold is not None:
            key = (a.args[0].key, tuple(x.key for x in a.args[1]))
            if key in seen or any("@" in s for x in a.args[1] for s in x.free):
                return
            b = a.args[0]
            at = Atom("arr", (b, a.args[1], 0), real=b.real)
            u = b.unfold(self.ctx, *a.args[1])
            if u is None:
                return
            seen.add(key)
            if isinstance(u, list):
                for h in u:
                    new.append(h)
                    c = pconj(h)
                    if not (c - h).t == {}:
                        new.append(c)
                return
            h = patom(at) - u
            if h.t:
                new.append(h)
                if not b.real:
                    new.append(pconj(h))
        elif a.kind == "inv":
            for x in a.args[0].atoms():
                self.collect_hyps(x, new, seen)
        elif a.kind == "app":
            for p in a.args[1:]:
                if isinstance(p, Poly):
                    for x in p.atoms():
                        self.collect_hyps(x, new, seen)

    def unify_indices(self, d):
        """identify atoms whose indices are provably equal."""
        ctx = self.ctx
        for _ in range(4):
            groups = {}
            for a in d.atoms():
                if a.kind == "arr":
                    groups.setdefault((a.args[0].key,), []).append(a)
                elif a.kind == "P":
                    groups.setdefault(("P", mono_key(a.args[0])), []).append(a)
            eqs = None
            for g in groups.values():
                for x in range(len(g)):
                    for y in range(x + 1, len(g)):
                        ia = g[x].args[1] if g[x].kind == "arr" else (g[x].args[2],)
                        ib = g[y].args[1] if g[y].kind == "arr" else (g[y].args[2],)
                        for u, v in zip(ia, ib):
                            if u is not v:
                                e = beq(u, v)
                                if ctx.decide(e) is True:
                                    eqs = u - v
                                    break
                        if eqs is not None:
                            break
                    if eqs is not None:
                        break
                if eqs is not None:
                    break
            if eqs is None:
                return d
            for s in sorted(eqs.free):
                c = eqs.coef(s)
                if c in (1, -1):
                    d = subst_poly(d, {s: (IP.sym(s) * c - eqs) * c})
                    break
            else:
                return d
            if not d.t:
                return d
        return d


def rest_lits(guard, g):
    """literals of guard preceding g."""
    r = []
    for x in (guard.args if guard.op == "and" else (guard,)):
        if x is g:
            break
        r.append(x)
    return r


_ra = {}


def renorm_hyp(h, ctx):
    """an equation learnt earlier, under what is known about the indices now"""
    if not ctx.all_isub():
        return h
    try:
        return norm_poly(h, {}, ctx)
    except NeedSplit:
        return h


def reads_array(x):
    """does a node / condition depend on array contents?"""
    if isinstance(x, (N, B)):
        r = _ra.get(x.key)
        if r is None:
            if isinstance(x, N) and x.op in ("rd", "arr"):
                r = True
            else:
                r = any(reads_array(a) for a in x.args)
            _ra[x.key] = r
        return r
    if isinstance(x, IP):
        return any(reads_array(c) for m, _ in x.t for a in m if not isinstance(a, str) for c in a.args)
    if isinstance(x, tuple):
        return any(reads_array(a) for a in x)
    return False


def deep_atoms(a):
    r = [a]
    if a.kind == "S" or a.kind == "P":
        for b, _ in a.args[0]:
            r += deep_atoms(b)
    elif a.kind in ("inv", "app", "ite"):
        for p in a.args:
            if isinstance(p, Poly):
                for b in p.atoms():
                    r += deep_atoms(b)
    return r


def uses(a, target):
    return any(x is target or (x.kind == "arr" and target.kind == "arr" and x.args[0] is target.args[0] and x.args[1] == target.args[1])
               for x in deep_atoms(a))


def o_atom(o):
    """the array atom underlying an 'own cell' polynomial (atom or its conj)."""
    (m, c), = o.t.items()
    return m[0][0]


def clear_neg(p):
    """multiply by atoms with negative exponents."""
    while True:
        mins = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return p
        mult = Poly({tuple(sorted(((a, -e) for a, e in mins.items()), key=lambda ae: ae[0].key)): Fraction(1)})
        p = simp(p * mult)


def clear_inv(p):
    """multiply by the argument of 'inv' atoms (once per atom)."""
    for _ in range(6):
        p = clear_neg(p)
        at = None
        for m in p.t:
            for a, e in m:
                if a.kind == "inv":
                    at = a
        if at is None:
            return p
        q_ = at.args[0]
        mx = max(e for m in p.t for a, e in m if a is at)
        r = PZERO
        for m, c in p.t.items():
            e0 = dict(m).get(at, 0)
            rest = tuple(x for x in m if x[0] is not at)
            r = r + Poly({rest: c}) * ppow(q_, mx - e0)
        p = simp(r)
    return p


def linear_close(d, hyps):
    """reduce d modulo the Q-span of hypotheses multiplied by small monomials."""
    d = clear_inv(d)
    if not d.t:
        return d
    rows = []
    hs = [clear_inv(h) for h in hyps]
    hs = [h for h in hs if h.t]
    # multipliers: 1 and monomials that map a hypothesis monomial onto a goal monomial
    want = list(d.t.keys())
    seen = set()
    frontier = want
    for rnd in range(3):
        newm = []
        for h in hs:
            for hm in h.t:
                for gm in frontier:
                    q_ = mono_div(gm, hm)
                    if q_ is None:
                        continue
                    key = (id(h), mono_key(q_))
                    if key in seen:
                        continue
                    seen.add(key)
                    r = simp(h * Poly({q_: Fraction(1)}))
                    rows.append(r)
                    newm.extend(r.t.keys())
        r = reduce_rows(d, rows)
        if not r.t:
            return r
        frontier = [m for m in set(newm)]
        if len(rows) > 400:
            break
    return d


def mono_div(g, h):
    d = dict(g)
    for a, e in h:
        x = d.get(a, 0) - e
        if (d.get(a, 0) >= 0 and x < 0) or (e < 0):
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].key))


def reduce_rows(d, rows):
    piv = []
    for r in rows:
        r = dict(r.t)
        for pm, pr in piv:
            c = r.get(pm)
            if c:
                for m, x in pr.items():
                    n = r.get(m, 0) - c * x
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
        if r:
            pm = min(r, key=mono_key)
            c = r[pm]
            piv.append((pm, {m: x / c for m, x in r.items()}))
    r = dict(d.t)
    # piv is in echelon order of elimination: reduce repeatedly
    for _ in range(len(piv) + 1):
        ch = False
        for pm, pr in piv:
            c = r.get(pm)
            if c:
                ch = True
                for m, x in pr.items():
                    n = r.get(m, 0) - c * x
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
        if not ch:
            break
    return Poly(r)


NI = N("iunit", ())
import norm as _nm
_old = _nm._norm


def _norm2(n, op, env, ctx):
    if op == "iunit":
        return patom(A_I)
    return _old(n, op, env, ctx)


_nm._norm = _norm2


def parse_fp(s):
    if s.startswith("0x"):
        h = s[2:]
        return Fraction(struct.unpack(">d", bytes.fromhex(h))[0])
    return Fraction(s)
