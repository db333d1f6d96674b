"""Extraction of LLVM IR from the templates in /repo, and a parser for it."""
import os
import re
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PASSES = ("always-inline,function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;"
          "no-hoist-common-insts>,instcombine<no-verify-fixpoint>,sroa,early-cse,simplifycfg,"
          "instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa),globaldce")


class ExtractError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout


def top_copies(txt):
    """the function under contract is entered directly by its wrapper while the
    calls inside it (recursion) stay calls: give each wrapper its own copy of
    the definition of every kept function it calls."""
    defs = {}
    for m in re.finditer(r"^define (?:linkonce_odr|internal)[^@]*@(\"?[\w.$]+\"?)\(.*?^}\n", txt, flags=re.M | re.S):
        defs[m.group(1)] = m.group(0)
    done = set()

    def wrap(m):
        body = m.group(0)

        def call(c):
            sym = c.group(1)
            if sym not in defs or sym + ".top" in done and False:
                return c.group(0)
            done.add(sym)
            return c.group(0).replace("@" + sym, "@" + sym + ".top")
        return re.sub(r"(?:call|invoke) [^@\n]*@(_ZN7tlapack[\w.$]+)\(", call, body)
    txt = re.sub(r"^define [^@\n]*@w_\w+\(.*?^}\n", wrap, txt, flags=re.M | re.S)
    for sym in done:
        d = defs[sym].replace("@" + sym + "(", "@" + sym + ".top(", 1)
        d = re.sub(r" comdat(\(\$[^)]*\))?", "", d, count=1).replace("linkonce_odr", "internal", 1)
        txt += "\n" + d
    return txt


def extract(src_text, workdir, name, keep=(), defines=()):
    """Compile harness text against /repo and return optimised IR text.
    keep: names of tlapack functions left as calls (contracted callees)."""
    os.makedirs(workdir, exist_ok=True)
    cpp = os.path.join(workdir, name + ".cpp")
    ll = os.path.join(workdir, name + ".ll")
    all_ = os.path.join(workdir, name + ".a.ll")
    out = os.path.join(workdir, name + ".o.ll")
    with open(cpp, "w") as f:
        f.write(src_text)
    sh(["clang++", "-std=c++17", "-O1", "-fno-exceptions" if False else "-fexceptions", "-Xclang", "-disable-llvm-passes",
        "-w", "-S", "-emit-llvm", "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/include",
        *["-D" + d for d in defines], cpp, "-o", ll])
    txt = open(ll).read()
    os.unlink(ll)
    txt = re.sub(r"\b(noinline|optnone)\b ?", "", txt)
    kept = []
    txt = top_copies(txt)

    def fix(m):
        line = m.group(0)
        sym = re.search(r"@(\"?[\w.$]+\"?)\(", line).group(1)
        fn = tl_name(sym)
        if fn and fn in keep and not sym.endswith(".top"):
            kept.append(sym)
            return re.sub(r" #(\d+)", r" noinline #\1", line, count=1)
        return re.sub(r" #(\d+)", r" alwaysinline #\1", line, count=1)
    txt = re.sub(r"^define (linkonce_odr|internal).*$", fix, txt, flags=re.M)
    with open(all_, "w") as f:
        f.write(txt)
    sh(["opt", "-S", "-passes=" + PASSES, all_, "-o", out])
    os.unlink(all_)
    r = open(out).read()
    os.unlink(out)
    return r


def tl_name(sym):
    """name of a function directly in namespace tlapack, from its mangled symbol."""
    m = re.match(r"_ZN7tlapack(\d+)", sym.strip('"'))
    if not m:
        return None
    n = int(m.group(1))
    return sym.strip('"')[m.end():m.end() + n]


def legacy_name(sym):
    """name of a function in namespace tlapack::legacy."""
    m = re.match(r"_ZN7tlapack6legacy(\d+)", sym.strip('"'))
    return "legacy::" + sym.strip('"')[m.end():m.end() + int(m.group(1))] if m else None


class Inst:
    __slots__ = ("op", "res", "ty", "args", "extra", "text")

    def __init__(self, op, res, ty, args, extra, text):
        self.op, self.res, self.ty, self.args, self.extra, self.text = op, res, ty, args, extra, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "insts", "succ", "pred", "term")

    def __init__(self, name):
        self.name, self.insts, self.succ, self.pred, self.term = name, [], [], [], None


class Func:
    def __init__(self, name, ret, params, blocks, entry):
        self.name, self.ret, self.params, self.blocks, self.entry = name, ret, params, blocks, entry


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'(%[\w.":$<>~,\- ]+?) = type (.*)$', ln)
            if m:
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'(@[\w.$"]+) = (.*)$', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                f = self.parse_func(lines[i:j + 1])
                self.funcs[f.name] = f
                i = j
            i += 1

    def parse_func(self, lines):
        h = lines[0]
        m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", h)
        name = m.group(1)
        ret = h[:m.start()].strip().split()[-1]
        depth, k = 1, m.end()
        while depth:
            if h[k] == "(":
                depth += 1
            elif h[k] == ")":
                depth -= 1
            k += 1
        params = []
        for p in split_top(h[m.end():k - 1]):
            if p:
                t = p.split()
                params.append((first_type(p), t[-1]))
        blocks = {}
        order = []
        npar = len(params)
        cur = None
        for ln in join_lines(lines[1:-1]):
            if not ln.strip():
                continue
            m = re.match(r'("[^"]+"|[\w.$\-]+):', ln)
            if m:
                cur = Block("%" + m.group(1))
                blocks[cur.name] = cur
                order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%" + str(npar))
                blocks[cur.name] = cur
                order.append(cur.name)
            self.parse_inst(ln.strip(), cur)
        for b in blocks.values():
            for s in b.succ:
                blocks[s].pred.append(b.name)
        return Func(name, ret, params, blocks, order[0])

    def parse_inst(self, s, blk):
        s = re.sub(r"(, ![\w.]+ ![\w]+)+$", "", s)
        s = re.sub(r"(, ![\w.]+ ![\w]+)+", "", s)
        res = None
        m = re.match(r'(%(?:"[^"]+"|[\w.$\-]+)) = (.*)$', s)
        body = s
        if m:
            res, body = m.group(1), m.group(2)
        w = body.split()
        op = w[0]
        if op in ("tail", "musttail", "notail"):
            body = body[len(op):].strip()
            w = body.split()
            op = w[0]
        I = None
        if op == "br":
            if w[1] == "label":
                blk.succ = [w[2]]
                I = Inst("br", None, None, [], None, s)
            else:
                m = re.match(r"br i1 (\S+), label (%(?:\"[^\"]+\"|[\w.$\-]+)), label (%(?:\"[^\"]+\"|[\w.$\-]+))", body)
                blk.succ = [m.group(2), m.group(3)]
                I = Inst("cbr", None, None, [m.group(1)], None, s)
        elif op == "switch":
            m = re.match(r"switch (\w+) (\S+), label (%(?:\"[^\"]+\"|[\w.$\-]+)) \[(.*)\]", body)
            cs = re.findall(r"\w+ (-?\w+), label (%(?:\"[^\"]+\"|[\w.$\-]+))", m.group(4))
            blk.succ = [m.group(3)] + [c[1] for c in cs]
            I = Inst("switch", None, m.group(1), [m.group(2)], cs, s)
        elif op == "ret":
            t = body[3:].strip()
            ty = first_type(t)
            I = Inst("ret", None, ty, [t[len(ty):].strip()] if ty != "void" else [], None, s)
        elif op == "unreachable":
            I = Inst("unreachable", None, None, [], None, s)
        elif op == "phi":
            ty = first_type(body[4:])
            rest = body[4:].strip()[len(ty):]
            inc = re.findall(r"\[ (.+?), (%(?:\"[^\"]+\"|[\w.$\-]+)) \]", rest)
            I = Inst("phi", res, ty, inc, None, s)
        elif op == "icmp" or op == "fcmp":
            m = re.match(r"[if]cmp (?:\w+ )??(\w+) (\S+) (\S+), (\S+)$", body)
            I = Inst(op, res, m.group(2), [m.group(3), m.group(4)], m.group(1), s)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                    "fadd", "fsub", "fmul", "fdiv", "frem"):
            m = re.match(r"\w+ (?:(?:nuw|nsw|exact|disjoint) )*(\S+) (\S+), (\S+)$", body)
            I = Inst(op, res, m.group(1), [m.group(2), m.group(3)], None, s)
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptosi", "fptoui",
                    "fpext", "fptrunc", "freeze", "fneg"):
            m = re.match(r"\w+ (?:(?:nneg|nuw|nsw) )*(\S+) (\S+)(?: to (\S+))?$", body)
            I = Inst(op, res, m.group(3) or m.group(1), [m.group(2)], m.group(1), s)
        elif op == "select":
            m = re.match(r"select i1 (\S+), (\S+) (\S+), (\S+) (\S+)$", body)
            if not m:
                raise ExtractError("select: " + s)
            I = Inst("select", res, m.group(2), [m.group(1), m.group(3), m.group(5)], None, s)
        elif op == "load":
            b = re.sub(r", align \d+", "", body)
            b = re.sub(r"^load volatile", "load", b)
            ty = first_type(b[4:])
            a = b[4:].strip()[len(ty):].strip().lstrip(",").strip()
            I = Inst("load", res, ty, [a[3:].strip()], None, s)
        elif op == "store":
            b = re.sub(r", align \d+", "", body)
            ty = first_type(b[5:])
            rest = b[5:].strip()[len(ty):].strip()
            parts = split_top(rest)
            I = Inst("store", None, ty, [parts[0].strip(), parts[1].strip()[3:].strip()], None, s)
        elif op == "alloca":
            ty = first_type(body[6:])
            m = re.search(r", i64 (\S+?),? ", body + " ")
            I = Inst("alloca", res, ty, [], None, s)
        elif op == "getelementptr":
            b = re.sub(r"^getelementptr (inbounds |nuw |nusw )*", "", body)
            ty = first_type(b)
            parts = split_top(b[len(ty):].strip().lstrip(","))
            ops = [(first_type(p.strip()), p.strip()[len(first_type(p.strip())):].strip()) for p in parts]
            I = Inst("gep", res, ty, ops, None, s)
        elif op in ("call", "invoke"):
            m = re.search(r"(@(?:\"[^\"]+\"|[\w.$]+)|%[\w.]+|asm)\(", body)
            if not m:
                raise ExtractError("call: " + s)
            callee = m.group(1)
            depth, k = 1, m.end()
            while depth:
                if body[k] == "(":
                    depth += 1
                elif body[k] == ")":
                    depth -= 1
                k += 1
            args = []
            for p in split_top(body[m.end():k - 1]):
                p = p.strip()
                if p:
                    args.append((first_type(p), last_operand(p)))
            rty = body[len(op):m.start()].strip()
            rty = re.sub(r"^(fastcc |noundef |nonnull |zeroext |signext |noalias |align \d+ |dereferenceable\(\d+\) |returned )*", "", rty)
            rty = first_type(rty) if rty else "void"
            I = Inst("call", res, rty, args, callee, s)
            if op == "invoke":
                m = re.search(r"to label (%(?:\"[^\"]+\"|[\w.$\-]+)) unwind label (%(?:\"[^\"]+\"|[\w.$\-]+))", body)
                blk.succ = [m.group(1)]
                blk.insts.append(I)
                I = Inst("br", None, None, [], None, s)
        elif op in ("extractvalue", "insertvalue"):
            b = body[len(op):].strip()
            ty = first_type(b)
            parts = split_top(b[len(ty):].strip())
            I = Inst(op, res, ty, [p.strip() for p in parts], None, s)
        elif op in ("landingpad", "cleanup", "resume", "catch", "fence"):
            I = Inst("unreachable" if op == "resume" else "nop", res, None, [], None, s)
        else:
            raise ExtractError("unknown instruction: " + s)
        blk.insts.append(I)
        if I.op in ("br", "cbr", "switch", "ret", "unreachable"):
            blk.term = I

    # ------------------------------------------------------------- layout
    def sizeof(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        """(size, align, [(offset, fieldtype)] or None)"""
        ty = ty.strip()
        m = re.match(r"i(\d+)$", ty)
        if m:
            n = max(1, int(m.group(1)) // 8)
            return n, n, None
        if ty == "ptr" or ty == "double":
            return 8, 8, None
        if ty == "float":
            return 4, 4, None
        if ty == "x86_fp80":
            return 16, 16, None
        if ty.startswith("["):
            m = re.match(r"\[(\d+) x (.*)\]$", ty)
            s, a, _ = self.layout(m.group(2))
            return int(m.group(1)) * s, a, [(k * s, m.group(2)) for k in range(min(int(m.group(1)), 4096))]
        if ty.startswith("%"):
            return self.layout(self.types[ty])
        if ty.startswith("{") or ty.startswith("<{"):
            packed = ty.startswith("<")
            inner = ty.strip("<>")[1:-1]
            off, al, f = 0, 1, []
            for t in split_top(inner):
                t = t.strip()
                if not t:
                    continue
                s, a, _ = self.layout(t)
                if packed:
                    a = 1
                off = (off + a - 1) // a * a
                f.append((off, t))
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al, f
        raise ExtractError("layout of " + ty)


def join_lines(lines):
    """join multi-line instructions (switch)."""
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        c = ln.find(" ; preds")
        c2 = re.sub(r"\s+; preds = .*$", "", ln)
        ln = c2
        if re.match(r"\s*;", ln):
            i += 1
            continue
        if ln.rstrip().endswith("[") and "switch" in ln:
            while not ln.rstrip().endswith("]"):
                i += 1
                ln += " " + lines[i].strip()
        if " invoke " in ln or ln.strip().startswith("invoke "):
            if "unwind label" not in ln:
                i += 1
                ln += " " + lines[i].strip()
        if "landingpad" in ln:
            while i + 1 < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i + 1]):
                i += 1
        out.append(ln)
        i += 1
    return out


def split_top(s):
    parts, depth, cur, inq = [], 0, "", False
    for ch in s:
        if ch == '"':
            inq = not inq
        if not inq:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                parts.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        parts.append(cur.strip())
    return parts


def first_type(s):
    s = s.strip()
    if s[0] in "[{<":
        depth = 0
        inq = False
        for k, ch in enumerate(s):
            if ch == '"':
                inq = not inq
            if inq:
                continue
            if ch in "[{<(":
                depth += 1
            elif ch in "]}>)":
                depth -= 1
                if depth == 0:
                    return s[:k + 1]
    m = re.match(r'(%"[^"]+"|%[\w.:$]+|\w+)', s)
    return m.group(1)


def last_operand(p):
    """operand of 'type attrs... operand'"""
    if p.endswith(")") and "getelementptr" in p:
        return p[p.index("getelementptr"):]
    t = p.split()
    return t[-1]
