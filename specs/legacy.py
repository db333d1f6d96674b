"""Contracts of the pointer interface (legacy_api): every routine does what its
documentation says, for both storage layouts, every leading dimension and every
stride.  The pointer arguments stay pointers: the verifier reads the element an
address denotes off the offset polynomial (see raw_decode in engine/task.py)."""
from task import *
from blas import op, tri, herm, tri_in, tri_acc, UP

LOP = {"N": "Op::NoTrans", "T": "Op::Trans", "C": "Op::ConjTrans"}
LUP = {"U": "Uplo::Upper", "L": "Uplo::Lower"}
LSD = {"L": "Side::Left", "R": "Side::Right"}
LDG = {"N": "Diag::NonUnit", "U": "Diag::Unit"}
LAY = {"c": "Layout::ColMajor", "r": "Layout::RowMajor"}
STRIDE = {"1": ("v", "1", "1"), "s": ("v", "%s", "%s"), "m": ("b", "%s", "-%s"), "b": ("b", "1", "-1")}


def mat(a, D, lay, t="C"):
    return (a, "P", D, t, ("cm" if lay == "c" else "rm", "ld" + a))


def vec(a, d, inc, t="C"):
    """inc: '1' unit stride, 's' stride >1, 'm' negative stride < -1, 'b' stride -1"""
    k, s, c = STRIDE[inc]
    if "%" in s:
        s, c = s % ("s" + a), "int_t(" + c % ("s" + a) + ")"
    return (a, "P", (d,), t, (k, s)), c


def ltask(name, dims, scalars, arrays, code, **kw):
    ints = []
    pres = []
    for x in arrays:
        h = x[4]
        if h[0] in ("cm", "rm"):
            ints.append(h[1])
            d = x[2][0] if h[0] == "cm" else x[2][1]
            pres.append((h[1], d))
        elif not h[1].isdigit():
            ints.append(h[1])
            pres.append((h[1], 2))

    def pre(v):
        r = []
        for l, d in pres:
            r.append(ble(ip(d) if isinstance(d, int) else getattr(v, d), getattr(v, l)))
            r.append(ble(ZERO, getattr(v, l)))
        return r
    return Task("l_" + name, dims, scalars, arrays, "using legacy::int_t; " + code, ints=" ".join(ints), pre=pre, **kw)


def zero(x):
    return bscmp("eq", x, NZERO)


def gemm_contract(E, fn, A, I, pc, st):
    """what the column-major legacy::gemm does (proved by the l_gemm_c tasks), for
    row-major arrays read as transposed column-major ones."""
    lay, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc = A
    if not lay.is_const() or lay.cval() != ord("C"):
        raise Unsupported("legacy::gemm with another layout")
    o = [{ord(x): x for x in "NTC"}[y.cval()] for y in (ta, tb)]
    S = E.sc

    def view(p, ld, rows, cols):
        ar = E.arrays[p[1]]
        if p[0] != "raw" or p[2] is not ZERO or ar.how[0] != "rm":
            raise Unsupported("argument of legacy::gemm")
        E.oblige("call", "the leading dimension passed on is the one given", beq(ld, ar.ld))
        E.oblige("call", "the matrix passed on has the given shape", band(beq(rows, ar.shape[1]), beq(cols, ar.shape[0])))
        st0 = st.arrays[p[1]]
        return lambda i, j: nread(st0, j, i)
    fa = op(view(a, lda, *((m, k) if o[0] == "N" else (k, m))), o[0])
    fb = op(view(b, ldb, *((k, n) if o[1] == "N" else (n, k))), o[1])
    fc = view(c, ldc, m, n)
    val = lambda j, i: nadd(nmul(S(be), fc(i, j)), nmul(S(al), nsum(ZERO, k, lambda l: nmul(fa(i, l), fb(l, j)))))
    st.arrays[c[1]] = upd(st.arrays[c[1]], lambda j, i: band(ble(ZERO, i), blt(i, m), ble(ZERO, j), blt(j, n)), val)
    return None


def lgemm_tasks():
    import blas
    r = []
    for t in blas.gemm_tasks():
        if t.name[7] != "b":
            continue
        a, b = t.name[5], t.name[6]
        for lay in "cr":
            r.append(ltask("gemm_%s%s%s" % (lay, a, b), "m n k", t.scalars, [mat(x, d, lay) for x, _, d, _ in t.arrays],
                           "legacy::gemm(%s,%s,%s,m,n,k,alpha,A,ldA,B,ldB,beta,C,ldC);" % (LAY[lay], LOP[a], LOP[b]),
                           post=t.post, fn="legacy::gemm", contracts={"legacy::gemm": gemm_contract} if lay == "r" else None))
    return r


VINC = {1: ["1", "s", "m"], 2: ["11", "sm", "mb"]}


def conv(t, args, dims=None, incs=None, lays="cr", fn=None, post=None, tag="", hd=".h", **kw):
    """the tasks about the pointer version of a view routine: same contract."""
    r = []
    vs = [x for x in t.arrays if x[1] == "V"]
    ms = [x for x in t.arrays if x[1] == "M"]
    for lay in (lays if ms else "c"):
        for ic in (incs or VINC[len(vs)]) if vs else [""]:
            ar, nm, k = [], {}, 0
            for x, kind, d, ty in t.arrays:
                if kind == "M":
                    ar.append(mat(x, d, lay, ty))
                    nm[x] = "%s,ld%s" % (x, x)
                else:
                    m, c = vec(x, d[0], ic[k], ty)
                    k += 1
                    ar.append(m)
                    nm[x] = "%s,%s" % (x, c)
            f = fn or t.fn
            code = "legacy::%s(%s);" % (f, args.format(lay=LAY[lay], **nm))
            if t.ret:
                code = "return legacy::%s(%s)%s;" % (f, args.format(lay=LAY[lay], **nm), ".h" if t.ret == "H" else "")
            k2 = dict(post=post or t.post, eqs=t.eqs, access=t.access, waccess=t.waccess, ret=t.ret, retpost=t.retpost)
            k2.update(kw)
            x = (ltask("%s%s%s%s" % (t.name.replace("_", ""), tag, "_" + lay if ms else "", "_" + ic if vs else ""), " ".join(t.dims),
                           t.scalars, ar, code, fn="legacy::" + f, **k2))
            if t.pre:
                x.pre = (lambda a, b: lambda v: a(v) + b(v))(x.pre, t.pre)
            r.append(x)
    return r


def quick(t, arr, cond, old):
    """contract with the documented early return: when cond holds the result is old."""
    f = t.post[arr]
    return {arr: lambda v, i, j: nite(cond(v), old(v, i, j), f(v, i, j))}


def lblas3_tasks():
    import blas
    r = []
    for t in blas.symm_tasks():
        if t.name.endswith("b"):
            sd, u = t.name[5], t.name[6]
            r += conv(t, "{lay},%s,%s,m,n,alpha,{A},{B},beta,{C}" % (LSD[sd], LUP[u]))
    for t in blas.rk_tasks():
        if not t.name.endswith("b"):
            continue
        u, o = t.name[-3], t.name[-2]
        two = "2k" in t.name
        post = t.post
        if t.name.startswith("he"):
            # the imaginary parts of the diagonal are assumed to be zero; they
            # are kept when no product is added
            post = quick(t, "C", lambda v: bor(zero(v.alpha), band(beq(v.k, ZERO), bscmp("eq", v.beta, NONE_))), lambda v, i, j, u=u: nite(tri_in(u)(i, j), nmul(v.beta, v.C(i, j)), v.C(i, j)))
        r += conv(t, "{lay},%s,%s,n,k,alpha,{A},%sbeta,{C}" % (LUP[u], LOP[o], "{B}," if two else ""), post=post)
    for t in blas.trmm_tasks():
        sd, u, o, d = t.name[5:9]
        r += conv(t, "{lay},%s,%s,%s,%s,m,n,alpha,{A},{B}" % (LSD[sd], LUP[u], LOP[o], LDG[d]))
    return r


def ltrsm_tasks():
    import blas
    r = []
    for t in blas.trsm_tasks():
        sd, u, o, d = t.name[5:9]
        r += conv(t, "{lay},%s,%s,%s,%s,m,n,alpha,{A},{B}" % (LSD[sd], LUP[u], LOP[o], LDG[d]))
    return r


def lblas2_tasks():
    import blas
    r = []
    for t in blas.trv_tasks():
        u, o, d = t.name[5:8]
        if o != "J":
            r += conv(t, "{lay},%s,%s,%s,n,{A},{x}" % (LUP[u], LOP[o], LDG[d]), incs=["1", "m"] if o != "C" else None)
    for t in blas.blas2_tasks():
        f = t.fn
        if f == "gemv" and t.name[5] != "J" and t.name.endswith("b"):
            # with an empty sum or an empty result the call returns at once (m = 0 or n = 0)
            post = quick(t, "y", lambda v: bor(beq(v.m, ZERO), beq(v.n, ZERO)), lambda v, i, j: v.y(i))
            r += conv(t, "{lay},%s,m,n,alpha,{A},{x},beta,{y}" % LOP[t.name[5]], post=post)
        elif f in ("ger", "geru"):
            r += conv(t, "{lay},m,n,alpha,{x},{y},{A}")
        elif f in ("hemv", "symv") and t.name.endswith("b"):
            r += conv(t, "{lay},%s,n,alpha,{A},{x},beta,{y}" % LUP[t.name[5]])
        elif f in ("her", "syr"):
            post = quick(t, "A", lambda v: zero(v.alpha), lambda v, i, j: v.A(i, j)) if f == "her" else t.post
            r += conv(t, "{lay},%s,n,alpha,{x},{A}" % LUP[t.name[-1]], post=post)
        elif f in ("her2", "syr2"):
            post = quick(t, "A", lambda v: zero(v.alpha), lambda v, i, j: v.A(i, j)) if f == "her2" else t.post
            r += conv(t, "{lay},%s,n,alpha,{x},{y},{A}" % LUP[t.name[-1]], post=post)
    return r


def lblas1_tasks():
    import blas
    r = []
    A16 = [a + b for a in "1smb" for b in "1smb"]
    for t in blas.blas1_tasks():
        f = t.fn
        if f == "axpy":
            r += conv(t, "n,alpha,{x},{y}", incs=A16)
        elif f in ("copy", "swap", "dot", "dotu"):
            r += conv(t, "n,{x},{y}", incs=A16 if f == "swap" else None)
        elif f == "scal":
            r += conv(t, "n,alpha,{x}", incs="1s")
        elif f == "rot":
            r += conv(t, "n,{x},{y},c,s")
        elif f == "asum":
            r += conv(t, "n,{x}", incs="1s")
    return r


INC = ["legacy_api/blas.hpp"]
