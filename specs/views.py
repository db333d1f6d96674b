"""Contracts of the array views (legacyArray plugin, base array classes): an
entry of a view is the entry of the original array that the call names, for
every shape, leading dimension, stride and index."""
from task import *
from legacy import mat, vec, ltask

LT = {"c": "Layout::ColMajor", "r": "Layout::RowMajor"}


def acc_tasks(name, lay, build, shape, where, params, pre, consts=True, dims="m n", arr=None, mk=None, one=False):
    """write through an entry of the view: exactly the entry where(v) changes;
    read through the view of a const array: exactly that entry's value."""
    r = []
    arr = arr or [mat("A", ("m", "n"), lay)]
    mk = mk or "LegacyMatrix<VC,idx,%s> M(m,n,A,ldA);" % LT[lay]
    idxs = "idx(ii)" if one else "idx(ii),idx(jj)"
    acc = "[%s]" % idxs if one else "(%s)" % idxs
    sh = " ".join("v_assert(%s == idx(%s), %d);" % (g, e, 40 + k) for k, (g, e) in enumerate(shape))
    ints = params + (" ii" if one else " ii jj")

    def full(v):
        return pre(v) + [ble(ZERO, v.ii)] + ([] if one else [ble(ZERO, v.jj)]) + [ble(ZERO, getattr(v, p)) for p in params.split()]

    def post(v, i, j):
        x, y = where(v)
        return nite(band(beq(i, x), beq(j, y)), v.val, v.A(i, j))
    for c in ((0, 1) if consts else (0,)):
        code = mk + (" const auto& Mc = M; " if c else " ") + build.replace("$", "Mc" if c else "M") + " " + sh
        if c:
            t = vtask("%s_%s_get" % (name, lay), dims, [("val", "C")], arr, code + " return V%s.h;" % acc, ints, full, ret="H",
                      retpost=lambda v, x, i: [("the entry named by the call", (x, v.A(*where(v))))], fn="slice")
        else:
            t = vtask("%s_%s_set" % (name, lay), dims, [("val", "C")], arr, code + " V%s = val;" % acc, ints, full, post={"A": post}, fn="slice")
        t.fn = name.split("_")[0] + "(" + ("Vector" if arr[0][4][0] in "vb" else "Matrix") + ")"
        r.append(t)
    return r


def vtask(name, dims, scalars, arrays, code, ints, pre, **kw):
    t = ltask(name, dims, scalars, arrays, code, **kw)
    t.name = "v_" + name
    t.ints = t.ints + ints.split()
    p0 = t.pre
    t.pre = lambda v: p0(v) + pre(v)
    return t


def view_tasks():
    r = []
    for L in "cr":
        A = lambda *a, **k: r.extend(acc_tasks(*a, **k))
        P = lambda a, b: "std::pair<idx,idx>{idx(%s),idx(%s)}" % (a, b)
        rng = lambda v: [ble(v.a, v.b), ble(v.b, v.m), ble(v.c, v.d), ble(v.d, v.n)]
        A("elem", L, "auto& V = $;", [("nrows(V)", "m"), ("ncols(V)", "n"), ("size(V)", "m*n")], lambda v: (v.ii, v.jj), "", lambda v: [blt(v.ii, v.m), blt(v.jj, v.n)])
        A("slice", L, "auto V = slice($,%s,%s);" % (P("a", "b"), P("c", "d")), [("nrows(V)", "b-a"), ("ncols(V)", "d-c")],
          lambda v: (v.a + v.ii, v.c + v.jj), "a b c d", lambda v: rng(v) + [blt(v.ii, v.b - v.a), blt(v.jj, v.d - v.c)])
        A("rows", L, "auto V = rows($,%s);" % P("a", "b"), [("nrows(V)", "b-a"), ("ncols(V)", "n")],
          lambda v: (v.a + v.ii, v.jj), "a b", lambda v: [ble(v.a, v.b), ble(v.b, v.m), blt(v.ii, v.b - v.a), blt(v.jj, v.n)])
        A("cols", L, "auto V = cols($,%s);" % P("c", "d"), [("nrows(V)", "m"), ("ncols(V)", "d-c")],
          lambda v: (v.ii, v.c + v.jj), "c d", lambda v: [ble(v.c, v.d), ble(v.d, v.n), blt(v.ii, v.m), blt(v.jj, v.d - v.c)])
        A("slicerow", L, "auto V = slice($,idx(a),%s);" % P("c", "d"), [("size(V)", "d-c")],
          lambda v: (v.a, v.c + v.ii), "a c d", lambda v: [blt(v.a, v.m), ble(v.c, v.d), ble(v.d, v.n), blt(v.ii, v.d - v.c)], one=True)
        A("slicecol", L, "auto V = slice($,%s,idx(c));" % P("a", "b"), [("size(V)", "b-a")],
          lambda v: (v.a + v.ii, v.c), "a b c", lambda v: [blt(v.c, v.n), ble(v.a, v.b), ble(v.b, v.m), blt(v.ii, v.b - v.a)], one=True)
        A("row", L, "auto V = row($,idx(a));", [("size(V)", "n")], lambda v: (v.a, v.ii), "a", lambda v: [blt(v.a, v.m), blt(v.ii, v.n)], one=True)
        A("col", L, "auto V = col($,idx(c));", [("size(V)", "m")], lambda v: (v.ii, v.c), "c", lambda v: [blt(v.c, v.n), blt(v.ii, v.m)], one=True)
        A("diag", L, "auto V = diag($,int(a));", [("size(V)", "std::min(m+idx(a),n)-idx(a)")], lambda v: (v.ii, v.a + v.ii), "a",
          lambda v: [blt(v.a, v.n), blt(v.ii, v.m), blt(v.ii + v.a, v.n)], one=True)
        A("diagsub", L, "auto V = diag($,-int(a));", [("size(V)", "std::min(m,n+idx(a))-idx(a)")], lambda v: (v.a + v.ii, v.ii), "a",
          lambda v: [blt(v.a, v.m), blt(v.ii, v.n), blt(v.ii + v.a, v.m)], one=True)
        A("transpose", L, "auto V = transpose_view($);", [("nrows(V)", "n"), ("ncols(V)", "m")], lambda v: (v.jj, v.ii), "",
          lambda v: [blt(v.jj, v.m), blt(v.ii, v.n)])
        # views of views
        A("rowslice", L, "auto W = row($,idx(a)); auto V = slice(W,%s);" % P("c", "d"), [("size(V)", "d-c")],
          lambda v: (v.a, v.c + v.ii), "a c d", lambda v: [blt(v.a, v.m), ble(v.c, v.d), ble(v.d, v.n), blt(v.ii, v.d - v.c)], one=True)
        A("transslice", L, "auto W = transpose_view($); auto V = slice(W,%s,%s);" % (P("c", "d"), P("a", "b")), [("nrows(V)", "d-c"), ("ncols(V)", "b-a")],
          lambda v: (v.a + v.jj, v.c + v.ii), "a b c d", lambda v: rng(v) + [blt(v.jj, v.b - v.a), blt(v.ii, v.d - v.c)])
    for inc in "1smb":
        m, c = vec("A", "n", inc)
        dirn = "Direction::Forward" if inc in "1s" else "Direction::Backward"
        mk = "LegacyVector<VC,idx,std::int64_t,%s> M(n,A,%s);" % (dirn, c if inc in "1s" else c.replace("-", ""))
        k = dict(dims="n", arr=[m], mk=mk, one=True)
        r += acc_tasks("velem", inc, "auto& V = $;", [("size(V)", "n")], lambda v: (v.ii, ZERO), "", lambda v: [blt(v.ii, v.n)], **k)
        r += acc_tasks("vslice", inc, "auto V = slice($,std::pair<idx,idx>{idx(a),idx(b)});", [("size(V)", "b-a")], lambda v: (v.a + v.ii, ZERO), "a b",
                       lambda v: [ble(v.a, v.b), ble(v.b, v.n), blt(v.ii, v.b - v.a)], **k)
    return r


INC = ["legacy_api/base/legacyArray.hpp"]
