"""Contracts of the workspace descriptions: what a query adds up to is enough room for each part."""
from blas import *

INC = ["base/workspace.hpp"]
KEEP = ()


def wi(x, vec, cont):
    a = "%s1" % x, "%s2" % x
    return "WorkInfo %s%s; %s.isContiguous = %s;" % (x, "(m%s)" % x if vec else "(m%s, n%s)" % (x, x), x, "true" if cont else "false")


def info_tasks():
    r = []
    for va in (0, 1):
        for vb in (0, 1):
            for ca in (0, 1):
                for cb in (0, 1):
                    nm = "%s%s_%s%s" % ("mv"[va], "mv"[vb], "sc"[ca], "sc"[cb])
                    sa = lambda v, va=va: v.ma if va else v.ma * v.na
                    sb = lambda v, vb=vb: v.mb if vb else v.mb * v.nb
                    head = wi("a", va, ca) + wi("b", vb, cb)
                    for op, code, val in (("minmax", "a.minMax(b);", lambda v, sa=sa, sb=sb: imax(sa(v), sb(v))), ("add", "a += b;", lambda v, sa=sa, sb=sb: sa(v) + sb(v))):
                        r.append(Task("wi_%s_%s" % (op, nm), "ma na mb nb", [], [], head + code + "return a.size();", ret="idx",
                                      retpost=lambda v, x, i, val=val: [("size", beq(x, val(v)))], fn="WorkInfo::" + {"minmax": "minMax", "add": "operator+="}[op]))
                        if ca or cb:
                            big = lambda v, sa=sa, sb=sb, ca=ca, cb=cb: bor(*([blt(ZERO, sa(v))] if ca else []), *([blt(ZERO, sb(v))] if cb else []))
                            r.append(Task("wi_%s_cont_%s" % (op, nm), "ma na mb nb", [], [], head + code + "return a.isContiguous;", ret="idx",
                                          retpost=lambda v, x, i, big=big: [("stays contiguous when a nonempty part is", bor(bnot(big(v)), beq(x, IP.const(1))))], fn="WorkInfo::" + {"minmax": "minMax", "add": "operator+="}[op]))
    for va in (0, 1):
        for ca in (0, 1):
            r.append(Task("wi_transpose_%s%s" % ("mv"[va], "sc"[ca]), "ma na", [], [], wi("a", va, ca) + "WorkInfo b = a.transpose(); return b.size();", ret="idx",
                          retpost=lambda v, x, i, va=va: [("size", beq(x, v.ma if va else v.ma * v.na))], fn="WorkInfo::transpose"))
            if ca:
                r.append(Task("wi_transpose_cont_%s%s" % ("mv"[va], "sc"[ca]), "ma na", [], [], wi("a", va, ca) + "WorkInfo b = a.transpose(); return b.isContiguous;", ret="idx",
                              retpost=lambda v, x, i, va=va: [("contiguous", beq(x, IP.const(1)))], fn="WorkInfo::transpose"))
    return r
