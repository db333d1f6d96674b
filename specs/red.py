"""Two-sided reductions by Householder reflectors (Hessenberg, bidiagonal):
the array is the recursively defined result of applying the stored reflectors
from both sides to the entry matrix."""
from contracts import *
from blas import *
from ghost import *
import lap1
import hh
import qr


def apply_left(G, x, tau, M, i, j):
    """row i, column j of (I - tau x x^H) G"""
    return nsub(G(i, j), nmul(tau, x(i), nsum(ZERO, M, lambda l: nmul(nconj(x(l)), G(l, j)))))


def apply_right(G, x, tau, M, i, j):
    """row i, column j of G (I - tau x x^H)"""
    return nsub(G(i, j), nmul(tau, nconj(x(j)), nsum(ZERO, M, lambda l: nmul(G(i, l), x(l)))))


def gehd2_tasks():
    cnt = lambda v: imax(v.ihi - v.ilo - 1, ZERO)

    def vec(v, s, V):
        return lambda l: nite(beq(l, s + 1), NONE_, nite(band(blt(s + 1, l), blt(l, v.ihi)), V(l), NZERO))

    def right(v, G, s, x, tau):
        return lambda i, j: nite(blt(i, v.ihi), apply_right(G, x, tau, v.n, i, j), G(i, j))

    def setup(v):
        if not hasattr(v, "_gho"):
            v._V, v._TAU, v._BETA = Skolem("V"), Skolem("TAU"), Skolem("BETA")

            def step(G, t, i, j):
                s = v.ilo + t
                x, tau = vec(v, s, lambda l: v._V(t, l)), v._TAU(t)
                R = right(v, G, s, x, tau)
                return nite(blt(s, j), apply_left(R, x, nconj(tau), v.n, i, j), R(i, j))
            v._gho = Ghost("G", v.A, step)
        return v._gho

    def contents(v, t, i, j):
        g = setup(v)
        p = j - v.ilo
        done = band(ble(v.ilo, j), blt(p, t))
        st = band(blt(j + 1, i), blt(i, v.ihi))
        return nite(done, nite(st, v._V(p, i), nite(beq(i, j + 1), v._BETA(p), g.at(p)(i, j))), g.at(t)(i, j))

    def reduced(v, t, i, j, V, tau, beta):
        """the reflector of the step, applied from the left, reduces its column"""
        s = v.ilo + t
        x = vec(v, s, V)
        return ("reflector of the step reduces its column", band(blt(s, i), blt(i, v.ihi), beq(j, s)),
                apply_left(setup(v).at(t), x, nconj(tau), v.n, i, j), nite(beq(i, s + 1), beta, NZERO), [(i, j)])
    inv = LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, cnt(v))], bysteps=True, variant=lambda v, t: cnt(v) - t,
                  posts={"A": lambda v, ts, i, j: contents(v, ts[0], i, j),
                         "tau": lambda v, ts, i, j: nite(band(ble(v.ilo, i), blt(i - v.ilo, ts[0])), v._TAU(i - v.ilo), v.tau(i))},
                  ghosts=lambda v: [setup(v)],
                  skolem=lambda v, ts: [(v._V, lambda a, j: v.At(a, v.ilo + ts[0])), (v._TAU, lambda i, j: v.taut(v.ilo + ts[0])),
                                        (v._BETA, lambda i, j: v.At(v.ilo + ts[0] + 1, v.ilo + ts[0]))],
                  each=lambda v, ts, i, j: [reduced(v, ts[0], i, j, lambda a: v._V(ts[0], a), v._TAU(ts[0]), v._BETA(ts[0]))])

    def eqs(v, i, j):
        if i is None:
            return ["A", "tau"]
        inn = band(ble(ZERO, i), blt(i, v.n), ble(ZERO, j), blt(j, v.n))
        return [("H and the stored reflectors", inn, v.A1(i, j), contents(v, cnt(v), i, j), [(i, j)]),
                ("stored scalars", band(ble(ZERO, i), blt(i, cnt(v)), beq(j, ZERO)), v.tau1(v.ilo + i), v._TAU(i), [(i, j)])]
    return [Task("gehd2", "n ilo ihi k", [], [("A", "M", ("n", "n"), "C"), ("tau", "V", ("k",), "C")], "return gehd2(ilo, ihi, A, tau);", ret="int",
                 pre=lambda v: [ble(v.n - 1, v.k), ble(v.ilo, v.ihi), ble(v.ihi, v.n)], setup=lambda v, E: setup(v),
                 retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs, loops=[inv], fn="gehd2", contracts=qr.CON)]


def gebd2_tasks():
    """one description of both forms: up (m >= n): column reflector of step s
    from row s, row reflector from column s+1; down (m < n): the other way."""
    def form(v, up):
        key = "_f%d" % up
        if not hasattr(v, key):
            class F:
                pass
            f = F()
            f.V, f.W, f.TV, f.TW, f.D, f.E = (Skolem(x + str(int(up))) for x in ("V", "W", "TV", "TW", "D", "E"))
            c0, r0 = (ZERO, ONE) if up else (ONE, ZERO)
            f.x = lambda s, V: lambda l: nite(beq(l, s + c0), NONE_, nite(blt(s + c0, l), V(l), NZERO))
            f.y = lambda s, W: lambda l: nconj(nite(beq(l, s + r0), NONE_, nite(blt(s + r0, l), W(l), NZERO)))

            def first(G, s, V, tv, W, tw):
                """the whole matrix after the first half of the step"""
                if up:
                    x = f.x(s, V)
                    return lambda i, j: apply_left(G, x, nconj(tv), v.m, i, j)
                y = f.y(s, W)
                return lambda i, j: apply_right(G, y, tw, v.n, i, j)

            def second(G, s, V, tv, W, tw):
                if not up:
                    x = f.x(s, V)
                    return lambda i, j: apply_left(G, x, nconj(tv), v.m, i, j)
                y = f.y(s, W)
                return lambda i, j: apply_right(G, y, tw, v.n, i, j)
            f.first, f.second = first, second
            ch = lambda s: (s, lambda a: f.V(s, a), f.TV(s), lambda a: f.W(s, a), f.TW(s))
            f.ch = ch
            f.g = Ghost("G" + str(int(up)), v.A, lambda G, s, i, j: second(first(G, *ch(s)), *ch(s))(i, j))
            setattr(v, key, f)
        return getattr(v, key)

    def contents(v, up, t, i, j):
        f = form(v, up)
        col = nite(beq(i, j + (0 if up else 1)), (f.D if up else f.E)(j), f.V(j, i))
        row = nite(beq(j, i + (1 if up else 0)), (f.E if up else f.D)(i), f.W(i, j))
        below = ble(j, i) if up else blt(j, i)
        return nite(blt(imin(i, j), t), nite(below, col, row), f.g.at(t)(i, j))

    def taus(v, up, t, i, which):
        f = form(v, up)
        T = f.TV if which == "v" else f.TW
        last = (which == "w") if up else (which == "v")
        e = T(i)
        if last:
            e = nite(beq(i, imin(v.m, v.n) - 1), NZERO, e)
        return nite(band(ble(ZERO, i), blt(i, t)), e, (v.tauv if which == "v" else v.tauw)(i))

    def each(v, up, s, i, j):
        f = form(v, up)
        ch = f.ch(s)
        G = f.g.at(s)
        L = f.first(G, *ch)
        if up:
            return [("column reduced", band(ble(s, i), blt(i, v.m), beq(j, s)), L(i, j), nite(beq(i, s), f.D(s), NZERO), [(i, j)]),
                    ("row reduced", band(blt(s, j), blt(j, v.n), beq(i, s)), f.second(L, *ch)(i, j), nite(beq(j, s + 1), f.E(s), NZERO), [(i, j)]),
                    ("diagonal is real", beq(i, s), f.D(s), nconj(f.D(s)), [(i, s)]),
                    ("superdiagonal is real", band(beq(i, s), blt(s, v.n - 1)), f.E(s), nconj(f.E(s)), [(i, s + 1)])]
        return [("row reduced", band(ble(s, j), blt(j, v.n), beq(i, s)), L(i, j), nite(beq(j, s), f.D(s), NZERO), [(i, j)]),
                ("column reduced", band(blt(s, i), blt(i, v.m), beq(j, s)), f.second(L, *ch)(i, j), nite(beq(i, s + 1), f.E(s), NZERO), [(i, j)]),
                ("diagonal is real", beq(i, s), f.D(s), nconj(f.D(s)), [(i, s)]),
                ("subdiagonal is real", band(beq(i, s), blt(s, v.m - 1)), f.E(s), nconj(f.E(s)), [(s + 1, i)])]

    def inv(up):
        cnt = (lambda v: v.n) if up else (lambda v: v.m)
        dd = lambda v, ts: v.At(ts[0], ts[0])
        ee = (lambda v, ts: v.At(ts[0], ts[0] + 1)) if up else (lambda v, ts: v.At(ts[0] + 1, ts[0]))
        return LoopInv(facts=lambda v, t: [ble(ZERO, t), ble(t, cnt(v))], bysteps=True, variant=lambda v, t: cnt(v) - t,
                       posts={"A": lambda v, ts, i, j: contents(v, up, ts[0], i, j),
                              "tauv": lambda v, ts, i, j: taus(v, up, ts[0], i, "v"), "tauw": lambda v, ts, i, j: taus(v, up, ts[0], i, "w")},
                       ghosts=lambda v: [form(v, up).g],
                       skolem=lambda v, ts: [(form(v, up).V, lambda a, j: v.At(a, ts[0])), (form(v, up).W, lambda a, j: v.At(ts[0], a)),
                                             (form(v, up).TV, lambda i, j: v.tauvt(ts[0])), (form(v, up).TW, lambda i, j: v.tauwt(ts[0])),
                                             (form(v, up).D, lambda i, j: dd(v, ts)), (form(v, up).E, lambda i, j: ee(v, ts))],
                       each=lambda v, ts, i, j: each(v, up, ts[0], i, j))
    r = []
    for up in (True, False):
        def eqs(v, i, j, up=up):
            if i is None:
                return ["A", "tauv", "tauw"]
            k = imin(v.m, v.n)
            inn = band(ble(ZERO, i), blt(i, v.m), ble(ZERO, j), blt(j, v.n))
            one = band(ble(ZERO, i), blt(i, k), beq(j, ZERO))
            return [("B and the stored reflectors", inn, v.A1(i, j), contents(v, up, k, i, j), [(i, j)]),
                    ("stored scalars of Q", one, v.tauv1(i), taus(v, up, k, i, "v"), [(i, j)]),
                    ("stored scalars of P", one, v.tauw1(i), taus(v, up, k, i, "w"), [(i, j)])]
        r.append(Task("gebd2_" + ("upper" if up else "lower"), "m n k", [], [("A", "M", ("m", "n"), "C"), ("tauv", "V", ("k",), "C"), ("tauw", "V", ("k",), "C")],
                      "return gebd2(A, tauv, tauw);", ret="int", pre=(lambda up: lambda v: [ble(imin(v.m, v.n), v.k), ble(v.n, v.m) if up else blt(v.m, v.n)])(up),
                      setup=(lambda up: lambda v, E: form(v, up))(up), retpost=lambda v, x, i: [("returns 0", beq(x, ZERO))], eqs=eqs,
                      loops=[inv(up)], fn="gebd2", contracts=qr.CON))
    return r


CON = qr.CON
KEEP = qr.KEEP
INC = qr.INC + ["lapack/%s.hpp" % x for x in "gehd2 gebd2".split()]
