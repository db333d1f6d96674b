// Orthogonal factorizations and reductions: QR, LQ, QL, RQ, Hessenberg,
// bidiagonal, tridiagonal; the product of the returned factors is the input.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/geqr2.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gelq2.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geql2.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/gerq2.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/householder_qr.hpp"
#include "tlapack/lapack/householder_lq.hpp"
#include "tlapack/lapack/householder_ql.hpp"
#include "tlapack/lapack/householder_rq.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/ungtr.hpp"
using namespace S;
inline bool all(idx, idx) { return true; }
typedef std::pair<idx, idx> rg;

template <class M> void content(M& A, Rng& r)
{
    typedef typename std::decay<decltype(A.at(0, 0))>::type T;
    int k = r.in(0, 9);
    for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) {
        T& x = A.at(i, j);
        if (k == 0) x = T(0);
        else if (k == 1) x = i == j ? x : T(0);
        else if (k == 2) x = (i + j) % 2 ? T(0) : x;
        else if (k == 3 && j) x = A.at(i, 0);
        else if (k == 4) x = i > j ? T(0) : x;
        else if (k > 6) x += rv<T>(r) * T(.0625);
    }
}
template <class T, class V> std::vector<Z> taus(const V& t, idx k) { std::vector<Z> r(k); for (idx i = 0; i < k; ++i) r[i] = Z(t[i]); return r; }
// all reflectors unitary
inline bool unit(Rep& R, const Refl& h)
{
    for (idx i = 0; i < h.v.size(); ++i) { double vv = 0; for (auto& x : h.v[i]) vv += std::norm(x); if (!near(Z(2 * h.tau[i].real()), Z(std::norm(h.tau[i]) * vv), 1.)) { R.fail("value", "reflector " + std::to_string(i) + " is not unitary"); return false; } }
    return true;
}
struct TauBuf { };

// which: 0 = level 2, 1 = blocked, 2 = variant interface.   kind: 0 QR 1 LQ 2 QL 3 RQ
static void fact(Rng& r, Rep& R, int which, int kind)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); bool wk = r.p(.5); idx nb = r.p(.1) ? 32 : r.in(1, 5);
        R.say("m", m, "n", n, wk, "nb", nb, "variant", which);
        Mat<T, L1> A(r, m, n); content(A, r); A.save(); idx k = std::min(m, n);
        std::vector<T> tb(k + 2, rd<T>::nan()); LegacyVector<T, idx> t(k, tb.data() + 1); auto a = A.view();
#define RUN(f2, fb, OB, hh, OH, VR) { \
        OB op; op.nb = nb; OH oh; oh.nb = nb; oh.variant = r.p(.5) ? VR::Blocked : VR::Level2; \
        if (which == 0) { if (wk && k) { auto wi = f2##_worksize<T>(a, t); Work<T> W(wi.m, wi.n); auto w = W.view(); f2##_work(a, t, w); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); } else f2(a, t); } \
        else if (which == 1) { if (wk && k) { auto wi = fb##_worksize<T>(a, t, op); Work<T> W(wi.m, wi.n); auto w = W.view(); fb##_work(a, t, w, op); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); } else fb(a, t, op); } \
        else { if (wk && k) { auto wi = hh##_worksize<T>(a, t, oh); Work<T> W(wi.m, wi.n); auto w = W.view(); hh##_work(a, t, w, oh); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); } else hh(a, t, oh); } }
        if (kind == 0) RUN(geqr2, geqrf, GeqrfOpts, householder_qr, HouseholderQROpts, HouseholderQRVariant)
        if (kind == 1) RUN(gelq2, gelqf, GelqfOpts, householder_lq, HouseholderLQOpts, HouseholderLQVariant)
        if (kind == 2) RUN(geql2, geqlf, GeqlfOpts, householder_ql, HouseholderQLOpts, HouseholderQLVariant)
        if (kind == 3) RUN(gerq2, gerqf, GerqfOpts, householder_rq, HouseholderRQOpts, HouseholderRQVariant)
        if (!isn(tb[0]) || !isn(tb[k + 1])) R.fail("frame", "wrote outside tau");
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        if (k == 0) return;
        bool col = kind == 0 || kind == 2; bool fwd = kind < 2; idx q = col ? m : n;
        // the panel of reflectors
        idx pi = kind == 3 ? m - k : 0; idx pj = kind == 2 ? n - k : 0;
        Refl h = refl(fwd, col, q, k, [&](idx i, idx j) { return A.at(i + pi, j + pj); }, taus<T>(t, k));
        if (!unit(R, h)) return;
        DM Q = prod(h, !fwd); if (!col) Q = ct(Q);
        DM F = mk(m, n, [&](idx i, idx j) {
            bool in = kind == 0 ? i <= j : kind == 1 ? i >= j : kind == 2 ? i + n >= j + m : i + n <= j + m;
            return in ? Z(A.at(i, j)) : Z(0); });
        differ(R, "value", kind == 0 ? "QR" : kind == 1 ? "LQ" : kind == 2 ? "QL" : "RQ", col ? mul(Q, F) : mul(F, Q), was(A), 1 + mx(was(A)));)
}
CASE(geqr2) { fact(r, R, 0, 0); }
CASE(geqrf) { fact(r, R, 1, 0); }
CASE(householder_qr) { fact(r, R, 2, 0); }
CASE(gelq2) { fact(r, R, 0, 1); }
CASE(gelqf) { fact(r, R, 1, 1); }
CASE(householder_lq) { fact(r, R, 2, 1); }
CASE(geql2) { fact(r, R, 0, 2); }
CASE(geqlf) { fact(r, R, 1, 2); }
CASE(householder_ql) { fact(r, R, 2, 2); }
CASE(gerq2) { fact(r, R, 0, 3); }
CASE(gerqf) { fact(r, R, 1, 3); }
CASE(householder_rq) { fact(r, R, 2, 3); }

CASE(geqrt3)
{
    TYPES(
        idx m = dim(r); if (m == 0) m = 1; idx n = r.in(1, std::min<idx>(m, 24)); idx nx = r.in(1, 5); bool isw = r.p(.3);
        R.say("m", m, "n", n, "nx", nx, "isw", isw);
        Mat<T, L1> A(r, m, n); content(A, r); A.save(); Mat<T, L2> Tm(r, n, n); Tm.fill(all, rd<T>::nan()); Tm.save();
        auto a = A.view(); auto tt = Tm.view(); Geqrt3Opts op; op.nx = nx; op.isw = isw;
        geqrt3(a, tt, op);
        std::vector<Z> tau(n); for (idx i = 0; i < n; ++i) tau[i] = Z(Tm.at(i, i));
        Refl h = refl(true, true, m, n, [&](idx i, idx j) { return A.at(i, j); }, tau);
        if (!unit(R, h)) return;
        DM Q = prod(h, false); DM F = mk(m, n, [&](idx i, idx j) { return i <= j ? Z(A.at(i, j)) : Z(0); });
        if (differ(R, "value", "QR", mul(Q, F), was(A), 1 + mx(was(A)))) return;
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        if (!isw) {
            DM Vd = mk(m, n, [&](idx i, idx j) { return h.v[j][i]; }); DM Td = mk(n, n, [&](idx i, idx j) { return i <= j ? Z(Tm.at(i, j)) : Z(0); });
            differ(R, "value", "I - V T V^H", sub(eye(m), mul(Vd, mul(Td, ct(Vd)))), Q, 10);
        })
}
CASE(gelqt)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); idx k = std::min(m, n); idx nb = r.in(1, 5); if (!m || !n) return;
        R.say("m", m, "n", n, "nb", nb);
        Mat<T, L1> A(r, m, n); content(A, r); A.save(); Mat<T, L1> TT(r, m, nb); TT.save();
        auto a = A.view(); auto tt = TT.view(); gelqt(a, tt);
        std::vector<Z> tau(k); for (idx i = 0; i < k; ++i) tau[i] = Z(TT.at(i, i % nb));
        Refl h = refl(true, false, n, k, [&](idx i, idx j) { return A.at(i, j); }, tau);
        if (!unit(R, h)) return;
        DM Q = ct(prod(h, false)); DM F = mk(m, n, [&](idx i, idx j) { return i >= j ? Z(A.at(i, j)) : Z(0); });
        if (differ(R, "value", "LQ", mul(F, Q), was(A), 1 + mx(was(A)))) return;
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        for (idx b = 0; b < k; b += nb) {
            idx ib = std::min(nb, k - b);
            DM Vd = mk(n, ib, [&](idx i, idx j) { return h.v[b + j][i]; }); DM Td = mk(ib, ib, [&](idx i, idx j) { return i <= j ? Z(TT.at(b + i, j)) : Z(0); });
            Refl g; g.n = n; for (idx i = b; i < b + ib; ++i) { g.v.push_back(h.v[i]); g.tau.push_back(h.tau[i]); }
            if (differ(R, "value", "I - V T V^H", sub(eye(n), mul(Vd, mul(Td, ct(Vd)))), prod(g, false), 10)) return;
        })
}
// Hessenberg reduction and the routines that use its reflectors
static void hess(Rng& r, Rep& R, int which)
{
    TYPES(
        idx n = dim(r); if (n == 0) n = 1; idx ilo = r.p(.5) ? 0 : r.in(0, n - 1); idx ihi = r.p(.5) ? n : r.in(ilo, n); if (ihi < ilo) ihi = ilo; bool wk = r.p(.5); idx nb = r.in(1, 5); idx nx = r.in(1, 6);
        R.say("n", n, "ilo", ilo, "ihi", ihi, wk, "nb", nb, "nx", nx, "variant", which);
        Mat<T, L1> A(r, n, n); content(A, r);
        // A is already in the form assumed outside rows and columns ilo..ihi-1
        for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) if (j < ilo || i >= ihi) A.at(i, j) = T(0);
        A.save(); auto a = A.view(); std::vector<T> tb(n + 1, rd<T>::nan()); LegacyVector<T, idx> t(n - 1, tb.data() + 1);
        GehrdOpts og; og.nb = nb; og.nx_switch = nx; HessenbergOpts oh; oh.nb = nb; oh.nx_switch = nx; oh.variant = r.p(.5) ? HessenbergVariant::Blocked : HessenbergVariant::Level2;
#define WRK(call_q, call_w, call) if (wk) { auto wi = call_q; Work<T> W(wi.m, wi.n); auto w = W.view(); call_w; if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); } else { call; }
        if (which == 0) { WRK(gehd2_worksize<T>(ilo, ihi, a, t), gehd2_work(ilo, ihi, a, t, w), gehd2(ilo, ihi, a, t)) }
        else if (which == 1) { WRK(gehrd_worksize<T>(ilo, ihi, a, t, og), gehrd_work(ilo, ihi, a, t, w, og), gehrd(ilo, ihi, a, t, og)) }
        else { WRK(hessenberg_worksize<T>(ilo, ihi, a, t, oh), hessenberg_work(ilo, ihi, a, t, w, oh), hessenberg(ilo, ihi, a, t, oh)) }
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        if (!isn(tb[0]) || !isn(tb[n])) R.fail("frame", "wrote outside tau");
        Refl h; h.n = n;
        for (idx i = ilo; i + 2 <= ihi; ++i) { std::vector<Z> v(n, Z(0)); v[i + 1] = 1; for (idx s = i + 2; s < ihi; ++s) v[s] = Z(A.at(s, i)); h.v.push_back(v); h.tau.push_back(Z(t[i])); }
        if (!unit(R, h)) return;
        DM Q = prod(h, false); DM H = mk(n, n, [&](idx i, idx j) { return i <= j + 1 ? Z(A.at(i, j)) : Z(0); });
        // below the subdiagonal outside ilo..ihi nothing is stored
        if (differ(R, "value", "Q H Q^H", mul(Q, mul(H, ct(Q))), was(A), 1 + mx(was(A)))) return;
        if (h.v.empty()) return;
        Side sd = r.p(.5) ? Side::Left : Side::Right; Op o = r.p(.5) ? Op::NoTrans : Op::ConjTrans; idx cm = sd == Side::Left ? n : r.in(1, 4); idx cn = sd == Side::Left ? r.in(1, 4) : n;
        Mat<T, L1> C(r, cm, cn); C.save(); auto c_ = C.view();
        WRK(unmhr_worksize<T>(sd, o, ilo, ihi, a, t, c_), unmhr_work(sd, o, ilo, ihi, a, t, c_, w), unmhr(sd, o, ilo, ihi, a, t, c_))
        DM q = o == Op::NoTrans ? Q : ct(Q);
        if (differ(R, "value", "unmhr", cur(C), sd == Side::Left ? mul(q, was(C)) : mul(was(C), q), 10)) return;
        if (!C.kept(all)) R.fail("frame", "unmhr wrote outside C");
        WRK(unghr_worksize<T>(ilo, ihi, a, t), unghr_work(ilo, ihi, a, t, w), unghr(ilo, ihi, a, t))
        differ(R, "value", "unghr", cur(A), Q, 1);
        if (!A.kept(all)) R.fail("frame", "unghr wrote outside A");)
}
CASE(gehd2) { hess(r, R, 0); }
CASE(gehrd) { hess(r, R, 1); }
CASE(hessenberg) { hess(r, R, 2); }

static void bd(Rng& r, Rep& R, int which)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); if (!m) m = 1; if (!n) n = 1; bool wk = r.p(.5); idx nb = r.p(.1) ? 32 : r.in(1, 5);
        R.say("m", m, "n", n, wk, "nb", nb, "variant", which);
        Mat<T, L1> A(r, m, n); content(A, r); A.save(); idx k = std::min(m, n); auto a = A.view();
        std::vector<T> b1(k + 2, rd<T>::nan()); std::vector<T> b2(k + 2, rd<T>::nan()); LegacyVector<T, idx> t1(k, b1.data() + 1); LegacyVector<T, idx> t2(k, b2.data() + 1);
        GebrdOpts og; og.nb = nb; BidiagOpts ob; ob.nb = nb; ob.variant = r.p(.5) ? BidiagVariant::Blocked : BidiagVariant::Level2;
        if (which == 0) { WRK(gebd2_worksize<T>(a, t1, t2), gebd2_work(a, t1, t2, w), gebd2(a, t1, t2)) }
        else if (which == 1) { WRK(gebrd_worksize<T>(a, t1, t2, og), gebrd_work(a, t1, t2, w, og), gebrd(a, t1, t2, og)) }
        else { WRK(bidiag_worksize<T>(a, t1, t2, ob), bidiag_work(a, t1, t2, w, ob), bidiag(a, t1, t2, ob)) }
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        if (!isn(b1[0]) || !isn(b2[0]) || !isn(b1[k + 1]) || !isn(b2[k + 1])) R.fail("frame", "wrote outside tau");
        bool up = m >= n; Refl hq; Refl hp; hq.n = m; hp.n = n;
        for (idx i = 0; i < k; ++i) {
            idx p = up ? i : i + 1; idx q = up ? i + 1 : i;
            if (p < m) { std::vector<Z> v(m, Z(0)); v[p] = 1; for (idx s = p + 1; s < m; ++s) v[s] = Z(A.at(s, i)); hq.v.push_back(v); hq.tau.push_back(Z(t1[i])); }
            if (q < n) { std::vector<Z> v(n, Z(0)); v[q] = 1; for (idx s = q + 1; s < n; ++s) v[s] = std::conj(Z(A.at(i, s))); hp.v.push_back(v); hp.tau.push_back(Z(t2[i])); }
        }
        if (!unit(R, hq) || !unit(R, hp)) return;
        DM Q = prod(hq, false); DM P = prod(hp, false);
        DM B = mk(m, n, [&](idx i, idx j) { return i == j || (up ? j == i + 1 : i == j + 1) ? Z(A.at(i, j)) : Z(0); });
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) if (B(i, j).imag() != 0) { R.fail("value", "B is not real"); return; }
        if (differ(R, "value", "Q B P^H", mul(Q, mul(B, ct(P))), was(A), 1 + mx(was(A)))) return;
        UngbrOpts uo; uo.nb = nb;
        if (r.p(.5)) {
            // columns of Q
            idx c_ = m >= n ? r.in(n, m) : m; Mat<T, L1> G(r, m, c_); G.fill(all, rd<T>::nan());
            for (idx j = 0; j < std::min(c_, n); ++j) for (idx i = 0; i < m; ++i) G.at(i, j) = A.at(i, j);
            G.save(); auto g = G.view(); auto tq = slice(t1, rg{0, k});
            WRK(ungbr_q_worksize<T>(n, g, tq, uo), ungbr_q_work(n, g, tq, w, uo), ungbr_q(n, g, tq, uo))
            differ(R, "value", "ungbr_q", cur(G), mk(m, c_, [&](idx i, idx j) { return Q(i, j); }), 1); if (!G.kept(all)) R.fail("frame", "ungbr_q wrote outside A");
        } else {
            idx rr = m < n ? r.in(m, n) : n; Mat<T, L1> G(r, rr, n); G.fill(all, rd<T>::nan());
            for (idx j = 0; j < n; ++j) for (idx i = 0; i < std::min(rr, m); ++i) G.at(i, j) = A.at(i, j);
            G.save(); auto g = G.view(); auto tp = slice(t2, rg{0, k}); DM Ph = ct(P);
            WRK(ungbr_p_worksize<T>(m, g, tp, uo), ungbr_p_work(m, g, tp, w, uo), ungbr_p(m, g, tp, uo))
            differ(R, "value", "ungbr_p", cur(G), mk(rr, n, [&](idx i, idx j) { return Ph(i, j); }), 1); if (!G.kept(all)) R.fail("frame", "ungbr_p wrote outside A");
        })
}
CASE(gebd2) { bd(r, R, 0); }
CASE(gebrd) { bd(r, R, 1); }
CASE(bidiag) { bd(r, R, 2); }

CASE(hetd2)
{
    TYPES(
        idx n = dim(r); if (n > 40) n = 40; Uplo u = ru(r); bool ph = r.p(.5);
        R.say("n", n, c(u), "poison", ph);
        Mat<T, L1> A(r, n, n); content(A, r);
        for (idx i = 0; i < n; ++i) if (!ph) A.at(i, i) = T(std::real(A.at(i, i)));
        auto un = [&](idx i, idx j) { return !intri(u, i, j); };
        if (ph) A.fill(un, rd<T>::nan());
        A.save(); auto a = A.view(); idx k = n ? n - 1 : 0; std::vector<T> tb(k + 2, rd<T>::nan()); LegacyVector<T, idx> t(k, tb.data() + 1);
        hetd2(u, a, t);
        if (!isn(tb[0]) || !isn(tb[k + 1])) R.fail("frame", "wrote outside tau");
        if (!A.kept([&](idx i, idx j) { return !un(i, j); })) R.fail("frame", "wrote outside the triangle");
        if (!n) return;
        Refl h; h.n = n;
        for (idx i = 0; i < k; ++i) { std::vector<Z> v(n, Z(0)); if (u == Uplo::Lower) { v[i + 1] = 1; for (idx s = i + 2; s < n; ++s) v[s] = Z(A.at(s, i)); } else { v[i] = 1; for (idx s = 0; s < i; ++s) v[s] = Z(A.at(s, i + 1)); } h.v.push_back(v); h.tau.push_back(Z(t[i])); }
        if (!unit(R, h)) return;
        DM Q = prod(h, u == Uplo::Upper); DM Tm(n, n);
        for (idx i = 0; i < n; ++i) { Tm(i, i) = Z(A.at(i, i)); if (Tm(i, i).imag() != 0) R.fail("value", "T is not real"); if (i + 1 < n) { Z e = u == Uplo::Lower ? Z(A.at(i + 1, i)) : Z(A.at(i, i + 1)); if (e.imag() != 0) R.fail("value", "T is not real"); Tm(i + 1, i) = e; Tm(i, i + 1) = e; } }
        DM H = mk(n, n, [&](idx i, idx j) { return i == j ? Z(std::real(A.old(i, i))) : intri(u, i, j) ? Z(A.old(i, j)) : std::conj(Z(A.old(j, i))); });
        if (differ(R, ph ? "access" : "value", "Q T Q^H", mul(Q, mul(Tm, ct(Q))), H, 1 + mx(H))) return;
        if (n < 2) return;
        ungtr(u, a, t);
        differ(R, ph ? "access" : "value", "ungtr", cur(A), Q, 1);
        if (!A.kept(all)) R.fail("frame", "ungtr wrote outside Q");)
}
int main(int a, char** b) { return drive(a, b); }
