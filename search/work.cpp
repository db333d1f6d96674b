// Workspace contracts: the queried size is enough and the _work variant computes what the allocating one computes.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gelq2.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/gen_householder_q.hpp"
#include "tlapack/lapack/geql2.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/geqr2.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gerq2.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/householder_lq.hpp"
#include "tlapack/lapack/householder_ql.hpp"
#include "tlapack/lapack/householder_qr.hpp"
#include "tlapack/lapack/householder_rq.hpp"
#include "tlapack/lapack/householder_q_mul.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
using namespace S;
// a workspace of exactly the queried size, guarded, contiguous unless a leading dimension is asked for
template <class T, Layout L> struct WS {
    idx m, n, ld;
    std::vector<T> b;
    WS(const WorkInfo& w, idx pad) : m(w.m), n(w.n), ld((L == Layout::ColMajor ? w.m : w.n) + pad), b(ld * (L == Layout::ColMajor ? w.n : w.m) + 16, T(12345.5))
    {
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) b[at(i, j)] = rd<T>::nan();
    }
    idx at(idx i, idx j) const { return 8 + (L == Layout::ColMajor ? i + j * ld : i * ld + j); }
    LegacyMatrix<T, idx, L> view() { return LegacyMatrix<T, idx, L>(m, n, b.data() + 8, std::max<idx>(ld, 1)); }
    bool ok() const { std::vector<char> in(b.size(), 0); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) in[at(i, j)] = 1; for (idx k = 0; k < b.size(); ++k) if (!in[k] && b[k] != T(12345.5)) return false; return true; }
};
template <class X> void savall(X& x) { x.save(); }
template <class X> struct Keep { X* x; decltype(x->b) first; };
template <class A, class B> bool eqall(Rep& R, const A& got, const B& want)
{
    for (idx k = 0; k < want.size(); ++k) if (!near(got[k], want[k], 10)) { R.fail("value", "the result differs from that of the allocating variant: " + str(got[k]) + " / " + str(want[k])); return false; }
    return true;
}
template <class T, class Q, class F, class G, class... X> void agree(Rng& r, Rep& R, Q query, F alloc, G work, X&... x)
{
    int s[] = {(x.save(), 0)...}; (void)s;
    int rc1 = alloc();
    auto first = std::make_tuple(x.b...);
    auto snaps = std::make_tuple(x.snap...); (void)snaps;
    int s2[] = {(x.restore(), 0)...}; (void)s2;
    WorkInfo w = query();
    int s3[] = {(x.restore(), 0)...}; (void)s3;
    int lay = r.in(0, 2); bool pad = false; R.say("work", w.m, w.n, w.isContiguous ? "contiguous" : "", lay ? "col" : "row", pad ? "padded" : "");
    auto go = [&](auto& ws) {
        auto v = ws.view(); int rc2 = 0;
        try { rc2 = work(v); } catch (const std::exception& e) { R.fail("value", std::string("workspace of the queried size refused: ") + e.what()); return; }
        if (rc1 != rc2) { R.fail("value", "return value " + str(rc2) + ", the allocating variant returns " + str(rc1)); return; }
        if (!ws.ok()) { R.fail("frame", "wrote outside the workspace"); return; }
        std::apply([&](auto&... f) { bool ok[] = {eqall(R, x.b, f)...}; (void)ok; }, first);
    };
    if (lay) { WS<T, Layout::ColMajor> ws(w, pad ? 2 : 0); go(ws); } else { WS<T, Layout::RowMajor> ws(w, pad ? 2 : 0); go(ws); }
}
#define AG(q, a, w, ...) agree<T>(r, R, [&] { return q; }, [&]() -> int { return a; }, [&](auto& work) -> int { return w; }, __VA_ARGS__)
static idx sz(Rng& r, idx top = 12) { return r.p(.08) ? 0 : r.p(.1) ? 1 : r.in(1, long(top)); }
#define FACT(name, opt)                                                                                     \
    CASE(name)                                                                                              \
    {                                                                                                       \
        TYPES(idx m = sz(r); idx n = sz(r); opt; R.say("m", m, "n", n); Mat<T, L1> A(r, m, n); Vec<T> t(r, std::min(m, n)); auto a = A.view(); auto tv = t.view();  \
              AG(name##_worksize<T>(a, tv OPT), name(a, tv OPT), name##_work(a, tv, work OPT), A, t);)        \
    }
#define OPT
FACT(geqr2, )
FACT(gelq2, )
FACT(geql2, )
FACT(gerq2, )
#undef OPT
#define OPT , o
FACT(geqrf, GeqrfOpts o; o.nb = r.in(1, 6))
FACT(gelqf, GelqfOpts o; o.nb = r.in(1, 6))
FACT(geqlf, GeqlfOpts o; o.nb = r.in(1, 6))
FACT(gerqf, GerqfOpts o; o.nb = r.in(1, 6))
FACT(householder_qr, HouseholderQROpts o; o.nb = r.in(1, 6); o.variant = r.p(.5) ? HouseholderQRVariant::Level2 : HouseholderQRVariant::Blocked)
FACT(householder_lq, HouseholderLQOpts o; o.nb = r.in(1, 6); o.variant = r.p(.5) ? HouseholderLQVariant::Level2 : HouseholderLQVariant::Blocked)
FACT(householder_ql, HouseholderQLOpts o; o.nb = r.in(1, 6); o.variant = r.p(.5) ? HouseholderQLVariant::Level2 : HouseholderQLVariant::Blocked)
FACT(householder_rq, HouseholderRQOpts o; o.nb = r.in(1, 6); o.variant = r.p(.5) ? HouseholderRQVariant::Level2 : HouseholderRQVariant::Blocked)
#undef OPT
CASE(gelqt) { TYPES(idx m = r.in(1, 10); idx n = r.in(1, 10); idx nb = r.in(1, long(std::min(m, n))); R.say("m", m, "n", n, "nb", nb); Mat<T, L1> A(r, m, n); Mat<T, L1> W(r, m, nb); auto a = A.view(); auto t = W.view(); AG(gelqt_worksize<T>(a, t), gelqt(a, t), gelqt_work(a, t, work), A, W);) }
CASE(gebd2) { TYPES(idx m = sz(r); idx n = sz(r); R.say("m", m, "n", n); Mat<T, L1> A(r, m, n); Vec<T> t(r, std::min(m, n)); Vec<T> u(r, std::min(m, n)); auto a = A.view(); auto tv = t.view(); auto tw = u.view(); AG(gebd2_worksize<T>(a, tv, tw), gebd2(a, tv, tw), gebd2_work(a, tv, tw, work), A, t, u);) }
CASE(gebrd) { TYPES(idx m = sz(r); idx n = sz(r); GebrdOpts o; o.nb = r.in(1, 6); R.say("m", m, "n", n, "nb", o.nb); Mat<T, L1> A(r, m, n); Vec<T> t(r, std::min(m, n)); Vec<T> u(r, std::min(m, n)); auto a = A.view(); auto tv = t.view(); auto tw = u.view(); AG(gebrd_worksize<T>(a, tv, tw, o), gebrd(a, tv, tw, o), gebrd_work(a, tv, tw, work, o), A, t, u);) }
CASE(bidiag) { TYPES(idx m = sz(r); idx n = sz(r); BidiagOpts o; o.nb = r.in(1, 6); o.variant = r.p(.5) ? BidiagVariant::Level2 : BidiagVariant::Blocked; R.say("m", m, "n", n, "nb", o.nb); Mat<T, L1> A(r, m, n); Vec<T> t(r, std::min(m, n)); Vec<T> u(r, std::min(m, n)); auto a = A.view(); auto tv = t.view(); auto tw = u.view(); AG(bidiag_worksize<T>(a, tv, tw, o), bidiag(a, tv, tw, o), bidiag_work(a, tv, tw, work, o), A, t, u);) }
#define HESS(name, dcl, ...)                                                                                \
    CASE(name)                                                                                              \
    {                                                                                                       \
        TYPES(idx n = r.in(1, 12); idx lo = r.p(.5) ? 0 : r.in(0, long(n) - 1); idx hi = r.p(.5) ? n : r.in(long(lo) + 1, long(n)); dcl; R.say("n", n, "ilo", lo, "ihi", hi);  \
              Mat<T, L1> A(r, n, n); for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) if (j < lo || i >= hi) A.at(i, j) = 0; Vec<T> t(r, n - 1); auto a = A.view(); auto tv = t.view();                                  \
              AG(name##_worksize<T>(lo, hi, a, tv __VA_ARGS__), name(lo, hi, a, tv __VA_ARGS__), name##_work(lo, hi, a, tv, work __VA_ARGS__), A, t);)        \
    }
HESS(gehd2, )
HESS(gehrd, GehrdOpts o; o.nb = r.in(1, 5); o.nx_switch = r.in(1, 6), , o)
HESS(hessenberg, HessenbergOpts o; o.nb = r.in(1, 5); o.nx_switch = r.in(1, 6); o.variant = r.p(.5) ? HessenbergVariant::Level2 : HessenbergVariant::Blocked, , o)
// reflectors: a factored panel of each kind
template <class T, Layout L> void panel(Rng& r, bool fwd, bool col, Mat<T, L>& V, Vec<T>& t)
{
    auto v = V.view(); auto tv = t.view();
    if (fwd && col) geqr2(v, tv); else if (fwd) gelq2(v, tv); else if (col) geql2(v, tv); else gerq2(v, tv);
}
CASE(larf)
{
    TYPES(idx m = sz(r, 8); idx n = sz(r, 8); Side s = rside(r); Direction d = r.p(.5) ? Direction::Forward : Direction::Backward; StoreV st = r.p(.5) ? StoreV::Columnwise : StoreV::Rowwise; R.say("m", m, "n", n, c(s));
          Mat<T, L1> C(r, m, n); Vec<T> v(r, s == Side::Left ? m : n); T tau = rv<T>(r); auto cv = C.view(); auto vv = v.view(); AG(larf_worksize<T>(s, d, st, vv, tau, cv), (larf(s, d, st, vv, tau, cv), 0), (larf_work(s, d, st, vv, tau, cv, work), 0), C, v);)
}
static void qmul(Rng& r, Rep& R, int which)
{
    TYPES(idx m = r.in(0, 9); idx n = r.in(0, 9); Side s = rside(r); idx q = s == Side::Left ? m : n; idx k = r.p(.08) || !q ? 0 : r.in(1, long(q)); bool fwd = r.p(.5); bool col = r.p(.5); Op o = r.p(.5) ? Op::NoTrans : cplx ? Op::ConjTrans : rop(r);
          Direction d = fwd ? Direction::Forward : Direction::Backward; StoreV st = col ? StoreV::Columnwise : StoreV::Rowwise; R.say("m", m, "n", n, "k", k, c(s), c(o), fwd ? "forward" : "backward", col ? "columns" : "rows");
          Mat<T, L1> V(r, col ? q : k, col ? k : q); Mat<T, L1> C(r, m, n); Vec<T> t(r, k); panel(r, fwd, col, V, t); auto v = V.view(); auto tv = t.view(); auto cv = C.view();
          if (which == 0) AG(unmq_level2_worksize<T>(s, o, d, st, v, tv, cv), unmq_level2(s, o, d, st, v, tv, cv), unmq_level2_work(s, o, d, st, v, tv, cv, work), C, V, t);
          else if (which == 1) { UnmqOpts p; p.nb = r.in(1, 5); AG(unmq_worksize<T>(s, o, d, st, v, tv, cv, p), unmq(s, o, d, st, v, tv, cv, p), unmq_work(s, o, d, st, v, tv, cv, work, p), C, V, t); }
          else if (which == 2) { HouseholderQMulOpts p; p.nb = r.in(1, 5); p.variant = r.p(.5) ? HouseholderQMulVariant::Level2 : HouseholderQMulVariant::Blocked; AG(householder_q_mul_worksize<T>(s, o, d, st, v, tv, cv, p), householder_q_mul(s, o, d, st, v, tv, cv, p), householder_q_mul_work(s, o, d, st, v, tv, cv, work, p), C, V, t); }
          else { Mat<T, L1> F(r, k, k); auto f = F.view(); if (k) larft(d, st, v, tv, f); AG(larfb_worksize<T>(s, o, d, st, v, f, cv), larfb(s, o, d, st, v, f, cv), larfb_work(s, o, d, st, v, f, cv, work), C, V, F); })
}
CASE(unmq_level2) { qmul(r, R, 0); }
CASE(unmq) { qmul(r, R, 1); }
CASE(householder_q_mul) { qmul(r, R, 2); }
CASE(larfb) { qmul(r, R, 3); }
static void qgen(Rng& r, Rep& R, int which)
{
    TYPES(bool col = r.p(.5); bool fwd = r.p(.5); idx q = r.in(1, 10); idx p = r.in(1, long(q)); idx k = r.p(.5) ? p : r.p(.1) ? 0 : r.in(1, long(p)); idx m = col ? q : p; idx n = col ? p : q;
          Direction d = fwd ? Direction::Forward : Direction::Backward; StoreV st = col ? StoreV::Columnwise : StoreV::Rowwise; R.say("m", m, "n", n, "k", k, fwd ? "forward" : "backward", col ? "columns" : "rows");
          Mat<T, L1> A(r, m, n); Vec<T> t0(r, p); panel(r, fwd, col, A, t0); Vec<T> t(r, k); for (idx i = 0; i < k; ++i) t.at(i) = t0.at(fwd ? i : p - k + i); auto a = A.view(); auto tv = t.view();
          if (which == 0) AG(ungq_level2_worksize<T>(d, st, a, tv), ungq_level2(d, st, a, tv), ungq_level2_work(d, st, a, tv, work), A, t);
          else if (which == 1) { UngqOpts o; o.nb = r.in(1, 5); AG(ungq_worksize<T>(d, st, a, tv, o), ungq(d, st, a, tv, o), ungq_work(d, st, a, tv, work, o), A, t); }
          else if (which == 2) { GenHouseholderQOpts o; o.nb = r.in(1, 5); o.variant = r.p(.5) ? GenHouseholderQVariant::Level2 : GenHouseholderQVariant::Blocked; AG(gen_householder_q_worksize<T>(d, st, a, tv, o), gen_householder_q(d, st, a, tv, o), gen_householder_q_work(d, st, a, tv, work, o), A, t); }
          else if (fwd && col) AG(ung2r_worksize<T>(a, tv), ung2r(a, tv), ung2r_work(a, tv, work), A, t);
          else if (fwd) AG(ungl2_worksize<T>(a, tv), ungl2(a, tv), ungl2_work(a, tv, work), A, t);
          else if (col) AG(ung2l_worksize<T>(a, tv), ung2l(a, tv), ung2l_work(a, tv, work), A, t);
          else AG(ungr2_worksize<T>(a, tv), ungr2(a, tv), ungr2_work(a, tv, work), A, t);)
}
CASE(ungq_level2) { qgen(r, R, 0); }
CASE(ungq) { qgen(r, R, 1); }
CASE(gen_householder_q) { qgen(r, R, 2); }
CASE(ung2) { qgen(r, R, 3); }
CASE(unghr) { TYPES(idx n = r.in(2, 10); idx lo = r.p(.5) ? 0 : r.in(0, long(n) - 1); idx hi = r.p(.5) ? n : r.in(long(lo) + 1, long(n)); R.say("n", n, "ilo", lo, "ihi", hi); Mat<T, L1> A(r, n, n); Vec<T> t(r, n - 1); auto a = A.view(); auto tv = t.view(); gehd2(lo, hi, a, tv); AG(unghr_worksize<T>(lo, hi, a, tv), unghr(lo, hi, a, tv), unghr_work(lo, hi, a, tv, work), A, t);) }
CASE(unmhr) { TYPES(idx n = r.in(2, 8); idx k = r.in(1, 8); Side s = rside(r); Op o = r.p(.5) ? Op::NoTrans : Op::ConjTrans; idx lo = r.p(.5) ? 0 : r.in(0, long(n) - 1); idx hi = r.p(.5) ? n : r.in(long(lo) + 1, long(n)); R.say("n", n, "k", k, c(s), c(o), "ilo", lo, "ihi", hi); Mat<T, L1> A(r, n, n); Vec<T> t(r, n - 1); Mat<T, L1> C(r, s == Side::Left ? n : k, s == Side::Left ? k : n); auto a = A.view(); auto tv = t.view(); auto cv = C.view(); gehd2(lo, hi, a, tv); AG(unmhr_worksize<T>(s, o, lo, hi, a, tv, cv), unmhr(s, o, lo, hi, a, tv, cv), unmhr_work(s, o, lo, hi, a, tv, cv, work), A, t, C);) }
static void ubr(Rng& r, Rep& R, bool p)
{
    TYPES(idx m = r.in(1, 9); idx n = r.in(1, 9); UngbrOpts o; o.nb = r.in(1, 5); R.say("m", m, "n", n, "nb", o.nb); Mat<T, L1> A(r, m, n); idx k = std::min(m, n); Vec<T> t(r, k); Vec<T> u(r, k); auto a = A.view(); auto tv = t.view(); auto tw = u.view(); gebd2(a, tv, tw);
          idx z = p ? n : m; Mat<T, L1> Q(r, z, z); for (idx j = 0; j < z; ++j) for (idx i = 0; i < z; ++i) Q.at(i, j) = i < m && j < n ? A.at(i, j) : T(0); auto q = Q.view();
          if (p) AG(ungbr_p_worksize<T>(m, q, tw, o), ungbr_p(m, q, tw, o), ungbr_p_work(m, q, tw, work, o), Q, u); else AG(ungbr_q_worksize<T>(n, q, tv, o), ungbr_q(n, q, tv, o), ungbr_q_work(n, q, tv, work, o), Q, t);)
}
CASE(ungbr_q) { ubr(r, R, false); }
CASE(ungbr_p) { ubr(r, R, true); }
CASE(getri) { TYPES(idx n = r.in(1, 8); Mat<T, L1> A(r, n, n); for (idx i = 0; i < n; ++i) A.at(i, i) += T(9); GetriOpts o; o.variant = r.p(.5) ? GetriVariant::UXLI : GetriVariant::UILI; R.say("n", n); std::vector<idx> p(n); auto a = A.view(); if (getrf(a, p)) return; AG(getri_worksize<T>(a, p, o), getri(a, p, o), getri_work(a, p, work, o), A);) }
static void eigs(Rng& r, Rep& R, int which)
{
    TYPES(idx n = which ? r.in(1, 34) : r.in(1, 10); bool wt = r.p(.6); bool wz = r.p(.6); R.say("n", n, "want_t", wt, "want_z", wz); Mat<T, L1> A(r, n, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) A.at(i, j) = i <= j + 1 ? T(double(r.in(-1000, 1000)) / 500) : T(0); Mat<T, L1> Q(r, n, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) Q.at(i, j) = i == j; Vec<Z> w(r, n); auto a = A.view(); auto q = Q.view(); auto wv = w.view();
          QRIterationOpts o; o.nmin = 15; o.variant = which == 2 ? QRIterationVariant::DoubleShift : QRIterationVariant::MultiShift; int nsh = int(r.in(2, 6)); int nwin = int(r.in(2, 8)); o.nshift_recommender = [nsh](size_t, size_t) -> size_t { return nsh; }; o.deflation_window_recommender = [nwin](size_t, size_t) -> size_t { return nwin; };
          idx z = 0; AG(qr_iteration_worksize<T>(wt, wz, z, n, a, wv, q, o), qr_iteration(wt, wz, z, n, a, wv, q, o), qr_iteration_work(wt, wz, z, n, a, wv, q, work, o), A, Q, w);)
}
CASE(qr_iteration) { eigs(r, R, int(r.in(0, 2))); }
int main(int a, char** v) { return S::drive(a, v); }
