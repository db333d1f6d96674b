// Householder reflectors: generation, application, block reflectors, Q.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unm2r.hpp"
#include "tlapack/lapack/unm2l.hpp"
#include "tlapack/lapack/unml2.hpp"
#include "tlapack/lapack/unmr2.hpp"
#include "tlapack/lapack/unmqr.hpp"
#include "tlapack/lapack/unmql.hpp"
#include "tlapack/lapack/unmlq.hpp"
#include "tlapack/lapack/unmrq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/ungqr.hpp"
#include "tlapack/lapack/ungql.hpp"
#include "tlapack/lapack/unglq.hpp"
#include "tlapack/lapack/ungrq.hpp"
#include "tlapack/lapack/householder_q_mul.hpp"
#include "tlapack/lapack/gen_householder_q.hpp"
using namespace S;

template <class T> T hv(Rng& r) { return rv<T>(r) * T(.25); }
template <class T> T htau(Rng& r) { int c = r.in(0, 9); return c == 0 ? T(0) : c < 3 ? T(1) : rv<T>(r) * T(.25); }
// a panel of k reflectors of order n; positions that must not be read hold NaN
template <class T, Layout L> struct Panel {
    bool fwd, col; idx n, k; Mat<T, L> V; std::vector<T> tb; std::vector<Z> tau;
    Panel(Rng& r, bool f, bool c_, idx n_, idx k_, bool poison) : fwd(f), col(c_), n(n_), k(k_), V(r, c_ ? n_ : k_, c_ ? k_ : n_), tb(k_ + 2, rd<T>::nan()), tau(k_)
    {
        for (idx i = 0; i < k; ++i) {
            Z nrm = 1;
            for (idx p = 0; p < n; ++p) {
                T& x = col ? V.at(p, i) : V.at(i, p);
                x = n > 8 ? hv<T>(r) * T(.5) : hv<T>(r);
                idx q = fwd ? i : n - k + i;
                if (fwd ? p <= q : p >= q) { if (poison) x = rd<T>::nan(); } else nrm += std::norm(Z(x));
            }
            tb[1 + i] = r.p(.5) ? T(2. / nrm.real()) : n > 8 ? T(r.p(.2) ? 0 : 1.5 / nrm.real()) * (rv<T>(r) * T(.3)) : htau<T>(r);
            tau[i] = Z(tb[1 + i]);
        }
        V.save();
    }
    LegacyVector<T, idx> tv() { return LegacyVector<T, idx>(k, tb.data() + 1); }
    Refl h() { return refl(fwd, col, n, k, [&](idx i, idx j) { return V.old(i, j); }, tau); }
    bool kept() { if (!V.kept()) return false; for (idx i = 0; i < k; ++i) if (!same(Z(tb[1 + i]), tau[i])) return false; return isn(tb[0]) && isn(tb[k + 1]); }
};
inline bool all(idx, idx) { return true; }

CASE(larfg)
{
    TYPES(
        idx n = dim(r, false); bool col = r.p(.5); int sc = r.in(0, 7);
        double s = sc == 0 ? 1e-306 : sc == 1 ? 1e-300 : sc == 2 ? 1e150 : 1; int kind = r.in(0, 5);
        bool form = r.p(.5); bool fwd = !form || r.p(.5); if (form && n == 0) n = 1;
        idx nx = form ? n - 1 : n;
        R.say("n", nx, col ? "col" : "row", "scale", s, "zero", kind == 0, form ? "vector" : "split", fwd);
        Vec<T> v(r, nx + 1);
        for (idx i = 0; i <= nx; ++i) v.at(i) *= s;
        if (kind == 0) for (idx i = 0; i <= nx; ++i) if (i != (form ? (fwd ? 0 : nx) : nx)) v.at(i) = T(0);
        idx pa = form ? (fwd ? 0 : nx) : nx;
        if (kind == 1) v.at(pa) = T(0);
        v.save();
        T tau = rd<T>::nan(); T alpha;
        StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise;
        auto w = v.view();
        if (form) { larfg(fwd ? Direction::Forward : Direction::Backward, sv, w, tau); alpha = v.at(pa); }
        else { auto x = slice(w, std::pair<idx, idx>{0, nx}); alpha = v.at(nx); larfg(sv, alpha, x, tau); if (!same(v.at(nx), v.old(nx))) R.fail("frame", "wrote outside x"); v.at(nx) = alpha; }
        if (!v.kept(true)) R.fail("frame", "wrote outside v");
        // reference: H = I - tau (1;y)(1;y)^H for columns; for rows the stored y is the conjugate
        Z b = Z(alpha) / s; Z t = tau;
        std::vector<Z> u(nx + 1); std::vector<Z> in(nx + 1); double nrm = 0; bool xz = true;
        for (idx i = 0; i <= nx; ++i) {
            Z y = i == pa ? Z(1) : Z(v.at(i)); Z o = Z(v.old(i)) / s; nrm += std::norm(o); if (i != pa && o != Z(0)) xz = false;
            if (!col) { y = std::conj(y); }
            u[i] = y; in[i] = o;
        }
        nrm = std::sqrt(nrm);
        Z a0 = in[pa];
        if (xz && a0.imag() == 0) { if (tau != T(0)) R.fail("value", "tau must be 0 for x = 0 and real alpha"); if (!same(alpha, v.old(pa))) R.fail("value", "alpha changed"); for (idx i = 0; i <= nx; ++i) if (i != pa && v.at(i) != T(0)) R.fail("value", "x changed"); return; }
        if (std::abs(b.imag()) > 1e-12 || !near(std::abs(b), Z(nrm), 0.)) { R.fail("value", "beta = " + str(b) + " is not real of modulus " + str(nrm)); return; }
        if (b.real() * a0.real() > 0) R.fail("value", "beta has the sign of real(alpha)");
        if (!(t.real() >= 1 - 1e-9 && t.real() <= 2 + 1e-9 && std::abs(t - 1.) <= 1 + 1e-9)) { R.fail("value", "tau = " + str(t) + " outside 1 <= real(tau) <= 2, |tau-1| <= 1"); return; }
        // column: H^H in = beta e ; row: in H = beta e^T
        DM X(nx + 1, 1);
        for (idx i = 0; i <= nx; ++i) X(i, 0) = col ? in[i] : std::conj(in[i]);
        if (col) hl(X, u, std::conj(t)); else hl(X, u, std::conj(t));
        for (idx i = 0; i <= nx; ++i) if (!near(X(i, 0), i == pa ? b : Z(0), nrm)) { R.fail("value", "reflected vector entry " + std::to_string(i) + " = " + str(X(i, 0)) + " instead of " + str(i == pa ? b : Z(0))); return; }
        // unitary
        double vv = 0; for (auto& y : u) vv += std::norm(y);
        if (!near(Z(2 * t.real()), Z(std::norm(t) * vv), 1)) R.fail("value", "H is not unitary");)
}
CASE(larf)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); bool left = r.p(.5); bool fwd = r.p(.5); bool col = r.p(.5); bool split = r.p(.4); bool wk = r.p(.5); bool poison = r.p(.5);
        if (left ? m == 0 : n == 0) { if (left) m = 1; else n = 1; }
        R.say("m", m, "n", n, left ? "L" : "R", fwd ? "F" : "B", col ? "C" : "R", split ? "C0C1" : "C", wk);
        idx k = left ? m : n; if (split) fwd = true;
        Mat<T, L1> C(r, m, n); Vec<T> v(r, k); T tau = htau<T>(r);
        idx p = fwd ? 0 : k - 1; if (poison) v.at(p) = rd<T>::nan();
        C.save(); v.save();
        auto c_ = C.view(); auto w = v.view();
        Side sd = left ? Side::Left : Side::Right; StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise; Direction d = fwd ? Direction::Forward : Direction::Backward;
        if (split) {
            auto x = slice(w, std::pair<idx, idx>{1, k});
            if (left) { auto C0 = slice(c_, 0, std::pair<idx, idx>{0, n}); auto C1 = slice(c_, std::pair<idx, idx>{1, m}, std::pair<idx, idx>{0, n});
                if (wk) { auto wi = larf_worksize<T>(sd, sv, x, tau, C0, C1); Work<T> W(wi.m, wi.n); auto ww = W.view(); larf_work(sd, sv, x, tau, C0, C1, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
                else larf(sd, sv, x, tau, C0, C1); }
            else { auto C0 = slice(c_, std::pair<idx, idx>{0, m}, 0); auto C1 = slice(c_, std::pair<idx, idx>{0, m}, std::pair<idx, idx>{1, n});
                if (wk) { auto wi = larf_worksize<T>(sd, sv, x, tau, C0, C1); Work<T> W(wi.m, wi.n); auto ww = W.view(); larf_work(sd, sv, x, tau, C0, C1, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
                else larf(sd, sv, x, tau, C0, C1); }
        }
        else if (wk) { auto wi = larf_worksize<T>(sd, d, sv, w, tau, c_); Work<T> W(wi.m, wi.n); auto ww = W.view(); larf_work(sd, d, sv, w, tau, c_, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
        else larf(sd, d, sv, w, tau, c_);
        std::vector<Z> u(k); double vn = 1; for (idx i = 0; i < k; ++i) { u[i] = i == p ? Z(1) : Z(v.old(i)); if (!col) u[i] = std::conj(u[i]); vn += std::norm(u[i]); }
        DM W = was(C);
        if (left) hl(W, u, Z(tau)); else { DM t = ct(W); hl(t, u, std::conj(Z(tau))); W = ct(t); }
        differ(R, poison ? "access" : "value", "C", cur(C), W, vn * 10);
        if (!C.kept(all)) R.fail("frame", "wrote outside C");
        if (!v.kept(true) || [&] { for (idx i = 0; i < k; ++i) if (!same(v.at(i), v.old(i))) return true; return false; }()) R.fail("frame", "wrote to v");)
}
CASE(larft)
{
    TYPES(
        idx n = dim(r); idx k = n ? r.in(0, std::min<idx>(n, 12)) : 0; bool fwd = r.p(.5); bool col = r.p(.5);
        R.say("n", n, "k", k, fwd ? "F" : "B", col ? "C" : "R");
        Panel<T, L1> P(r, fwd, col, n, k, true); Mat<T, L2> Tm(r, k + r.in(0, 1), k + r.in(0, 1)); Tm.save();
        auto V = P.V.view(); auto t = P.tv(); auto tt = Tm.view();
        larft(fwd ? Direction::Forward : Direction::Backward, col ? StoreV::Columnwise : StoreV::Rowwise, V, t, tt);
        Refl h = P.h();
        DM Vd = mk(n, k, [&](idx i, idx j) { return h.v[j][i]; });
        auto in = [&](idx i, idx j) { return i < k && j < k && (fwd ? i <= j : i >= j); };
        DM Td = mk(k, k, [&](idx i, idx j) { return in(i, j) ? Z(Tm.at(i, j)) : Z(0); });
        DM H = sub(eye(n), mul(Vd, mul(Td, ct(Vd))));
        differ(R, "value", "I - V T V^H", H, prod(h, !fwd), 10 + mx(Td));
        if (!Tm.kept(in)) R.fail("frame", "wrote outside the triangle of T");
        if (!P.kept()) R.fail("frame", "wrote to V or tau");)
}
CASE(larfb)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); bool left = r.p(.5); bool fwd = r.p(.5); bool col = r.p(.5); Op o = r.p(.5) ? Op::NoTrans : (!cplx && r.p(.3)) ? Op::Trans : Op::ConjTrans; bool wk = r.p(.5);
        idx q = left ? m : n; idx k = q ? r.in(0, std::min<idx>(q, 9)) : 0;
        R.say("m", m, "n", n, "k", k, left ? "L" : "R", c(o), fwd ? "F" : "B", col ? "C" : "R", wk);
        Panel<T, L1> P(r, fwd, col, q, k, true); Mat<T, L2> Tm(r, k, k); Mat<T, L2> C(r, m, n);
        for (idx j = 0; j < k; ++j) for (idx i = 0; i < k; ++i) if (fwd ? i > j : i < j) Tm.at(i, j) = rd<T>::nan(); else Tm.at(i, j) *= T(.25);
        Tm.save(); C.save();
        auto V = P.V.view(); auto tt = Tm.view(); auto cc = C.view();
        Side sd = left ? Side::Left : Side::Right; StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise; Direction d = fwd ? Direction::Forward : Direction::Backward;
        if (wk) { auto wi = larfb_worksize<T>(sd, o, d, sv, V, tt, cc); Work<T> W(wi.m, wi.n); auto ww = W.view(); larfb_work(sd, o, d, sv, V, tt, cc, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
        else larfb(sd, o, d, sv, V, tt, cc);
        Refl h = P.h();
        DM Vd = mk(q, k, [&](idx i, idx j) { return h.v[j][i]; });
        DM Td = mk(k, k, [&](idx i, idx j) { return (fwd ? i <= j : i >= j) ? Z(Tm.old(i, j)) : Z(0); });
        if (o != Op::NoTrans) Td = ct(Td);
        DM H = sub(eye(q), mul(Vd, mul(Td, ct(Vd))));
        DM W = left ? mul(H, was(C)) : mul(was(C), H);
        differ(R, "value", "C", cur(C), W, 100);
        if (!C.kept(all)) R.fail("frame", "wrote outside C");
        if (!P.kept() || !Tm.kept()) R.fail("frame", "wrote to V or T");)
}
// C := op(Q) C or C op(Q); rowwise storage: Q is the conjugate transpose of the product
static void qmul(Rng& r, Rep& R, int which)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); bool left = r.p(.5); bool fwd = r.p(.5); bool col = r.p(.5); Op o = r.p(.5) ? Op::NoTrans : Op::ConjTrans; bool wk = r.p(.5); idx nb = r.in(1, 5);
        if (r.p(.1)) nb = 32;
        idx q = left ? m : n; idx k = q ? r.in(0, std::min<idx>(q, 14)) : 0; if (q > 33 && r.p(.5)) k = r.in(0, q);
        R.say("m", m, "n", n, "k", k, left ? "L" : "R", c(o), fwd ? "F" : "B", col ? "C" : "R", wk, "nb", nb, "variant", which);
        Panel<T, L1> P(r, fwd, col, q, k, true); Mat<T, L2> C(r, m, n); C.save();
        auto V = P.V.view(); auto t = P.tv(); auto cc = C.view();
        Side sd = left ? Side::Left : Side::Right; StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise; Direction d = fwd ? Direction::Forward : Direction::Backward;
        if (which == 0) {
            if (wk && m && n && k) { auto wi = unmq_level2_worksize<T>(sd, o, d, sv, V, t, cc); Work<T> W(wi.m, wi.n); auto ww = W.view(); unmq_level2_work(sd, o, d, sv, V, t, cc, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else unmq_level2(sd, o, d, sv, V, t, cc);
        } else if (which == 1) {
            UnmqOpts op; op.nb = nb;
            if (wk && m && n && k) { auto wi = unmq_worksize<T>(sd, o, d, sv, V, t, cc, op); Work<T> W(wi.m, wi.n); auto ww = W.view(); unmq_work(sd, o, d, sv, V, t, cc, ww, op); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else unmq(sd, o, d, sv, V, t, cc, op);
        } else if (which == 2) {
            if (col && fwd) unm2r(sd, o, V, t, cc); else if (col) unm2l(sd, o, V, t, cc); else if (fwd) unml2(sd, o, V, t, cc); else unmr2(sd, o, V, t, cc);
        } else if (which == 3) {
            if (col && fwd) { UnmqrOpts op; op.nb = nb; unmqr(sd, o, V, t, cc, op); }
            else if (col) { UnmqlOpts op; op.nb = nb; unmql(sd, o, V, t, cc, op); }
            else if (fwd) { UnmlqOpts op; op.nb = nb; unmlq(sd, o, V, t, cc, op); }
            else { UnmrqOpts op; op.nb = nb; unmrq(sd, o, V, t, cc, op); }
        } else {
            HouseholderQMulOpts op; op.nb = nb; op.variant = r.p(.5) ? HouseholderQMulVariant::Blocked : HouseholderQMulVariant::Level2;
            if (wk && m && n && k) { auto wi = householder_q_mul_worksize<T>(sd, o, d, sv, V, t, cc, op); Work<T> W(wi.m, wi.n); auto ww = W.view(); householder_q_mul_work(sd, o, d, sv, V, t, cc, ww, op); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else householder_q_mul(sd, o, d, sv, V, t, cc, op);
        }
        DM Q = prod(P.h(), !fwd); if (!col) Q = ct(Q); if (o != Op::NoTrans) Q = ct(Q);
        DM W = left ? mul(Q, was(C)) : mul(was(C), Q);
        differ(R, "value", "C", cur(C), W, 100 * (1 + mx(Q)));
        if (!C.kept(all)) R.fail("frame", "wrote outside C");
        if (!P.kept()) R.fail("frame", "wrote to V or tau");)
}
CASE(unmq_level2) { qmul(r, R, 0); }
CASE(unmq) { qmul(r, R, 1); }
CASE(unm2r_like) { qmul(r, R, 2); }
CASE(unmqr_like) { qmul(r, R, 3); }
CASE(householder_q_mul) { qmul(r, R, 4); }
// generation of the first/last columns (rows) of Q
static void qgen(Rng& r, Rep& R, int which)
{
    TYPES(
        bool fwd = r.p(.5); bool col = r.p(.5); bool wk = r.p(.5); idx nb = r.p(.1) ? 32 : r.in(1, 5);
        idx N = dim(r); idx p = N ? r.in(0, N) : 0; idx k = p ? r.in(r.p(.2) ? 0 : 1, std::min<idx>(p, 40)) : 0;
        R.say("N", N, "p", p, "k", k, fwd ? "F" : "B", col ? "C" : "R", wk, "nb", nb, "variant", which);
        Panel<T, L1> P(r, fwd, col, N, k, true);
        Mat<T, L2> A(r, col ? N : p, col ? p : N); A.fill(all, rd<T>::nan());
        for (idx i = 0; i < k; ++i) for (idx s = 0; s < N; ++s) { idx q = fwd ? i : p - k + i; if (col) A.at(s, q) = P.V.at(s, i); else A.at(q, s) = P.V.at(i, s); }
        A.save(); auto a = A.view(); auto t = P.tv();
        StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise; Direction d = fwd ? Direction::Forward : Direction::Backward;
        if (which == 0) {
            if (wk && N && p && k) { auto wi = ungq_level2_worksize<T>(d, sv, a, t); Work<T> W(wi.m, wi.n); auto ww = W.view(); ungq_level2_work(d, sv, a, t, ww); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else ungq_level2(d, sv, a, t);
        } else if (which == 1) {
            UngqOpts op; op.nb = nb;
            if (wk && N && p && k) { auto wi = ungq_worksize<T>(d, sv, a, t, op); Work<T> W(wi.m, wi.n); auto ww = W.view(); ungq_work(d, sv, a, t, ww, op); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else ungq(d, sv, a, t, op);
        } else if (which == 2) {
            if (col && fwd) ung2r(a, t); else if (col) ung2l(a, t); else if (fwd) ungl2(a, t); else ungr2(a, t);
        } else if (which == 3) {
            if (col && fwd) { UngqrOpts op; op.nb = nb; ungqr(a, t, op); }
            else if (col) { UngqlOpts op; op.nb = nb; ungql(a, t, op); }
            else if (fwd) { UnglqOpts op; op.nb = nb; unglq(a, t, op); }
            else { UngrqOpts op; op.nb = nb; ungrq(a, t, op); }
        } else {
            GenHouseholderQOpts op; op.nb = nb; op.variant = r.p(.5) ? GenHouseholderQVariant::Blocked : GenHouseholderQVariant::Level2;
            if (wk && N && p && k) { auto wi = gen_householder_q_worksize<T>(d, sv, a, t, op); Work<T> W(wi.m, wi.n); auto ww = W.view(); gen_householder_q_work(d, sv, a, t, ww, op); if (!W.ok()) R.fail("workspace", "wrote outside the queried workspace"); }
            else gen_householder_q(d, sv, a, t, op);
        }
        DM Q = prod(P.h(), !fwd); if (!col) Q = ct(Q);
        DM W = mk(A.m, A.n, [&](idx i, idx j) { return col ? Q(i, fwd ? j : N - p + j) : Q(fwd ? i : N - p + i, j); });
        differ(R, "value", "Q", cur(A), W, 100 * (1 + mx(Q)));
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        for (idx i = 0; i < k; ++i) if (!same(Z(P.tb[1 + i]), P.tau[i])) R.fail("frame", "wrote to tau");)
}
CASE(ungq_level2) { qgen(r, R, 0); }
CASE(ungq) { qgen(r, R, 1); }
CASE(ung2r_like) { qgen(r, R, 2); }
CASE(ungqr_like) { qgen(r, R, 3); }
CASE(gen_householder_q) { qgen(r, R, 4); }
int main(int a, char** b) { return drive(a, b); }
