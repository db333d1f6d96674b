// Generalized eigenvalues and Schur forms of pencils (A,B): bounded evaluation.
#define TLAPACK_NDEBUG
#include "eig.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/aggressive_early_deflation_generalized.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
#include "tlapack/lapack/generalized_schur_swap.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/hessenberg_rq.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/lahqz_eig22.hpp"
#include "tlapack/lapack/lahqz_schur22.hpp"
#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
static double sc(Rng& r, int e) { return r.p(.6) ? 1 : std::ldexp(1., int(r.in(-e, e))); }
template <class T> T k22(Rng& r) { int k = r.in(0, 3); T x = k == 0 ? rv<T>(r) : rn<T>(r); if (r.p(.15)) x = 0; return x; }
// the coefficients of det(beta A - alpha B), both matrices scaled to size one
static void poly(Rep& R, const char* w, ZL a, ZL b, ZL c, ZL d, ZL e, ZL f, ZL g, Z a1, Z a2, Z b1, Z b2, double fac = 1)
{
    if (isn(a1) || isn(a2) || isn(b1) || isn(b2)) { R.fail("value", std::string(w) + ": eigenvalue not finite: " + str(a1) + "/" + str(b1) + ", " + str(a2) + "/" + str(b2)); return; }
    if ((a1 == Z(0) && b1 == Z(0)) || (a2 == Z(0) && b2 == Z(0))) { if (std::abs((a * d - b * c)) > 0 || true) return; }
    LD na = std::max(std::max(std::abs(a), std::abs(b)), std::max(std::abs(c), std::abs(d))), nb = std::max(std::abs(e), std::max(std::abs(f), std::abs(g)));
    if (na == 0 || nb == 0) return;
    a /= na; b /= na; c /= na; d /= na; e /= nb; f /= nb; g /= nb;
    ZL p[3] = {e * g, -(a * g + d * e - c * f), a * d - b * c};
    ZL A1 = ZL(a1) / na, A2 = ZL(a2) / na, B1 = ZL(b1) / nb, B2 = ZL(b2) / nb;
    LD m1 = std::max(std::abs(A1), std::abs(B1)), m2 = std::max(std::abs(A2), std::abs(B2)); A1 /= m1; B1 /= m1; A2 /= m2; B2 /= m2;
    ZL q[3] = {B1 * B2, -(A1 * B2 + A2 * B1), A1 * A2};
    LD mp = 0, mq = 0; for (int k = 0; k < 3; ++k) { mp = std::max(mp, std::abs(p[k])); mq = std::max(mq, std::abs(q[k])); }
    LD bm = std::min(std::abs(e), std::abs(g)); if (!(mp > 1e-6L)) return; (void)bm;
    for (int k = 0; k < 3; ++k) for (int l = 0; l < k; ++l) { LD x = std::abs(p[k] / mp * (q[l] / mq) - p[l] / mp * (q[k] / mq)); if (!(x <= 1e-13L * fac / mp)) { R.fail("value", std::string(w) + ": (" + str(a1) + "," + str(b1) + "), (" + str(a2) + "," + str(b2) + ") are not the eigenvalues of the pencil (" + str(x) + ")"); return; } }
}
template <class T> void pencil(Rng& r, Rep& R, T* x, double s, double t)
{
    for (int k = 0; k < 7; ++k) x[k] = k22<T>(r) * (k < 4 ? s : t);
    if (r.p(.1)) x[3] = x[0]; if (r.p(.1)) x[6] = x[4]; if (r.p(.1)) { x[4] = x[6] = T(t); x[5] = 0; }
    if (r.p(.1)) x[r.p(.5) ? 4 : 6] *= 1e-20;
    for (int k = 0; k < 7; ++k) R.say(x[k]);
}
CASE(lahqz_eig22)
{
    auto go = [&](auto* tp) {
        typedef typename std::remove_pointer<decltype(tp)>::type T; constexpr bool cx = !std::is_same<T, D>::value;
        R.say(cx ? "c" : "d"); T x[7]; pencil(r, R, x, sc(r, 200), sc(r, 200)); if (x[0] == T(0) && x[1] == T(0) && x[2] == T(0) && x[3] == T(0)) return; Mat<T, Layout::ColMajor> A(r, 2, 2), B(r, 2, 2);
        A.at(0, 0) = x[0]; A.at(0, 1) = x[1]; A.at(1, 0) = x[2]; A.at(1, 1) = x[3]; B.at(0, 0) = x[4]; B.at(0, 1) = x[5]; B.at(1, 1) = x[6]; B.at(1, 0) = rd<T>::nan();
        A.save(); B.save(); auto a = A.view(); auto b = B.view(); Z a1, a2; T b1 = 7, b2 = 7; lahqz_eig22(a, b, a1, a2, b1, b2);
        if (!cx && a1.imag() != 0 && !(Z(b1) == Z(b2) && a1 == std::conj(a2))) R.fail("value", "eigenvalues of a real pencil are not conjugate");
        poly(R, "lahqz_eig22", x[0], x[1], x[2], x[3], x[4], x[5], x[6], a1, a2, b1, b2);
        if (!A.kept() || !B.kept()) R.fail("frame", "wrote to the input");
    };
    if (r.p(.5)) go((D*)0); else go((Z*)0);
}
CASE(lahqz_schur22)
{
    auto go = [&](auto* tp) {
        typedef typename std::remove_pointer<decltype(tp)>::type T; constexpr bool cx = !std::is_same<T, D>::value;
        R.say(cx ? "c" : "d"); T x[7]; pencil(r, R, x, sc(r, 200), sc(r, 200)); if (x[0] == T(0) && x[1] == T(0) && x[2] == T(0) && x[3] == T(0)) return; Mat<T, Layout::ColMajor> A(r, 2, 2), B(r, 2, 2);
        A.at(0, 0) = x[0]; A.at(0, 1) = x[1]; A.at(1, 0) = x[2]; A.at(1, 1) = x[3]; B.at(0, 0) = x[4]; B.at(0, 1) = x[5]; B.at(1, 1) = x[6]; B.at(1, 0) = T(0);
        A.save(); B.save(); auto a = A.view(); auto b = B.view(); Z a1, a2; D b1 = 7, b2 = 7, cl = 7, cr = 7; T sl = T(7), sr = T(7), s0 = T(7), s1 = T(7);
        lahqz_schur22(a, b, a1, a2, b1, b2, cl, sl, cr, sr, s0, s1);
        DM S = cur(A), W = cur(B), A0 = was(A), B0 = was(B); if (!fin(S) || !fin(W)) { R.fail("value", "not finite"); return; }
        double na = mx(A0), nb = mx(B0);
        DM Q(2, 2), V(2, 2); Q(0, 0) = cl; Q(0, 1) = -Z(sl); Q(1, 0) = std::conj(Z(sl)); Q(1, 1) = cl; V(0, 0) = cr; V(0, 1) = -std::conj(Z(sr)); V(1, 0) = Z(sr); V(1, 1) = cr; for (idx i = 0; i < 2; ++i) { V(i, 0) *= Z(s0); V(i, 1) *= Z(s1); }
        if (!near0(R, "Q^H Q - I", sub(mul(ct(Q), Q), eye(2)), 1e-13) || !near0(R, "Z^H Z - I", sub(mul(ct(V), V), eye(2)), 1e-13)) return;
        near0(R, "Q S Z^H - A", sub(mul(mul(Q, S), ct(V)), A0), 1e-13 * na); near0(R, "Q T Z^H - B", sub(mul(mul(Q, W), ct(V)), B0), 1e-13 * nb);
        if (W(1, 0) != Z(0)) R.fail("value", "T is not upper triangular"); for (idx i = 0; i < 2; ++i) if (W(i, i).imag() != 0 || W(i, i).real() < 0) R.fail("value", "diagonal of T is not real and non-negative: " + str(W(i, i)));
        if (S(1, 0) != Z(0)) { if (cx || a1.imag() == 0) R.fail("value", "S is not upper triangular although the eigenvalues are real"); if (W(0, 1) != Z(0) || !(W(0, 0).real() > 0) || !(W(1, 1).real() > 0)) R.fail("value", "2x2 block: T is not diagonal with positive entries"); }
        poly(R, "eigenvalues", x[0], x[1], x[2], x[3], x[4], x[5], x[6], a1, a2, b1, b2);
        if (S(1, 0) == Z(0)) for (idx i = 0; i < 2; ++i) { Z al = i ? a2 : a1; D be = i ? b2 : b1; nb = std::max(nb, 1e-290); na = std::max(na, 1e-290); double m = std::max(std::abs(al) / std::max(na, 1e-290), std::abs(be) / std::max(nb, 1e-290)); if (!(std::abs(be / nb * (S(i, i) / na) - al / na * (W(i, i) / nb)) <= 1e-12 * m)) R.fail("value", "(alpha,beta) " + str(i) + " = (" + str(al) + "," + str(be) + ") differs from the diagonal (" + str(S(i, i)) + "," + str(W(i, i)) + ")"); }
    };
    if (r.p(.5)) go((D*)0); else go((Z*)0);
}
CASE(lahqz_shiftcolumn)
{
    auto go = [&](auto* tp) {
        typedef typename std::remove_pointer<decltype(tp)>::type T; constexpr bool cx = !std::is_same<T, D>::value;
        idx n = r.in(2, 3); double s = sc(r, 60), t = sc(r, 60); Mat<T, Layout::ColMajor> A(r, n, n), B(r, n, n);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) { A.at(i, j) = i <= j + 1 ? k22<T>(r) * s : T(0); B.at(i, j) = i <= j ? k22<T>(r) * t : T(0); }
        for (idx j = 0; j < n; ++j) if (std::abs(B.at(j, j)) < .05 * t) B.at(j, j) += T(t);
        for (idx j = 0; j < n; ++j) if (std::abs(B.at(j, j)) < .05 * t) return;
        Z s1, s2; T b1, b2; if (cx) { s1 = k22<Z>(r) * s; s2 = k22<Z>(r) * s; b1 = rn<T>(r) * t; b2 = rn<T>(r) * t; } else { b1 = rn<T>(r) * t; if (r.p(.6)) { s1 = k22<Z>(r) * s; s2 = std::conj(s1); b2 = b1; } else { s1 = k22<D>(r) * s; s2 = k22<D>(r) * s; b2 = rn<T>(r) * t; } }
        R.say(cx ? "c" : "d", "n", n, "s", s1, s2, "beta", b1, b2); for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) R.say(A.at(i, j), B.at(i, j));
        Vec<T> v(r, n); A.save(); B.save(); v.save(); auto a = A.view(); auto b = B.view(); auto vv = v.view(); lahqz_shiftcolumn(a, b, vv, s1, s2, b1, b2);
        typedef std::vector<ZL> V; double den = (double)std::abs(ZL(B.at(0, 0)));
        auto ap = [&](Z be, Z al, const V& y) { V w(n); for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) w[i] += (ZL(be) * ZL(A.at(i, j)) - ZL(al) * ZL(B.at(i, j))) * y[j]; return w; };
        auto so = [&](V y) { for (idx k = n; k-- > 0;) { for (idx j = k + 1; j < n; ++j) y[k] -= ZL(B.at(k, j)) * y[j]; y[k] /= ZL(B.at(k, k)); } return y; };
        V e(n); e[0] = 1; V w = ap(Z(b1), s1, e); LD sz = 0;   // n = 2: the documented product with one shift
        if (n == 2 && !cx && s1.imag() != 0) return;            // a single complex shift has no real column
        LD amp = 1; if (n == 3) { w = so(w); LD mw = 0; for (auto& y : w) mw = std::max(mw, std::abs(y)); amp = mw; w = ap(Z(b2), s2, w); }
        LD lw = 0, lv = 0; for (idx i = 0; i < n; ++i) { lw = std::max(lw, std::abs(w[i])); lv = std::max(lv, (LD)std::abs(v.at(i))); }
        (void)den; sz = (n == 3 ? amp * (std::abs(Z(b2)) * mx(was(A)) + std::abs(s2) * mx(was(B))) : std::abs(Z(b1)) * mx(was(A)) + std::abs(s1) * mx(was(B)));
        if (!std::isfinite(lv)) { R.fail("value", "not finite"); return; }
        if (!(lw > 1e-5L * sz)) return;
        if (!(lv > 0)) { R.fail("value", "zero vector"); return; }
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < i; ++j) { LD m = std::abs(w[i] / lw * (ZL(v.at(j)) / lv) - w[j] / lw * (ZL(v.at(i)) / lv)); if (!(m <= 1e-8L)) { R.fail("value", "v is not a multiple of the shifted product, components " + str(j) + "," + str(i) + ": " + str(m)); return; } }
        if (!A.kept() || !B.kept() || !v.kept(true)) R.fail("frame", "wrote outside v");
    };
    if (r.p(.6)) go((D*)0); else go((Z*)0);
}
// ------------------------------------------------------ Hessenberg-triangular
static void ggh(Rng& r, Rep& R, bool blocked)
{
    TYPES(
        idx n = r.p(.05) ? 0 : r.p(.1) ? 1 : r.p(.7) ? r.in(2, 9) : r.in(10, 24); if (n == 0) n = 1; idx lo = 0; idx hi = n; if (r.p(.4)) { lo = r.in(0, long(n) - 1); hi = r.in(long(lo) + 1, long(n)); }
        bool wq = r.p(.75); bool wz = r.p(.75); Gghd3Opts o; o.nb = r.p(.2) ? 32 : r.in(1, 5); R.say("n", n, "ilo", lo, "ihi", hi, "wantq", wq, "wantz", wz, "nb", o.nb);
        int k = r.in(0, 1); double s = sc(r, 200); double t = sc(r, 200);
        Mat<T, L1> A(r, n, n); Mat<T, L1> B(r, n, n); Mat<T, L1> Q(r, n, n); Mat<T, L1> V(r, n, n);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) { bool in = i <= j || (j >= lo && i < hi); A.at(i, j) = in ? entry<T>(r, k) * s : T(0); B.at(i, j) = i <= j ? entry<T>(r, k) * t : rv<T>(r) * t; }
        DM Q0 = r.p(.5) ? eye(n) : unitary<T>(r, n); DM V0 = r.p(.5) ? eye(n) : unitary<T>(r, n);
        put(Q, Q0); put(V, V0);
        A.save(); B.save(); Q.save(); V.save(); auto a = A.view(); auto b = B.view(); auto q = Q.view(); auto z = V.view();
        int rc = blocked ? gghd3(wq, wz, lo, hi, a, b, q, z, o) : gghrd(wq, wz, lo, hi, a, b, q, z);
        if (rc) R.fail("value", "returned " + str(rc));
        DM A0 = was(A); DM B0 = was(B); for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) B0(i, j) = 0;
        double tol = 1e-14 * (n + 10) * 4; double na = fro(A0); double nb = fro(B0);
        for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) {
            if (Z(B.at(i, j)) != Z(0)) { R.fail("value", str2("B", i, j, B.at(i, j), Z(0))); return; }
            if (i > j + 1 && std::abs(A.at(i, j)) > 0) { R.fail("value", str2("A", i, j, A.at(i, j), Z(0))); return; }
        }
        if (wq) { DM Q1 = cur(Q); if (!near0(R, "Q^H Q - I", sub(mul(ct(Q1), Q1), eye(n)), tol)) return; } else if (!Q.kept()) { R.fail("frame", "Q was changed although wantq is false"); return; }
        if (wz) { DM V1 = cur(V); if (!near0(R, "Z^H Z - I", sub(mul(ct(V1), V1), eye(n)), tol)) return; } else if (!V.kept()) { R.fail("frame", "Z was changed although wantz is false"); return; }
        if (wq && wz) {
            near0(R, "Q A Z^H", sub(mul(mul(cur(Q), cur(A)), ct(cur(V))), mul(mul(Q0, A0), ct(V0))), tol * na);
            near0(R, "Q B Z^H", sub(mul(mul(cur(Q), cur(B)), ct(cur(V))), mul(mul(Q0, B0), ct(V0))), tol * nb);
        }
        else {   // A A^H in the wanted basis
            if (wq) { DM P = mul(ct(Q0), cur(Q)); DM G = mul(cur(A), ct(cur(A))); near0(R, "Q A A^H Q^H", sub(mul(mul(P, G), ct(P)), mul(A0, ct(A0))), tol * na * na); }
            if (wz) { DM P = mul(ct(V0), cur(V)); DM G = mul(ct(cur(A)), cur(A)); near0(R, "Z A^H A Z^H", sub(mul(mul(P, G), ct(P)), mul(ct(A0), A0)), tol * na * na); }
            if (std::fabs(fro(cur(A)) - na) > tol * na || std::fabs(fro(cur(B)) - nb) > tol * nb) R.fail("value", "norm changed");
        }
        auto all = [](idx, idx) { return true; };
        if (!A.kept(all) || !B.kept(all) || !Q.kept(all) || !V.kept(all)) R.fail("frame", "wrote outside the arguments");)
}
CASE(gghrd) { ggh(r, R, false); }
CASE(gghd3) { ggh(r, R, true); }
// ------------------------------------------------------------------- QZ
template <class M> bool tri(Rep& R, M& A, M& B, idx lo, idx hi, bool real_)
{
    for (idx j = 0; j < A.n; ++j) for (idx i = j + 1; i < A.n; ++i) {
        if (Z(B.at(i, j)) != Z(0)) { R.fail("value", str2("T", i, j, B.at(i, j), Z(0))); return false; }
        if (Z(A.at(i, j)) == Z(0)) continue;
        bool ok = real_ && i == j + 1 && j >= lo && i < hi;
        if (ok && ((j > lo && Z(A.at(j, j - 1)) != Z(0)) || (i + 1 < hi && Z(A.at(i + 1, i)) != Z(0)))) ok = false;
        if (!ok) { R.fail("value", str2("S", i, j, A.at(i, j), Z(0))); return false; }
    }
    return true;
}
static void qz(Rng& r, Rep& R, bool multi)
{
    TYPES(
        int q = r.in(0, 99); idx n = q < 3 ? 0 : q < 8 ? 1 : q < 70 ? r.in(2, 8) : q < 94 ? r.in(9, 16) : r.in(17, multi ? 45 : 30);
        FrancisOpts o; if (multi) { if (r.p(.5) && n < 15) n = r.in(15, 40); size_t nmin = r.p(.7) ? 15 : r.p(.5) ? 20 : 75; int nsh = int(r.in(2, 8)); int nwin = int(r.in(2, 10)); size_t nib = r.p(.5) ? 14 : r.in(0, 60);
            o.nmin = nmin; o.nibble = nib; auto f1 = [nsh](size_t, size_t) -> size_t { return nsh; }; auto f2 = [nwin](size_t, size_t) -> size_t { return nwin; };
            if (r.p(.8)) { o.nshift_recommender = f1; o.deflation_window_recommender = f2; } R.say("nmin", nmin, "shifts", nsh, "window", nwin, "nibble", nib); }
        idx lo = 0; idx hi = n; if (n > 2 && r.p(.3)) { lo = r.in(0, long(n) - 1); hi = r.in(long(lo), long(n)); }
        bool ws = r.p(.8); bool wq = r.p(.8); bool wz = r.p(.8); int k = r.in(0, 2); double s = sc(r, 100); double t = sc(r, 100); double pz = r.p(.6) ? 0 : .15; bool rb = r.p(.3);
        R.say("n", n, "ilo", lo, "ihi", hi, "want_s", ws, "want_q", wq, "want_z", wz, "kind", k, "scale", s, t, "zeros", pz, rb ? "real diagonal" : "");
        Mat<T, L1> A(r, n, n); Mat<T, L1> B(r, n, n); Mat<T, L1> Q(r, n, n); Mat<T, L1> V(r, n, n); Vec<Z> al(r, n); Vec<T> be(r, n);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) {
            bool in = i <= j || (i == j + 1 && j >= lo && i < hi); A.at(i, j) = in ? entry<T>(r, k) * s : T(0); if (i == j + 1 && r.p(.1)) A.at(i, j) *= 1e-17;
            B.at(i, j) = i <= j ? entry<T>(r, k) * t : T(0); if (i == j && !r.p(pz)) { B.at(i, j) = T(t) * T(rb ? .5 + std::fabs(r.uni()) : 1.) * (rb ? T(1) : rnz<T>(r)); }
            if (i == j && r.p(pz)) B.at(i, j) = 0;
        }
        bool cycle = r.p(.05); if (cycle) { for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) A.at(i, j) = i == j + 1 && j >= lo && i < hi ? T(s) : T(0); if (r.p(.7) && lo == 0 && hi == n && n) A.at(0, n - 1) = T(s); if (r.p(.7)) for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) B.at(i, j) = i == j ? T(t) : T(0); }
        DM Q0 = r.p(.5) ? eye(n) : unitary<T>(r, n); DM V0 = r.p(.5) ? eye(n) : unitary<T>(r, n);
        if (wq) put(Q, Q0); else Q.fill([](idx, idx) { return true; }, rd<T>::nan()); if (wz) put(V, V0); else V.fill([](idx, idx) { return true; }, rd<T>::nan());
        A.save(); B.save(); Q.save(); V.save(); al.save(); be.save(); DM A0 = was(A); DM B0 = was(B); double na = std::max(fro(A0), 1e-280); double nb = std::max(fro(B0), 1e-280);
        auto a = A.view(); auto b = B.view(); auto qv = Q.view(); auto z = V.view(); auto av = al.view(); auto bv = be.view(); int rc;
        if (multi) rc = multishift_qz(ws, wq, wz, lo, hi, a, b, av, bv, qv, z, o); else rc = lahqz(ws, wq, wz, lo, hi, a, b, av, bv, qv, z);
        if (rc != 0) {   // graded pencils and defective multiple eigenvalues may fail to converge: a nearby pencil has to converge
            if (k == 2) return; Mat<T, L1> A1(r, n, n); Mat<T, L1> B1(r, n, n); Mat<T, L1> Q1(r, n, n); Mat<T, L1> V1(r, n, n);
            for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) { bool in = i <= j || (i == j + 1 && j >= lo && i < hi); A1.at(i, j) = in ? A.old(i, j) + rn<T>(r) * (1e-6 * s) : T(0); B1.at(i, j) = i <= j ? B.old(i, j) + rn<T>(r) * (1e-6 * t) : T(0); }
            auto a1 = A1.view(); auto b1 = B1.view(); auto q1 = Q1.view(); auto z1 = V1.view(); int r1 = cycle ? rc : multi ? multishift_qz(ws, false, false, lo, hi, a1, b1, av, bv, q1, z1, o) : lahqz(ws, false, false, lo, hi, a1, b1, av, bv, q1, z1);
            if (r1 != 0) R.fail("value", "returned " + str(rc)); return; }
        double tol = 1e-14 * (n + 10) * 8;
        if (multi) for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) { if (i > j + 1) A.at(i, j) = T(0); B.at(i, j) = T(0); }
        if (ws) { if (!fin(cur(A)) || !fin(cur(B))) { R.fail("value", "S or T is not finite"); return; } if (!tri(R, A, B, lo, hi, !cplx)) return; }
        if (wq) { DM Q1 = cur(Q); if (!near0(R, "Q^H Q - I", sub(mul(ct(Q1), Q1), eye(n)), tol)) return; } else if (!Q.kept()) { R.fail("frame", "Q was changed although want_q is false"); return; }
        if (wz) { DM V1 = cur(V); if (!near0(R, "Z^H Z - I", sub(mul(ct(V1), V1), eye(n)), tol)) return; } else if (!V.kept()) { R.fail("frame", "Z was changed although want_z is false"); return; }
        DM S = cur(A); DM W = cur(B); bool have = ws;
        if (wq && wz) {
            DM P = mul(ct(Q0), cur(Q)); DM U = mul(ct(V0), cur(V)); DM S2 = mul(mul(ct(P), A0), U); DM W2 = mul(mul(ct(P), B0), U);
            if (ws) { if (!near0(R, "Q S Z^H - A", sub(S, S2), tol * na)) return; if (!near0(R, "Q T Z^H - B", sub(W, W2), tol * nb)) return; }
            S = S2; W = W2; have = true;
        }
        for (idx i = lo; i < hi; ++i) if (isn(Z(al.at(i))) || isn(Z(be.at(i)))) { R.fail("value", "eigenvalue " + str(i) + " = (" + str(al.at(i)) + "," + str(be.at(i)) + ")"); return; }
        if (have) for (idx i = lo; i < hi;) {
            Z a1 = al.at(i) / na; Z b1 = Z(be.at(i)) / nb; double m = std::max(std::abs(a1), std::abs(b1));
            bool one = std::abs(S(i, i) / na * b1 - W(i, i) / nb * a1) <= tol * (m + 1e-300);
            bool two = !cplx && i + 1 < hi && ((ws && Z(A.at(i + 1, i)) != Z(0)) || al.at(i).imag() != 0 || !one);
            if (!two) { if (!one) { R.fail("value", "eigenvalue " + str(i) + " = (" + str(al.at(i)) + "," + str(be.at(i)) + "), the diagonal is (" + str(S(i, i)) + "," + str(W(i, i)) + ")"); return; }
                if (ws && std::max(std::abs(S(i, i) / na), std::abs(W(i, i) / nb)) > tol && m < 1e-3 * std::max(std::abs(S(i, i) / na), std::abs(W(i, i) / nb))) { R.fail("value", "eigenvalue " + str(i) + " is (" + str(al.at(i)) + "," + str(be.at(i)) + "), the diagonal is (" + str(S(i, i)) + "," + str(W(i, i)) + ")"); return; } ++i; continue; }
            Z a2 = al.at(i + 1) / na; Z b2 = Z(be.at(i + 1)) / nb; m = std::max(m, std::max(std::abs(a2), std::abs(b2)));
            DM E = mk(2, 2, [&](idx x, idx y) { return S(i + x, i + y) / na * b1 - W(i + x, i + y) / nb * a1; }); Z dt = E(0, 0) * E(1, 1) - E(0, 1) * E(1, 0); double em = mx(E);
            if (k != 2 && !(std::abs(a1 * b2 - std::conj(a2) * b1) <= (al.at(i).imag() != 0 ? 1e-12 * m : 1e-6 * (em + m)) * m))   // a double eigenvalue may be recomputed as two close real ones
                { R.fail("value", "eigenvalues of the 2x2 block at " + str(i) + " are not a complex pair " + str(al.at(i)) + str(be.at(i)) + str(al.at(i+1)) + str(be.at(i+1))); return; }
            if (!(std::abs(dt) <= tol * 100 * (em + m) * m)) { R.fail("value", "eigenvalue " + str(i) + " is not an eigenvalue of the 2x2 block: " + str(dt / m / m)); return; }
            i += 2;
        }
        auto all = [](idx, idx) { return true; };
        if (!A.kept(all) || !B.kept(all) || !Q.kept(all) || !V.kept(all) || !al.kept(true) || !be.kept(true)) R.fail("frame", "wrote outside the arguments");)
}
CASE(lahqz) { qz(r, R, false); }
CASE(multishift_qz) { qz(r, R, true); }
// ------------------------------------------------------------- reordering
template <class M> Z gev(M& A, M& B, idx i)
{
    if (i + 1 < A.n && Z(A.at(i + 1, i)) != Z(0)) {
        ZL a(A.at(i, i)), b(A.at(i, i + 1)), c(A.at(i + 1, i)), d(A.at(i + 1, i + 1)), e(B.at(i, i)), f(B.at(i, i + 1)), g(B.at(i + 1, i + 1));
        ZL p = e * g; ZL q = (a * g + d * e - c * f) / p / ZL(2); ZL w = (a * d - b * c) / p; ZL dsc = q * q - w; return Z(double(q.real()), dsc.real() < 0 ? double(std::sqrt(-dsc.real())) : -1e9);
    }
    return Z(A.at(i, i)) / Z(B.at(i, i));
}
template <class M> std::vector<Z> gevs(M& A, M& B) { std::vector<Z> e; for (idx i = 0; i < A.n;) { e.push_back(gev(A, B, i)); i += i + 1 < A.n && Z(A.at(i + 1, i)) != Z(0) ? 2 : 1; } return e; }
static void gswaps(Rng& r, Rep& R, bool move)
{
    TYPES(
        idx n = r.in(move ? 0 : 2, 9); Mat<T, L1> A(r, n, n); Mat<T, L1> B(r, n, n); Mat<T, L1> Q(r, n, n); Mat<T, L1> V(r, n, n); std::vector<idx> blk; schur<T>(r, A, blk, .5); bool wq = r.p(.7); bool wz = r.p(.7);
        if (!move && blk.size() < 2) return;
        auto bs = [&](idx b) { return (b + 1 < blk.size() ? blk[b + 1] : n) - blk[b]; };
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) B.at(i, j) = i < j ? rn<T>(r) : T(0);
        for (idx b = 0; b < blk.size(); ++b) {   // scale the rows of each block: eigenvalues stay
            idx i = blk[b]; T f = T(.5 + std::fabs(r.uni())) * (r.p(.3) ? T(-1) : T(1)); if constexpr (cplx) f *= rnz<T>(r) / 2.; B.at(i, i) = f; idx e = i + bs(b);
            if (e == i + 2) { B.at(i + 1, i + 1) = f; B.at(i, i + 1) = 0; }
            for (idx y = i; y < e; ++y) for (idx x = i; x < e; ++x) A.at(y, x) *= f;
            if (e == i + 2 && r.p(.5)) { B.at(i, i + 1) = T(.3 * r.uni()); }
        }
        DM Q0 = r.p(.5) ? eye(n) : unitary<T>(r, n); DM V0 = r.p(.5) ? eye(n) : unitary<T>(r, n);
        if (wq || true) put(Q, Q0); if (wz || true) put(V, V0);
        std::vector<Z> want = gevs(A, B); for (auto& x : want) if (x.imag() == -1e9) return;
        A.save(); B.save(); Q.save(); V.save(); DM A0 = was(A); DM B0 = was(B); auto a = A.view(); auto b = B.view(); auto q = Q.view(); auto z = V.view(); int rc;
        if (!move) {
            idx y = r.in(0, long(blk.size()) - 2); R.say("n", n, "j0", blk[y], "n1", bs(y), "n2", bs(y + 1), "want_q", wq, "want_z", wz);
            rc = generalized_schur_swap(wq, wz, a, b, q, z, blk[y], bs(y), bs(y + 1)); std::swap(want[y], want[y + 1]);
        }
        else {
            idx f = n ? r.in(0, long(n) - 1) : 0; idx l = n ? r.in(0, long(n) - 1) : 0; idx f0 = f; idx l0 = l; R.say("n", n, "ifst", f, "ilst", l, "want_q", wq, "want_z", wz); for (idx x : blk) R.say(x);
            rc = generalized_schur_move(wq, wz, a, b, q, z, f, l);
            if (n && rc == 0) {
                auto bof = [&](idx i) { idx y = 0; while (y + 1 < blk.size() && blk[y + 1] <= i) ++y; return y; };
                idx bf = bof(f0); idx bl = bof(l0); Z x = want[bf]; want.erase(want.begin() + bf); want.insert(want.begin() + bl, x);
                idx row = 0; std::vector<idx> sz; for (idx y = 0; y < blk.size(); ++y) sz.push_back(bs(y)); idx y = sz[bf]; sz.erase(sz.begin() + bf); sz.insert(sz.begin() + bl, y); for (idx w = 0; w < bl; ++w) row += sz[w];
                if (l != row) R.fail("value", "ilst = " + str(l) + ", the block is at row " + str(row));
            }
        }
        if (rc != 0) { R.fail("value", "returned " + str(rc) + " for well separated eigenvalues"); return; }
        if (!fin(cur(A)) || !fin(cur(B))) { R.fail("value", "not finite"); return; }
        double na = fro(A0) + 1; double nb = fro(B0) + 1;
        if (!tri(R, A, B, 0, n, !cplx)) return;
        std::vector<Z> e1 = gevs(A, B); if (e1.size() != want.size()) { R.fail("value", "number of blocks changed"); return; }
        for (size_t i = 0; i < e1.size(); ++i) if (!(std::abs(e1[i] - want[i]) <= 1e-6 * na)) { R.fail("value", "block " + str(i) + " has eigenvalue " + str(e1[i]) + ", contract requires " + str(want[i])); return; }
        if (wq && wz) { DM Q1 = cur(Q); DM V1 = cur(V); if (near0(R, "Q^H Q - I", sub(mul(ct(Q1), Q1), eye(n)), 1e-13) && near0(R, "Z^H Z - I", sub(mul(ct(V1), V1), eye(n)), 1e-13)) { near0(R, "Q A Z^H", sub(mul(mul(Q1, cur(A)), ct(V1)), mul(mul(Q0, A0), ct(V0))), 1e-11 * na); near0(R, "Q B Z^H", sub(mul(mul(Q1, cur(B)), ct(V1)), mul(mul(Q0, B0), ct(V0))), 1e-11 * nb); } }
        if (!wq && !Q.kept()) R.fail("frame", "Q was changed although want_q is false");
        if (!wz && !V.kept()) R.fail("frame", "Z was changed although want_z is false");
        auto all = [](idx, idx) { return true; };
        if (!A.kept(all) || !B.kept(all) || !Q.kept(all) || !V.kept(all)) R.fail("frame", "wrote outside the arguments");)
}
CASE(generalized_schur_swap) { gswaps(r, R, false); }
CASE(generalized_schur_move) { gswaps(r, R, true); }
int main(int argc, char** argv) { return drive(argc, argv); }
