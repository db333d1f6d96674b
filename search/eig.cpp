// Eigenvalues and Schur forms: bounded evaluation on Hessenberg and
// quasi-triangular matrices of random structure.
#define TLAPACK_NDEBUG
#include "eig.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/aggressive_early_deflation.hpp"
#include "tlapack/lapack/hessenberg_rq.hpp"
#include "tlapack/lapack/inv_house3.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include "tlapack/lapack/lahqr_eig22.hpp"
#include "tlapack/lapack/lahqr_schur22.hpp"
#include "tlapack/lapack/lahqr_shiftcolumn.hpp"
#include "tlapack/lapack/lasy2.hpp"
#include "tlapack/lapack/move_bulge.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/schur_swap.hpp"
// ------------------------------------------------------------ 2x2 kernels
inline double sc(Rng& r) { return r.p(.6) ? 1 : std::ldexp(1., int(r.in(-300, 300))); }
template <class T> T k22(Rng& r) { int k = r.in(0, 3); T x = k == 0 ? rv<T>(r) : rn<T>(r); if (r.p(.15)) x = 0; if (r.p(.15)) x *= std::ldexp(1., int(r.in(-60, 10))); return x; }
inline void eigs(Rep& R, const char* w, ZL a, ZL b, ZL c, ZL d, ZL s1, ZL s2)
{
    LD n = std::max(std::max(std::abs(a), std::abs(b)), std::max(std::abs(c), std::abs(d))); if (n == 0) n = 1;
    a /= n; b /= n; c /= n; d /= n; s1 /= n; s2 /= n;
    if (!(std::abs(s1 + s2 - a - d) <= 1e-14L)) R.fail("value", std::string(w) + ": sum of eigenvalues differs from the trace by " + str(std::abs(s1 + s2 - a - d)));
    if (!(std::abs(s1 * s2 - (a * d - b * c)) <= 1e-14L)) R.fail("value", std::string(w) + ": product of eigenvalues differs from the determinant by " + str(std::abs(s1 * s2 - (a * d - b * c))));
}
CASE(lahqr_eig22)
{
    double s = sc(r); Z s1, s2;
    if (r.p(.5)) { D a = k22<D>(r) * s, b = k22<D>(r) * s, c = k22<D>(r) * s, d = r.p(.2) ? a : k22<D>(r) * s; R.say("d", a, b, c, d); lahqr_eig22(a, b, c, d, s1, s2); eigs(R, "real", a, b, c, d, s1, s2); if (s1.imag() != -s2.imag()) R.fail("value", "eigenvalues of a real matrix are not conjugate: " + str(s1) + " " + str(s2)); }
    else { Z a = k22<Z>(r) * s, b = k22<Z>(r) * s, c = k22<Z>(r) * s, d = r.p(.2) ? a : k22<Z>(r) * s; R.say("c", a, b, c, d); lahqr_eig22(a, b, c, d, s1, s2); eigs(R, "complex", a, b, c, d, s1, s2); }
}
CASE(lahqr_schur22)
{
    double s = sc(r); D a = k22<D>(r) * s, b = k22<D>(r) * s, c = k22<D>(r) * s, d = r.p(.2) ? a : k22<D>(r) * s; if (r.p(.1)) c = b; if (r.p(.05)) c = -b;
    R.say(a, b, c, d);
    D A = a, B = b, C = c, E = d, cs = 7, sn = 7; Z s1, s2; lahqr_schur22(A, B, C, E, s1, s2, cs, sn);
    LD n = std::max(std::max(std::fabs(a), std::fabs(b)), std::max(std::fabs(c), std::fabs(d))); LD t = 1e-14L * n;
    if (!(std::fabs((LD)cs * cs + (LD)sn * sn - 1) <= 1e-14L)) R.fail("value", "cs^2 + sn^2 = " + str((LD)cs * cs + (LD)sn * sn));
    // A = G T G^T, G = [cs -sn; sn cs]
    LD p = (LD)cs * A - (LD)sn * C, q = (LD)cs * B - (LD)sn * E, u = (LD)sn * A + (LD)cs * C, v = (LD)sn * B + (LD)cs * E;
    LD w[4] = {p * cs - q * sn, p * sn + q * cs, u * cs - v * sn, u * sn + v * cs}; D o[4] = {a, b, c, d};
    for (int k = 0; k < 4; ++k) if (!(std::fabs(w[k] - o[k]) <= 4 * t)) { R.fail("value", "rotated back, entry " + str(k) + " is " + str(w[k]) + ", was " + str(o[k])); break; }
    if (C != 0) { if (A != E || !(B * (C < 0 ? -1 : 1) < 0)) R.fail("value", "2x2 block is not in standard form: " + str(A) + " " + str(B) + " " + str(C) + " " + str(E)); if (!(s1.imag() > 0 && s2.imag() == -s1.imag())) R.fail("value", "complex pair expected, got " + str(s1) + " " + str(s2)); }
    else if (s1.imag() != 0 || s2.imag() != 0) R.fail("value", "real eigenvalues expected");
    eigs(R, "returned eigenvalues", a, b, c, d, s1, s2);
    if (std::fabs((LD)s1.real() - A) > t || std::fabs((LD)s2.real() - E) > t) R.fail("value", "eigenvalues are not in the order of the diagonal");
}
CASE(lahqr_shiftcolumn)
{
    auto go = [&](auto* tp) {
        typedef typename std::remove_pointer<decltype(tp)>::type T; constexpr bool cx = !std::is_same<T, D>::value;
        idx n = r.in(2, 3); Mat<T, Layout::ColMajor> H(r, n, n); double s = sc(r);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) H.at(i, j) = k22<T>(r) * s;
        Z s1, s2; if (cx) { s1 = k22<Z>(r) * s; s2 = k22<Z>(r) * s; } else if (r.p(.5)) { s1 = k22<Z>(r) * s; s2 = std::conj(s1); } else { s1 = k22<D>(r) * s; s2 = k22<D>(r) * s; }
        R.say(cx ? "c" : "d", "n", n, "s", s1, s2); for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) R.say(H.at(i, j));
        Vec<T> v(r, n); H.save(); v.save(); auto h = H.view(); auto vv = v.view(); lahqr_shiftcolumn(h, vv, s1, s2);
        DM M = was(H); DM e(n, 1); e(0, 0) = 1; DM a = mul(M, e); double nm = mx(M) + std::abs(s1) + std::abs(s2); if (nm == 0) nm = 1;
        for (idx i = 0; i < n; ++i) a(i, 0) -= s2 * e(i, 0); DM w = mul(M, a); for (idx i = 0; i < n; ++i) w(i, 0) -= s1 * a(i, 0);
        // parallel: all 2x2 minors vanish; the direction is compared after scaling both to size one
        double lw = mx(w) / nm / nm, lv = 0; for (idx i = 0; i < n; ++i) lv = std::max(lv, std::abs(v.at(i)));
        if (!std::isfinite(lv)) { R.fail("value", "not finite"); return; }
        if (!(lw > 1e-6)) return;
        if (!(lv > 0)) { R.fail("value", "zero vector"); return; }
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < i; ++j) { Z m = (w(i, 0) / nm / nm) * (Z(v.at(j)) / lv) - (w(j, 0) / nm / nm) * (Z(v.at(i)) / lv); if (!(std::abs(m) <= 1e-13 / lw)) { R.fail("value", "v is not a multiple of (H-s1)(H-s2)e1, components " + str(j) + "," + str(i)); return; } }
        if (!H.kept() || !v.kept(true)) R.fail("frame", "wrote outside v");
    };
    if (r.p(.6)) go((D*)0); else go((Z*)0);
}
CASE(inv_house3)
{
    auto go = [&](auto* tp) {
        typedef typename std::remove_pointer<decltype(tp)>::type T;
        Mat<T, Layout::ColMajor> A(r, 2, 3); double s = sc(r); for (idx j = 0; j < 3; ++j) for (idx i = 0; i < 2; ++i) { A.at(i, j) = k22<T>(r) * s; R.say(A.at(i, j)); }
        Vec<T> v(r, 3); A.save(); v.save(); auto a = A.view(); auto vv = v.view(); T tau; inv_house3(a, vv, tau);
        DM M = was(A); std::vector<Z> x = {1, v.at(1), v.at(2)}; Z t(tau);
        double n2 = std::norm(x[0]) + std::norm(x[1]) + std::norm(x[2]);
        if (!std::isfinite(n2) || isn(t)) { R.fail("value", "not finite"); return; }
        if (std::abs(2 * t.real() - std::norm(t) * n2) > 1e-13 * (1 + n2 * std::norm(t))) R.fail("value", "I - tau v v^H is not unitary");
        // the first column of A H or of A H^H vanishes (real: H = H^T)
        double nm = mx(M); if (nm < 1e-250) return;
        double e1 = 0, e2 = 0;
        for (idx i = 0; i < 2; ++i) { Z d = 0; for (idx j = 0; j < 3; ++j) d += M(i, j) * x[j]; e1 = std::max(e1, std::abs(M(i, 0) - d * t)); e2 = std::max(e2, std::abs(M(i, 0) - d * std::conj(t))); }
        if (!(std::min(e1, e2) <= 1e-13 * nm)) R.fail("value", "A H does not have a zero first column: " + str(std::min(e1, e2) / nm));
    };
    if (r.p(.6)) go((D*)0); else go((Z*)0);
}
// the reflector that moves a bulge down: it annihilates the column below its
// first entry, whether the bulge is kept or reintroduced
CASE(move_bulge)
{
    TYPES(
        idx n = 4; Mat<T, L1> H(r, 4, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < 4; ++i) H.at(i, j) = k22<T>(r);
        H.at(3, 0) = T(0); H.at(3, 1) = T(0); bool real_ = !cplx; Z s1; Z s2; if (real_ && r.p(.5)) { s1 = k22<Z>(r); s2 = std::conj(s1); } else if (real_) { s1 = k22<D>(r); s2 = k22<D>(r); } else { s1 = k22<Z>(r); s2 = k22<Z>(r); }
        if (r.p(.2)) s1 = Z(H.at(1, 1)); if (real_) if (s1.imag() == 0) s2 = s2.real();
        Vec<T> v(r, 3); { v.at(0) = rn<T>(r); v.at(1) = rn<T>(r); v.at(2) = rn<T>(r); auto vv = v.view(); T tau; larfg(Direction::Forward, StoreV::Columnwise, vv, tau); v.at(0) = tau; }
        int k = r.in(0, 4); if (k) H.at(3, 2) = T(0);   // the bulge has collapsed
        if (k == 2) H.at(2, 0) *= 1e-17; if (k == 3) H.at(2, 0) = T(0); if (k == 3 && r.p(.5)) H.at(2, 1) *= 1e-18;
        if (k == 4) {   // the second entry is the one for which the new reflector needs no fill
            auto h = H.view(); auto H2 = slice(h, std::pair<idx, idx>{1, 4}, std::pair<idx, idx>{1, std::min<idx>(4, n)});
            { Vec<T> u(r, 3); auto uv = u.view(); T tau; lahqr_shiftcolumn(H2, uv, s1, s2); larfg(Direction::Forward, StoreV::Columnwise, uv, tau); T g = conj(tau); if (r.p(.5)) g = T(1); T den = T(1) - g * u.at(1) * conj(u.at(1)); if (den != T(0)) H.at(2, 0) = conj(tau) * u.at(1) * H.at(1, 0) / den; }
        }

        R.say("kind", k, "cols", n, "s", s1, s2, "v", v.at(0), v.at(1), v.at(2)); for (idx j = 0; j < n; ++j) for (idx i = 0; i < 4; ++i) R.say(H.at(i, j));
        H.save(); v.save(); DM A = was(H); Z t(v.at(0)); Z x[3] = {1, v.at(1), v.at(2)}; auto h = H.view(); auto vv = v.view(); move_bulge(h, vv, s1, s2);
        // delayed update of the last row: H(3, 0:3) := H(3, 0:3) (I - t x x^H)
        Z f = A(3, 2) * x[2] * t; double nm = mx(A) + 1e-290; for (idx j = 0; j < 3; ++j) A(3, j) -= f * std::conj(x[j]);
        Z t2(v.at(0)); Z y[3] = {1, v.at(1), v.at(2)}; double n2 = std::norm(y[0]) + std::norm(y[1]) + std::norm(y[2]);
        if (!std::isfinite(n2) || isn(t2)) { R.fail("value", "not finite"); return; }
        if (std::abs(2 * t2.real() - std::norm(t2) * n2) > 1e-13 * (1 + n2 * std::norm(t2))) R.fail("value", "I - tau v v^H is not unitary");
        Z d = 0; for (idx i = 0; i < 3; ++i) d += std::conj(y[i]) * A(i + 1, 0); Z want[3]; for (idx i = 0; i < 3; ++i) want[i] = A(i + 1, 0) - std::conj(t2) * y[i] * d;
        for (idx i = 1; i < 4; ++i) if (!(std::abs(want[i - 1] - (i == 1 ? Z(H.at(1, 0)) : Z(0))) <= 1e-14 * nm)) R.fail("value", "the new reflector turns entry " + str(i) + " of the column into " + str(want[i - 1]) + ", stored is " + str(Z(H.at(i, 0))));
        if (Z(H.at(2, 0)) != Z(0) || Z(H.at(3, 0)) != Z(0)) R.fail("value", "the annihilated entries are not zero");
        for (idx j = 1; j < n; ++j) for (idx i = 0; i < 4; ++i) if (!(std::abs(Z(H.at(i, j)) - A(i, j)) <= 1e-14 * nm)) { R.fail("value", "entry " + str(i) + "," + str(j) + " is " + str(Z(H.at(i, j))) + ", expected " + str(A(i, j))); return; }
        if (Z(H.at(0, 0)) != A(0, 0)) R.fail("frame", "H(0,0) changed"); if (!H.kept([&](idx, idx) { return true; }) || !v.kept(true)) R.fail("frame", "wrote outside the arguments");)
}
CASE(lasy2)
{
    static const idx N1[] = {1, 2, 2, 1}, N2[] = {1, 2, 1, 2}; int q = r.in(0, 1); idx n1 = N1[q], n2 = N2[q]; int sg = r.p(.5) ? 1 : -1; Op ol = r.p(.5) ? Op::NoTrans : Op::Trans, orr = r.p(.5) ? Op::NoTrans : Op::Trans; double s = r.p(.7) ? 1 : std::ldexp(1., int(r.in(-200, 200)));
    R.say("n", n1, n2, sg, c(ol), c(orr));
    Mat<D, Layout::ColMajor> L(r, n1, n1), Q(r, n2, n2), B(r, n1, n2), X(r, n1, n2);
    for (auto* M : {&L, &Q, &B}) for (idx j = 0; j < M->n; ++j) for (idx i = 0; i < M->m; ++i) { M->at(i, j) = k22<D>(r) * (M == &B ? 1 : s); R.say(M->at(i, j)); }
    L.save(); Q.save(); B.save(); X.save(); D scl = 7, xn = 7; auto l = L.view(); auto q2 = Q.view(); auto b = B.view(); auto x = X.view();
    int info = lasy2(ol, orr, sg, l, q2, b, scl, x, xn);
    if (!(scl > 0 && scl <= 1)) { R.fail("value", "scale = " + str(scl)); return; }
    double nx = 0, sx = mx(was(L)) + mx(was(Q)), lm = 0; bool nf = false; for (idx i = 0; i < n1; ++i) { double t = 0; for (idx j = 0; j < n2; ++j) { if (isn(X.at(i, j))) nf = true; t += std::fabs(X.at(i, j)); lm = std::max(lm, std::fabs(X.at(i, j))); } nx = std::max(nx, t); }
    if (nf) { R.fail("value", "X is not finite"); return; }
    if (!(std::fabs(xn - nx) <= 1e-12 * nx)) R.fail("value", "xnorm = " + str(xn) + ", X has norm " + str(nx));
    if (info == 0) for (idx i = 0; i < n1; ++i) for (idx j = 0; j < n2; ++j) {
        LD w = -(LD)scl * B.old(i, j), m = std::fabs(scl * B.old(i, j));
        for (idx k = 0; k < n1; ++k) { LD t = (LD)(ol == Op::NoTrans ? L.old(i, k) : L.old(k, i)) * X.at(k, j); w += t; m += std::fabs(t); }
        for (idx k = 0; k < n2; ++k) { LD t = (LD)sg * X.at(i, k) * (orr == Op::NoTrans ? Q.old(k, j) : Q.old(j, k)); w += t; m += std::fabs(t); }
        if (!(std::fabs(w) <= 1e-12L * (m + sx * lm))) { R.fail("value", "residual of op(TL) X + sgn X op(TR) = scale B at (" + str(i) + "," + str(j) + ") is " + str(w)); return; }
    }
    if (!L.kept() || !Q.kept() || !B.kept() || !X.kept([](idx, idx) { return true; })) R.fail("frame", "wrote outside X");
}
// ----------------------------------------------------------- Schur forms
template <class M> bool quasi(Rep& R, M& A, idx lo, idx hi, bool real_, const char* w)
{
    for (idx j = 0; j < A.n; ++j) for (idx i = j + 1; i < A.n; ++i) {
        Z x(A.at(i, j)); if (x == Z(0)) continue;
        bool ok = real_ && i == j + 1 && j >= lo && i < hi;
        if (ok && ((j > lo && Z(A.at(j, j - 1)) != Z(0)) || (i + 1 < hi && Z(A.at(i + 1, i)) != Z(0)))) ok = false;
        if (!ok) { R.fail("value", std::string(w) + ": entry (" + str(i) + "," + str(j) + ") = " + str(x) + " below the diagonal blocks"); return false; }
        if (real_) { D a = real(Z(A.at(j, j))), b = real(Z(A.at(j, i))), cc = x.real(), d = real(Z(A.at(i, i))); if (a != d || !((b > 0) != (cc > 0)) || b == 0) { R.fail("value", std::string(w) + ": 2x2 block at " + str(j) + " is not in standard form: " + str(a) + " " + str(b) + " " + str(cc) + " " + str(d)); return false; } }
    }
    return true;
}
template <class M, class V> void diag_is(Rep& R, M& A, V& w, idx lo, idx hi, double nm)
{
    for (idx i = lo; i < hi;) {
        bool two = i + 1 < hi && Z(A.at(i + 1, i)) != Z(0);
        if (!two) { if (!(std::abs(w.at(i) - Z(A.at(i, i))) <= 1e-13 * nm)) { R.fail("value", "w(" + str(i) + ") = " + str(w.at(i)) + " differs from the diagonal " + str(Z(A.at(i, i)))); return; } ++i; continue; }
        double im = std::sqrt(std::fabs(real(Z(A.at(i, i + 1))))) * std::sqrt(std::fabs(real(Z(A.at(i + 1, i))))); Z e(real(Z(A.at(i, i))), im);
        if (!(std::abs(w.at(i) - e) <= 1e-13 * nm && std::abs(w.at(i + 1) - std::conj(e)) <= 1e-13 * nm)) { R.fail("value", "w(" + str(i) + ") = " + str(w.at(i)) + ", the 2x2 block has eigenvalue " + str(e)); return; }
        i += 2;
    }
}
static void francis(Rng& r, Rep& R, int which)
{
    TYPES(
        int q = r.in(0, 99); idx n = q < 3 ? 0 : q < 8 ? 1 : q < 70 ? r.in(2, 8) : q < 94 ? r.in(9, 16) : r.in(17, which ? r.p(.3) ? 70 : 45 : 30);
        FrancisOpts o; QRIterationOpts qo; int nsh = 2; int nwin = 2;
        if (which >= 1) { if (r.p(.5) && n < 15) n = r.in(15, 40); size_t nmin = r.p(.7) ? 15 : r.p(.5) ? 20 : 75; nsh = int(r.in(2, 8)); nwin = int(r.p(.7) ? r.in(2, 10) : r.in(11, 22)); if (nwin > 15 && r.p(.4)) n = r.in(48, 70); size_t nib = r.p(.5) ? 14 : r.in(0, 60);
            o.nmin = qo.nmin = nmin; o.nibble = qo.nibble = nib; auto f1 = [nsh](size_t, size_t) -> size_t { return nsh; }; auto f2 = [nwin](size_t, size_t) -> size_t { return nwin; };
            if (r.p(.8)) { o.nshift_recommender = qo.nshift_recommender = f1; o.deflation_window_recommender = qo.deflation_window_recommender = f2; } R.say("nmin", nmin, "shifts", nsh, "window", nwin, "nibble", nib); }
        idx lo = 0; idx hi = n; if (n > 2 && r.p(.3)) { lo = r.in(0, long(n) - 1); hi = r.in(long(lo), long(n)); }
        bool wt = r.p(.8); bool wz = r.p(.8); int k = r.in(0, 3); double s = r.p(.8) ? 1 : std::ldexp(1., int(r.in(-200, 200)));
        R.say("n", n, "ilo", lo, "ihi", hi, "want_t", wt, "want_z", wz, "kind", k, "scale", s);
        Mat<T, L1> A(r, n, n); Mat<T, L1> Zm(r, n, n); Vec<Z> w(r, n);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) { bool in = i <= j || (i == j + 1 && j >= lo && i < hi); A.at(i, j) = in ? entry<T>(r, k) * s : T(0); if (i == j + 1 && r.p(.1)) A.at(i, j) *= 1e-17; }
        if (r.p(.05)) for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) A.at(i, j) = i == j + 1 && j >= lo && i < hi ? T(1) : T(0);   // nilpotent shift
        if (r.p(.05) && lo == 0 && hi == n && n) A.at(0, n - 1) = T(s);
        DM Q0 = r.p(.5) ? eye(n) : unitary<T>(r, n); if (!wz) Zm.fill([](idx, idx) { return true; }, rd<T>::nan()); else put(Zm, Q0);
        A.save(); Zm.save(); w.save(); DM A0 = was(A); double nm = std::max(fro(A0), 1e-280);
        auto a = A.view(); auto z = Zm.view(); auto wv = w.view(); int rc; bool ownw = false;
        if (which == 0) rc = lahqr(wt, wz, lo, hi, a, wv, z);
        else if (which == 1) {
            if (r.p(.5)) rc = multishift_qr(wt, wz, lo, hi, a, wv, z, o);
            else { WorkInfo wi = multishift_qr_worksize<T>(wt, wz, lo, hi, a, wv, z, o); Work<T> W(wi.m, wi.n); auto ww = W.view(); rc = multishift_qr_work(wt, wz, lo, hi, a, wv, z, ww, o); ownw = true; if (!W.ok()) R.fail("frame", "wrote outside the workspace"); }
        }
        else {
            qo.variant = r.p(.5) ? QRIterationVariant::MultiShift : QRIterationVariant::DoubleShift; R.say("variant", char(qo.variant));
            if (r.p(.5)) rc = qr_iteration(wt, wz, lo, hi, a, wv, z, qo);
            else { WorkInfo wi = qr_iteration_worksize<T>(wt, wz, lo, hi, a, wv, z, qo); Work<T> W(wi.m, wi.n); auto ww = W.view(); rc = qr_iteration_work(wt, wz, lo, hi, a, wv, z, ww, qo); ownw = true; if (!W.ok()) R.fail("frame", "wrote outside the workspace"); }
        }
        R.say(ownw ? "work" : "");
        if (rc != 0) { R.fail("value", "returned " + str(rc)); return; }
        double tol = 2e-15 * nm * (n + 10) * 4;
        // entries below the subdiagonal are used as workspace by the multishift variants
        if (which) for (idx j = 0; j < n; ++j) for (idx i = j + 2; i < n; ++i) A.at(i, j) = T(0);
        if (wt) {
            if (!fin(cur(A))) { R.fail("value", "T is not finite"); return; }
            if (!quasi(R, A, lo, hi, !cplx, "T")) return;
            diag_is(R, A, w, lo, hi, nm);
        }
        if (wz) {
            DM Z1 = cur(Zm); DM E = sub(mul(ct(Z1), Z1), eye(n)); if (!near0(R, "Z^H Z - I", E, 1e-14 * (n + 10) * 4)) return;
            if (wt) near0(R, "Z T Z^H - Z0 A Z0^H", sub(mul(mul(Z1, cur(A)), ct(Z1)), mul(mul(Q0, A0), ct(Q0))), tol);
            else {   // the similarity still triangularises the active block: eigenvalues from Z^H A Z
                DM P = mul(ct(Q0), Z1); DM T2 = mul(mul(ct(P), A0), P);
                for (idx i = lo; i < hi; ++i) { bool pair = !cplx && std::fabs(w.at(i).imag()) > 0; if (!pair) { if (!(std::abs(T2(i, i) - w.at(i)) <= tol)) { R.fail("value", "w(" + str(i) + ") is not the diagonal of Z^H A Z"); break; } } }
            }
        }
        else if (!Zm.kept()) R.fail("frame", "Z was changed although want_z is false");
        // power sums of the eigenvalues of the active block
        if (hi > lo) {
            DM B = mk(hi - lo, hi - lo, [&](idx i, idx j) { return A0(lo + i, lo + j) / nm; }); DM P = B; Z t1 = 0; Z t2 = 0; Z t3 = 0; Z u1 = 0; Z u2 = 0; Z u3 = 0;
            DM B2 = mul(B, B); for (idx i = 0; i < B.n; ++i) { t1 += B(i, i); t2 += B2(i, i); for (idx j = 0; j < B.n; ++j) t3 += B2(i, j) * B(j, i); Z e = w.at(lo + i) / nm; u1 += e; u2 += e * e; u3 += e * e * e; }
            double et = 1e-14 * (n + 10) * 4;
            if (!(std::abs(t1 - u1) <= et && std::abs(t2 - u2) <= et && std::abs(t3 - u3) <= et)) R.fail("value", "power sums of w differ from the traces of the powers of A");
        }
        for (idx i = 0; i < n; ++i) if (i < lo || i >= hi) if (wt && !near(A.at(i, i), Z(A.old(i, i)), nm)) R.fail("value", "diagonal outside the window changed");
        if (!A.kept([&](idx, idx) { return true; }) || !Zm.kept([&](idx, idx) { return true; }) || !w.kept(true)) R.fail("frame", "wrote outside the arguments");)
}
CASE(lahqr) { francis(r, R, 0); }
CASE(multishift_qr) { francis(r, R, 1); }
CASE(qr_iteration) { francis(r, R, 2); }

static void swaps(Rng& r, Rep& R, bool move)
{
    TYPES(
        idx n = r.in(move ? 0 : 2, 9); Mat<T, L1> A(r, n, n); Mat<T, L1> Q(r, n, n); std::vector<idx> blk; schur<T>(r, A, blk, .5); bool wq = r.p(.7);
        if (!move && blk.size() < 2) return;
        DM Q0 = r.p(.5) ? eye(n) : unitary<T>(r, n); if (wq) put(Q, Q0); else Q.fill([](idx, idx) { return true; }, rd<T>::nan());
        A.save(); Q.save(); DM A0 = was(A); auto a = A.view(); auto q = Q.view(); std::vector<Z> e0 = evs(A); std::vector<Z> want = e0; int rc;
        auto bs = [&](idx b) { return (b + 1 < blk.size() ? blk[b + 1] : n) - blk[b]; };
        if (!move) {
            idx b = r.in(0, long(blk.size()) - 2); R.say("n", n, "j0", blk[b], "n1", bs(b), "n2", bs(b + 1), "want_q", wq);
            rc = schur_swap(wq, a, q, blk[b], bs(b), bs(b + 1)); std::swap(want[b], want[b + 1]);
        }
        else {
            idx f = n ? r.in(0, long(n) - 1) : 0; idx l = n ? r.in(0, long(n) - 1) : 0; idx f0 = f; idx l0 = l; R.say("n", n, "ifst", f, "ilst", l, "want_q", wq); for (idx x : blk) R.say(x);
            rc = schur_move(wq, a, q, f, l);
            if (n && rc == 0) {
                auto bof = [&](idx i) { idx b = 0; while (b + 1 < blk.size() && blk[b + 1] <= i) ++b; return b; };
                idx bf = bof(f0); idx bl = bof(l0); Z x = want[bf]; want.erase(want.begin() + bf); want.insert(want.begin() + bl, x);
                // ilst: the first row of the moved block
                idx row = 0; std::vector<idx> sz; for (idx b = 0; b < blk.size(); ++b) sz.push_back(bs(b)); idx y = sz[bf]; sz.erase(sz.begin() + bf); sz.insert(sz.begin() + bl, y); for (idx b = 0; b < bl; ++b) row += sz[b];
                if (l != row) R.fail("value", "ilst = " + str(l) + ", the block is at row " + str(row));
            }
        }
        if (rc != 0) { R.fail("value", "returned " + str(rc) + " for well separated eigenvalues"); return; }
        if (!fin(cur(A))) { R.fail("value", "A is not finite"); return; }
        double nm = fro(A0) + 1;
        if (!quasi(R, A, 0, n, !cplx, "A")) return;
        std::vector<Z> e1 = evs(A); if (e1.size() != want.size()) { R.fail("value", "number of blocks changed"); return; }
        for (size_t i = 0; i < e1.size(); ++i) if (!(std::abs(e1[i] - want[i]) <= 1e-7 * nm)) { R.fail("value", "block " + str(i) + " has eigenvalue " + str(e1[i]) + ", contract requires " + str(want[i])); return; }
        if (wq) { DM Q1 = cur(Q); if (near0(R, "Q^H Q - I", sub(mul(ct(Q1), Q1), eye(n)), 1e-13)) near0(R, "Q A Q^H", sub(mul(mul(Q1, cur(A)), ct(Q1)), mul(mul(Q0, A0), ct(Q0))), 1e-12 * nm); }
        else if (!Q.kept()) R.fail("frame", "Q was changed although want_q is false");
        if (!A.kept([&](idx, idx) { return true; }) || !Q.kept([&](idx, idx) { return true; })) R.fail("frame", "wrote outside the arguments");)
}
CASE(schur_swap) { swaps(r, R, false); }
CASE(schur_move) { swaps(r, R, true); }

CASE(hessenberg_rq)
{
    TYPES(
        idx n = dim(r); if (n == 0) n = 1; Mat<T, L1> A(r, n, n); A.fill([](idx i, idx j) { return i > j; }, T(0)); Vec<D> cl(r, n - 1); Vec<T> sl(r, n - 1); Vec<D> cr(r, n - 1); Vec<T> sr(r, n - 1);
        for (idx i = 0; i + 1 < n; ++i) { T x = rn<T>(r); T y = rn<T>(r); D m = std::hypot(std::abs(x), std::abs(y)); cl.at(i) = std::abs(x) / m; sl.at(i) = y / m; }
        R.say("n", n); A.save(); cl.save(); sl.save(); cr.save(); sr.save(); auto a = A.view(); auto c1 = cl.view(); auto s1 = sl.view(); auto c2 = cr.view(); auto s2 = sr.view();
        hessenberg_rq(a, c1, s1, c2, s2);
        DM L = was(A); for (idx t = n - 1; t > 0; --t) { idx i = t - 1; Z s(sl.at(i)); for (idx j = 0; j < n; ++j) { Z x = L(i, j); Z y = L(i + 1, j); L(i, j) = cl.at(i) * x + s * y; L(i + 1, j) = -std::conj(s) * x + cl.at(i) * y; } }
        DM G = cur(A); for (idx i = 0; i < n; ++i) for (idx j = 0; j < i; ++j) if (G(i, j) != Z(0)) { R.fail("value", str2("T", i, j, G(i, j), Z(0))); return; }
        // T2 = L * (product of the right rotations)^H : apply right rotations to L in the order rot_sequence(RIGHT, FORWARD) uses
        DM W = L; for (idx t = n - 1; t > 0; --t) { idx i = t - 1; Z s(sr.at(i)); D c_ = cr.at(i); if (!(std::fabs(c_ * c_ + std::norm(s) - 1) < 1e-13)) { R.fail("value", "right rotation is not unitary"); return; } for (idx j = 0; j < n; ++j) { Z x = W(j, i); Z y = W(j, i + 1); W(j, i) = c_ * x + std::conj(s) * y; W(j, i + 1) = -s * x + c_ * y; } }
        DM V = G; for (idx t = n - 1; t > 0; --t) { idx i = t - 1; Z s(sr.at(i)); D c_ = cr.at(i); for (idx j = 0; j < n; ++j) { Z x = V(j, i); Z y = V(j, i + 1); V(j, i) = c_ * x + std::conj(s) * y; V(j, i + 1) = -s * x + c_ * y; } }
        double e1 = mx(sub(W, G)); double e2 = mx(sub(V, L)); double nm = fro(L) + 1;
        if (!(std::min(e1, e2) <= 1e-13 * nm * (n + 4))) R.fail("value", "the rotations do not relate the two triangular forms: " + str(e1) + " / " + str(e2));
        if (!cl.kept(false) || !sl.kept(false) || !cr.kept(true) || !sr.kept(true)) R.fail("frame", "wrote outside the arguments");)
}
int main(int argc, char** argv) { return drive(argc, argv); }
