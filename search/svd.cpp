// Symmetric tridiagonal eigenproblem, bidiagonal SVD and their kernels:
// bounded evaluation against the definition in extended precision.
#define TLAPACK_NDEBUG
#include "eig.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/lae2.hpp"
#include "tlapack/lapack/laed4.hpp"
#include "tlapack/lapack/laed6.hpp"
#include "tlapack/lapack/laev2.hpp"
#include "tlapack/lapack/lamrg.hpp"
#include "tlapack/lapack/lasrt.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/singularvalues22.hpp"
#include "tlapack/lapack/steqr.hpp"
#include "tlapack/lapack/svd22.hpp"
#include "tlapack/lapack/svd_qr.hpp"
#include "tlapack/lapack/tkhnv.hpp"
inline D val(Rng& r) { D x = r.p(.3) ? rv<D>(r) : r.uni(); if (r.p(.15)) x = 0; else if (r.p(.2)) x *= std::ldexp(1., int(r.in(-60, 40))); return x; }
inline double scl(Rng& r) { return r.p(.6) ? 1 : std::ldexp(1., int(r.in(-250, 250))); }
inline void ok(Rep& R, bool c, const std::string& s) { if (!c) R.fail("value", s); }
CASE(lae2)
{
    double s = scl(r); D a = val(r) * s, b = val(r) * s, c = r.p(.15) ? a : val(r) * s; if (r.p(.05)) c = -a; R.say(a, b, c);
    D r1 = 7, r2 = 7; lae2(a, b, c, r1, r2); LD n = std::max(std::max(std::fabs(a), std::fabs(b)), std::fabs(c)); if (n == 0) n = 1;
    LD A = a / n, B = b / n, C = c / n, x = r1 / n, y = r2 / n;
    ok(R, std::fabs(x + y - A - C) <= 1e-14L && std::fabs(x * y - (A * C - B * B)) <= 1e-14L, "eigenvalues " + str(r1) + " " + str(r2));
    ok(R, std::fabs(x) >= std::fabs(y) * (1 - 1e-15L), "rt1 is not the larger eigenvalue: " + str(r1) + " " + str(r2));
    D q1 = 7, q2 = 7, cs = 7, sn = 7; laev2(a, b, c, q1, q2, cs, sn);
    ok(R, std::fabs(q1 - r1) <= 1e-15L * n && std::fabs(q2 - r2) <= 1e-14L * n, "laev2 eigenvalues differ: " + str(q1) + " " + str(q2));
    ok(R, std::fabs((LD)cs * cs + (LD)sn * sn - 1) <= 1e-14L, "cs^2+sn^2 = " + str((LD)cs * cs + (LD)sn * sn));
    ok(R, std::fabs(A * cs + B * sn - x * cs) <= 1e-14L && std::fabs(B * cs + C * sn - x * sn) <= 1e-14L, "(cs,sn) is no eigenvector of rt1: " + str(cs) + " " + str(sn));
}
CASE(svd22)
{
    double s = scl(r); D f = val(r) * s, g = val(r) * s, h = r.p(.15) ? f : val(r) * s; if (r.p(.05)) h = -f; R.say(f, g, h);
    D mn = 7, mxx = 7, cl = 7, sl = 7, cr = 7, sr = 7; svd22(f, g, h, mn, mxx, cl, sl, cr, sr);
    LD n = std::max(std::max(std::fabs(f), std::fabs(g)), std::fabs(h)); if (n == 0) n = 1; LD F = f / n, G = g / n, H = h / n;
    ok(R, std::fabs((LD)cl * cl + (LD)sl * sl - 1) <= 1e-14L && std::fabs((LD)cr * cr + (LD)sr * sr - 1) <= 1e-14L, "rotations are not orthogonal");
    LD p = cl * F, q = cl * G + sl * H, u = -sl * F, v = -sl * G + cl * H;
    LD w[4] = {p * cr + q * sr, -p * sr + q * cr, u * cr + v * sr, -u * sr + v * cr}; LD e[4] = {mxx / n, 0, 0, mn / n};
    for (int k = 0; k < 4; ++k) if (!(std::fabs(w[k] - e[k]) <= 2e-14L)) { R.fail("value", "rotated entry " + str(k) + " is " + str(w[k]) + ", expected " + str(e[k])); return; }
    ok(R, std::fabs(mxx) >= std::fabs(mn), "ssmax < ssmin");
    D a = 7, b = 7; singularvalues22(f, g, h, a, b);
    ok(R, a >= 0 && b >= a && std::fabs(b - std::fabs((LD)mxx)) <= 1e-14L * n && std::fabs(a - std::fabs((LD)mn)) <= 1e-14L * n, "singularvalues22: " + str(a) + " " + str(b) + " but svd22: " + str(mn) + " " + str(mxx));
    // relative accuracy of the product (no cancellation occurs in f*h)
    if (F * H != 0 && std::fabs(F * H) > 1e-200L) ok(R, std::fabs((LD)a / n * ((LD)b / n) - std::fabs(F * H)) <= 1e-14L * std::fabs(F * H) + 1e-300L / n, "product of the singular values differs from |f h|");
}
CASE(lasrt)
{
    idx n = r.in(0, 9) < 8 ? r.in(0, 12) : r.in(13, 90); int k = r.in(0, 3); char id = r.p(.25) ? 'D' : r.p(.33) ? 'd' : r.p(.5) ? 'I' : 'i'; bool dec = id == 'D' || id == 'd'; R.say(id, "n", n);
    Vec<D> d(r, n); for (idx i = 0; i < n; ++i) d.at(i) = k == 0 ? D(r.in(-2, 2)) : k == 1 ? r.uni() : k == 2 ? D(i) * (r.p(.1) ? -1 : 1) : -D(i); d.save(); auto v = d.view(); int rc = lasrt(id, n, v); ok(R, rc == 0, "returned " + str(rc));
    std::vector<D> w(n); for (idx i = 0; i < n; ++i) w[i] = d.old(i); std::sort(w.begin(), w.end()); if (dec) std::reverse(w.begin(), w.end());
    for (idx i = 0; i < n; ++i) if (d.at(i) != w[i]) { R.fail("value", "entry " + str(i) + " is " + str(d.at(i)) + ", expected " + str(w[i])); break; }
    if (!d.kept([](idx) { return true; })) R.fail("frame", "wrote outside the vector");
}
CASE(lamrg)
{
    idx n1 = r.in(0, 8), n2 = r.in(0, 8); int s1 = r.p(.5) ? 1 : -1, s2 = r.p(.5) ? 1 : -1; R.say(n1, n2, s1, s2); std::vector<D> a(n1 + n2); for (auto& x : a) x = r.in(-4, 4);
    std::sort(a.begin(), a.begin() + n1); if (s1 < 0) std::reverse(a.begin(), a.begin() + n1); std::sort(a.begin() + n1, a.end()); if (s2 < 0) std::reverse(a.begin() + n1, a.end());
    std::vector<idx> ix(n1 + n2 + 1, 99); auto b = a; lamrg(n1, n2, a, s1, s2, ix); std::vector<char> u(n1 + n2, 0);
    for (idx i = 0; i < n1 + n2; ++i) { if (ix[i] >= n1 + n2 || u[ix[i]]) { R.fail("value", "not a permutation"); return; } u[ix[i]] = 1; if (i && a[ix[i]] < a[ix[i - 1]]) { R.fail("value", "not ascending at " + str(i)); return; } }
    if (ix[n1 + n2] != 99 || a != b) R.fail("frame", "wrote outside the index or changed a");
}
CASE(laed4)
{
    idx n = r.in(1, 8); std::vector<D> d(n), z(n), dl(n + 1, 9.5); D t = r.uni() * 3; int k = r.in(0, 2); double nz = 0; for (idx i = 0; i < n; ++i) { d[i] = t; t += k == 0 ? 1 + std::fabs(r.uni()) : k == 1 ? .05 + std::fabs(r.uni()) : std::ldexp(1., int(r.in(-12, 6))); z[i] = (.01 + std::fabs(r.uni())) * (r.p(.5) ? 1 : -1) * (r.p(.2) ? std::ldexp(1., -int(r.in(1, 10))) : 1); nz += z[i] * z[i]; }
    nz = std::sqrt(nz); for (auto& x : z) x /= nz; D rho = r.p(.3) ? 1 : std::ldexp(1 + std::fabs(r.uni()), int(r.in(-8, 8))); R.say("n", n, "rho", rho, "d"); for (D x : d) R.say(x); R.say("z"); for (D x : z) R.say(x);
    auto d0 = d, z0 = z;
    for (idx i = 0; i < n; ++i) {
        D lam = 99; int rc = laed4(n, i, d, z, dl, rho, lam); if (rc) { R.fail("value", "returned " + str(rc) + " for eigenvalue " + str(i)); return; }
        LD hi = i + 1 < n ? (LD)d[i + 1] : (LD)d[n - 1] + (LD)rho; if (!(lam >= d[i] && lam <= hi * (1 + (hi > 0 ? 1 : -1) * 1e-15L) + 1e-15L)) { R.fail("value", "eigenvalue " + str(i) + " = " + str(lam) + " is outside its interval"); return; }
        // bracket the exact root by bisection in extended precision (shifted to the nearer pole)
        LD w = hi - (LD)d[i], lo = 0, up = w; for (int q = 0; q < 200; ++q) { LD m = (lo + up) / 2, f = 1 / (LD)rho; for (idx j = 0; j < n; ++j) f += (LD)z[j] * z[j] / (((LD)d[j] - (LD)d[i]) - m); if (f > 0) up = m; else lo = m; }
        LD nm = std::max(std::fabs((LD)d[0]), std::fabs((LD)d[n - 1])) + rho; if (!(std::fabs((LD)lam - (LD)d[i] - lo) <= 1e-13L * nm)) { R.fail("value", "eigenvalue " + str(i) + " = " + str(lam) + ", expected " + str((D)(d[i] + lo))); return; }
        if (n > 2) for (idx j = 0; j < n; ++j) if (!(std::fabs((LD)dl[j] - ((LD)d[j] - (LD)d[i] - lo)) <= 1e-13L * nm)) { R.fail("value", "delta[" + str(j) + "] = " + str(dl[j]) + " is not d - lambda"); return; }
        if (dl[n] != 9.5 || d != d0 || z != z0) { R.fail("frame", "wrote outside delta"); return; }
    }
}
CASE(laed6)
{
    // f(x) = rho + sum z/(d-x), a root between d[1],d[2] (orgati) or d[0],d[1]; 0 lies in that interval
    bool og = r.p(.5); std::vector<D> d(3), z(3); D rho = .01 + std::fabs(r.uni()) * (r.p(.5) ? 1 : 100); double sm = r.p(.8) ? 1 : std::ldexp(1., -int(r.in(1, 30)));
    D w1 = std::fabs(r.uni()) + 1e-3, w2 = std::fabs(r.uni()) + 1e-3, w3 = std::fabs(r.uni()) + 1e-3;
    if (og) { d[1] = -w1; d[2] = w2; d[0] = -w1 - w3; } else { d[0] = -w1; d[1] = w2; d[2] = w2 + w3; }
    for (auto& x : d) x *= sm; for (auto& x : z) x = (std::fabs(r.uni()) + 1e-3) * (r.p(.3) ? std::ldexp(1., -int(r.in(1, 60))) : 1); if (r.p(.3)) rho = -rho;
    D fi = rho + z[0] / d[0] + z[1] / d[1] + z[2] / d[2]; int kn = r.in(1, 2); R.say("orgati", og, "kniter", kn, "rho", rho, d[0], d[1], d[2], z[0], z[1], z[2]); if (fi == 0) return;
    auto d0 = d, z0 = z; D tau = 99; int rc = laed6(idx(kn), og, rho, d, z, fi, tau); if (rc) { R.fail("value", "returned " + str(rc)); return; }
    LD lo = d[og ? 1 : 0], up = d[og ? 2 : 1], wd = up - lo; for (int q = 0; q < 200; ++q) { LD m = (lo + up) / 2, f = rho; for (int j = 0; j < 3; ++j) f += (LD)z[j] / ((LD)d[j] - m); if (f > 0) up = m; else lo = m; }
    LD s = std::fabs((LD)rho), ds = 0; for (int j = 0; j < 3; ++j) { s += std::fabs((LD)z[j] / ((LD)d[j] - lo)) + std::fabs((LD)z[j] / d[j]); ds += (LD)z[j] / (((LD)d[j] - lo) * ((LD)d[j] - lo)); }
    if (!(ds < 1e300L)) ds = 1e300L;
    if (!(std::fabs(tau - lo) <= 1e-12L * (s / ds + std::fabs(lo)) + 1e-15L * (std::fabs((LD)d[0]) + std::fabs((LD)d[2])))) R.fail("value", "root " + str(tau) + ", expected " + str((D)lo));
    if (d != d0 || z != z0) R.fail("frame", "d or z was changed");
}
// -------------------------------------------------- tridiagonal eigenproblem
struct TV { std::vector<D> d, e; };
inline TV tv(Rng& r, idx n)
{
    TV t; t.d.resize(n); t.e.resize(n ? n - 1 : 0); int k = r.in(0, 5);
    for (idx i = 0; i < n; ++i) t.d[i] = k == 0 ? rv<D>(r) : k == 1 ? r.uni() : k == 2 ? 0 : k == 3 ? std::ldexp(r.uni(), -int(4 * i)) : k == 4 ? std::ldexp(r.uni(), -int(4 * (n - 1 - i))) : 2;
    for (idx i = 0; i + 1 < n; ++i) t.e[i] = k == 0 ? rv<D>(r) : k == 1 ? r.uni() : k == 2 ? 1 : k == 3 ? std::ldexp(r.uni(), -int(4 * i)) : k == 4 ? std::ldexp(r.uni(), -int(4 * (n - 1 - i))) : (r.p(.2) ? 1e-9 : r.uni());
    double s = r.p(.8) ? 1 : std::ldexp(1., int(r.in(-100, 100))); for (D& x : t.d) x *= s; for (D& x : t.e) x *= s; if (r.p(.2)) for (D& x : t.e) if (r.p(.3)) x = 0; if (r.p(.1)) for (D& x : t.d) if (r.p(.3)) x = 0;
    return t;
}
inline idx nn(Rng& r) { int c = r.in(0, 19); return c == 0 ? 0 : c < 3 ? 1 : c < 6 ? 2 : c < 9 ? 3 : c < 17 ? r.in(4, 9) : r.in(10, 24); }
inline void put(Vec<D>& v, const std::vector<D>& w) { for (idx i = 0; i < w.size(); ++i) v.at(i) = w[i]; }
template <class T> std::vector<D> get(const Vec<T>& v) { std::vector<D> w(v.n); for (idx i = 0; i < v.n; ++i) w[i] = v.at(i); return w; }
CASE(steqr)
{
    TYPES(idx n = nn(r); auto t = tv(r, n); bool wz = r.p(.7); idx nz = r.p(.7) ? n : r.in(0, 5);
        Vec<D> d(r, n); Vec<D> e(r, n ? n - 1 : 0); put(d, t.d); put(e, t.e); Mat<T, L2> Z0(r, n, n); DM Q0 = unitary<T>(r, n); (void)nz; put(Z0, Q0); Q0 = cur(Z0);
        R.say("n", n, "want_z", wz, "d"); for (D x : t.d) R.say(x); R.say("e"); for (D x : t.e) R.say(x);
        // an iteration that cannot converge must be reported
        bool bad = n >= 3 && r.p(.05); if (bad) { for (idx i = 0; i < n; ++i) { d.at(i) = r.uni(); if (i) e.at(i - 1) = 1; } d.at(r.p(.5) ? 0 : n - 1) = rd<D>::nan(); R.say("nan"); }
        d.save(); e.save(); Z0.save(); auto dv = d.view(); auto evv = e.view(); auto zv = Z0.view(); int rc = steqr(wz, dv, evv, zv);
        if (bad) { if (rc <= 0 || rc > int(n)) R.fail("value", "no convergence, but returned " + str(rc)); return; }
        if (rc != 0) { R.fail("value", "returned " + str(rc)); return; }
        DM M(n, n); double nm = 0; for (idx i = 0; i < n; ++i) { M(i, i) = t.d[i]; nm = std::max(nm, std::fabs(t.d[i])); if (i + 1 < n) { M(i, i + 1) = M(i + 1, i) = t.e[i]; nm = std::max(nm, std::fabs(t.e[i])); } }
        for (idx i = 0; i + 1 < n; ++i) if (!(d.at(i) <= d.at(i + 1))) { R.fail("value", "eigenvalues are not ascending at " + str(i)); return; }
        if (wz) { DM Z1 = cur(Z0); if (!near0(R, "Z^H Z - I", sub(mul(ct(Z1), Z1), eye(n)), 1e-13 * (n + 10))) return; DM L = eye(n); for (idx i = 0; i < n; ++i) L(i, i) = d.at(i); near0(R, "Z0 T Z0^H Z - Z Lambda", sub(mul(mul(mul(Q0, M), ct(Q0)), Z1), mul(Z1, L)), 1e-13 * (n + 10) * (nm + 1e-290)); if (!Z0.kept([](idx, idx) { return true; })) R.fail("frame", "wrote outside Z"); }
        else {
            if (!Z0.kept()) R.fail("frame", "Z was changed without want_z");
            // Sturm counts on both sides of every returned eigenvalue
            LD tol = 1e-13L * (n + 10) * (nm + 1e-290); for (idx i = 0; i < n; ++i) for (int sd = 0; sd < 2; ++sd) { LD x = (LD)d.at(i) + (sd ? tol : -tol); idx c = 0; LD q = 1; for (idx j = 0; j < n; ++j) { q = (LD)t.d[j] - x - (j ? (LD)t.e[j - 1] * t.e[j - 1] / q : 0); if (q == 0) q = -1e-4000L; if (q < 0) ++c; } if (sd ? c < i + 1 : c > i) { R.fail("value", "eigenvalue " + str(i) + " = " + str(d.at(i)) + ": " + str(c) + " exact eigenvalues below " + str((D)x)); return; } }
        }
        if (!d.kept([](idx) { return true; }) || !e.kept([](idx) { return true; })) R.fail("frame", "wrote outside d or e");)
}
CASE(svd_qr)
{
    TYPES(idx n = nn(r); auto t = tv(r, n); bool wu = r.p(.7); bool wv = r.p(.7); Uplo ul = r.p(.5) ? Uplo::Upper : Uplo::Lower; idx nu = r.in(0, 6); idx nv = r.in(0, 6); if (r.p(.5)) nu = nv = n;
        if (r.p(.3)) for (D& x : t.d) if (x < 0) x = -x;
        Vec<D> d(r, n); Vec<D> e(r, n ? n - 1 : 0); put(d, t.d); put(e, t.e); Mat<T, L2> U(r, nu, n); Mat<T, L2> V(r, n, nv); { DM q = unitary<T>(r, std::max(nu, n)); for (idx j = 0; j < n; ++j) for (idx i = 0; i < nu; ++i) U.at(i, j) = to<T>(q(i, j)); q = unitary<T>(r, std::max(nv, n)); for (idx j = 0; j < nv; ++j) for (idx i = 0; i < n; ++i) V.at(i, j) = to<T>(q(i, j)); }
        R.say(char(ul), "n", n, "nu", nu, "nv", nv, "want", wu, wv, "d"); for (D x : t.d) R.say(x); R.say("e"); for (D x : t.e) R.say(x);
        d.save(); e.save(); U.save(); V.save(); auto dv = d.view(); auto evv = e.view(); auto uv = U.view(); auto vv = V.view(); int rc = svd_qr(ul, wu, wv, dv, evv, uv, vv);
        if (rc != 0) { R.fail("value", "returned " + str(rc)); return; }
        DM B(n, n); double nm = 0; for (idx i = 0; i < n; ++i) { B(i, i) = t.d[i]; nm = std::max(nm, std::fabs(t.d[i])); if (i + 1 < n) { (ul == Uplo::Upper ? B(i, i + 1) : B(i + 1, i)) = t.e[i]; nm = std::max(nm, std::fabs(t.e[i])); } }
        for (idx i = 0; i < n; ++i) if (!(d.at(i) >= 0) || (i && !(d.at(i) <= d.at(i - 1)))) { R.fail("value", "singular values are not nonnegative and decreasing at " + str(i) + ": " + str(d.at(i))); return; }
        double tol = 1e-13 * (n + 10) * (nm + 1e-290); DM S = eye(n); for (idx i = 0; i < n; ++i) S(i, i) = d.at(i);
        DM U0 = was(U), V0 = was(V), U1 = cur(U), V1 = cur(V);
        if (wu) { near0(R, "U U^H changed", sub(mul(U1, ct(U1)), mul(U0, ct(U0))), 1e-13 * (n + 10)); near0(R, "U B B^H U^H - U1 S^2 U1^H", sub(mul(mul(mul(U0, B), ct(B)), ct(U0)), mul(mul(mul(U1, S), S), ct(U1))), tol * nm * 4 + 1e-300); if (nu == n) near0(R, "U^H U - I", sub(mul(ct(U1), U1), eye(n)), 1e-13 * (n + 10)); } else if (!U.kept()) R.fail("frame", "U was changed without want_u");
        if (wv) { near0(R, "Vt^H Vt changed", sub(mul(ct(V1), V1), mul(ct(V0), V0)), 1e-13 * (n + 10)); near0(R, "Vt^H B^H B Vt - V1^H S^2 V1", sub(mul(mul(mul(ct(V0), ct(B)), B), V0), mul(mul(mul(ct(V1), S), S), V1)), tol * nm * 4 + 1e-300); } else if (!V.kept()) R.fail("frame", "Vt was changed without want_vt");
        if (wu && wv) near0(R, "U B Vt - U1 S V1", sub(mul(mul(U0, B), V0), mul(mul(U1, S), V1)), tol);
        // singular values against Sturm counts of the Golub-Kahan form (exact even without vectors)
        { LD tl = tol; for (idx i = 0; i < n; ++i) for (int sd = 0; sd < 2; ++sd) { LD x = (LD)d.at(n - 1 - i) + (sd ? tl : -tl); idx c = 0; LD q = 1; for (idx j = 0; j < 2 * n; ++j) { LD o = j == 0 ? 0 : j % 2 ? (LD)t.d[j / 2] : (LD)t.e[j / 2 - 1]; q = -x - (j ? o * o / q : 0); if (q == 0) q = -1e-4000L; if (q < 0) ++c; } idx lim = n + i; if (sd ? c < lim + 1 : (x > 0 && c > lim)) { R.fail("value", "singular value " + str(d.at(n - 1 - i)) + ": " + str(c) + " exact values below " + str((D)x)); return; } } }
        if (!U.kept([](idx, idx) { return true; }) || !V.kept([](idx, idx) { return true; }) || !d.kept([](idx) { return true; }) || !e.kept([](idx) { return true; })) R.fail("frame", "wrote outside the arguments");)
}
template <class T, class M> void fillA(Rng& r, M& A)
{
    int k = r.in(0, 3); for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A.at(i, j) = k == 0 ? rv<T>(r) : rn<T>(r);
    if (k == 2 && A.n > 1) for (idx j = 1; j < A.n; ++j) if (r.p(.4)) for (idx i = 0; i < A.m; ++i) A.at(i, j) = A.at(i, j - 1);
    if (k == 3) for (idx i = 0; i < A.m; ++i) if (r.p(.3)) for (idx j = 0; j < A.n; ++j) A.at(i, j) = 0;
}
CASE(gesvd)
{
    TYPES(idx m = r.in(0, 9); idx n = r.in(0, 9); idx k = std::min(m, n); bool wu = r.p(.7); bool wv = r.p(.7); bool red = r.p(.4);
        Mat<T, L2> A(r, m, n); fillA<T>(r, A); Mat<T, L2> U(r, m, red ? k : m); Mat<T, L2> V(r, red ? k : n, n); Vec<D> s(r, k); U.fill([](idx, idx) { return true; }, rd<T>::nan()); V.fill([](idx, idx) { return true; }, rd<T>::nan());
        R.say("m", m, "n", n, "want", wu, wv, "reduced", red); A.save(); U.save(); V.save(); s.save(); auto a = A.view(); auto u = U.view(); auto v = V.view(); auto sv = s.view();
        int rc = gesvd(wu, wv, a, sv, u, v); if (rc != 0) { R.fail("value", "returned " + str(rc)); return; } DM A0 = was(A); double nm = fro(A0) + 1e-30, tol = 1e-13 * (m + n + 10);
        for (idx i = 0; i < k; ++i) if (!(s.at(i) >= 0) || (i && !(s.at(i) <= s.at(i - 1)))) { R.fail("value", "singular values are not nonnegative and decreasing at " + str(i)); return; }
        { double q = 0; for (idx i = 0; i < k; ++i) q += s.at(i) * s.at(i); if (!(std::fabs(std::sqrt(q) - fro(A0)) <= tol * nm)) { R.fail("value", "sum of squared singular values differs from the squared Frobenius norm"); return; } }
        DM U1 = cur(U), V1 = cur(V); DM S(U.n, V.m); for (idx i = 0; i < k; ++i) S(i, i) = s.at(i);
        if (wu) { if (!near0(R, "U^H U - I", sub(mul(ct(U1), U1), eye(U.n)), tol)) return; DM S2(U.n, U.n); for (idx i = 0; i < k; ++i) S2(i, i) = s.at(i) * s.at(i); near0(R, "A A^H - U S S U^H", sub(mul(A0, ct(A0)), mul(mul(U1, S2), ct(U1))), tol * nm * nm); }
        if (wv) { if (!near0(R, "Vt Vt^H - I", sub(mul(V1, ct(V1)), eye(V.m)), tol)) return; DM S2(V.m, V.m); for (idx i = 0; i < k; ++i) S2(i, i) = s.at(i) * s.at(i); near0(R, "A^H A - V S S V^H", sub(mul(ct(A0), A0), mul(mul(ct(V1), S2), V1)), tol * nm * nm); }
        if (wu && wv) near0(R, "A - U S Vt", sub(A0, mul(mul(U1, S), V1)), tol * nm);
        auto all = [](idx, idx) { return true; }; if (!A.kept(all) || !U.kept(all) || !V.kept(all) || !s.kept([](idx) { return true; })) R.fail("frame", "wrote outside the arguments");)
}
CASE(tkhnv)
{
    TYPES(idx n = r.in(1, 7); idx m = n + (r.p(.3) ? 0 : r.in(0, 5)); idx k = r.in(1, 3); D lam = r.p(.2) ? 1 : r.p(.5) ? .3 + std::fabs(r.uni()) : 1e-3; int var = r.in(0, 2);
        Mat<T, L2> A(r, m, n); fillA<T>(r, A); Mat<T, L2> B(r, m, k); R.say("m", m, "n", n, "k", k, "lambda", lam, "variant", "QES"[var]); A.save(); B.save(); auto a = A.view(); auto b = B.view();
        ::tkhnv(a, b, lam, TikOpts(var == 0 ? TikVariant::QR : var == 1 ? TikVariant::Elden : TikVariant::SVD));
        DM A0 = was(A), B0 = was(B); DM X = mk(n, k, [&](idx i, idx j) { return Z(B.at(i, j)); }); if (!fin(X)) { R.fail("value", "solution is not finite"); return; }
        // normal equations A^H (A x - b) + lambda^2 x = 0
        DM G = mul(ct(A0), sub(mul(A0, X), B0)); for (idx j = 0; j < k; ++j) for (idx i = 0; i < n; ++i) G(i, j) += lam * lam * X(i, j); double na = fro(A0) + lam; near0(R, "A^H (A x - b) + lambda^2 x", G, 1e-12 * (m + n) * na * (na * fro(X) + fro(B0)));
        auto all = [](idx, idx) { return true; }; if (!A.kept(all) || !B.kept(all)) R.fail("frame", "wrote outside A or B");)
}
int main(int argc, char** argv) { return drive(argc, argv); }
