// Scaling by a ratio, by a reciprocal, and complex division: no avoidable
// overflow or underflow, exactly the selected entries.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/rscl.hpp"
using namespace S;
typedef long double LD;
typedef std::complex<long double> ZL;
static const LD MX = std::numeric_limits<double>::max(), MN = std::numeric_limits<double>::min(), DN = std::numeric_limits<double>::denorm_min(), EPS = std::numeric_limits<double>::epsilon();
inline LD ab(LD x) { return std::fabs(x); }
inline LD ab(ZL x) { return std::hypot(x.real(), x.imag()); }
inline double e2(Rng& r, int lo, int hi) { return std::ldexp(1., int(r.in(lo, hi))); }
inline double num(Rng& r, int k)
{
    double x = double(r.in(1, 9)) * (r.p(.5) ? 1 : -1) + (r.p(.3) ? r.uni() / 2 : 0);
    int s[] = {0, -1022, -1021, -1019, -1030, -1060, 1018, 1019, 1010, -511, 511, 512, -900, 900};
    if (k == 1) return x * e2(r, -1060, 1019);
    if (k == 2) return x * std::ldexp(1., s[r.in(0, 13)]);
    if (k == 3) return x * e2(r, -20, 20);
    return x;
}
// is g the value w of magnitude scale, computed without an avoidable overflow or underflow?
template <class X> bool good(std::complex<double> g, X w, LD tol, LD scale)
{
    if (scale > MX / 4) return true;                       // may overflow
    if (!std::isfinite(g.real()) || !std::isfinite(g.imag())) return false;
    ZL d = ZL(g.real(), g.imag()) - ZL(w);
    return ab(d) <= tol * scale + (scale < MN * 2 ? 4 * DN + MN * EPS * 4 : DN * 4);
}
inline std::string zs(ZL w) { std::ostringstream o; o.precision(20); o << w; return o.str(); }

static const Uplo UP[] = {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower};
inline bool inup(Uplo u, idx i, idx j)
{
    switch (u) {
        case Uplo::General: return true;
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::StrictUpper: return i < j;
        default: return i > j;
    }
}
CASE(lascl)
{
    TYPES(
        idx m = dim(r, false); idx n = dim(r, false); int q = r.in(0, 7); bool band = q == 7 && m && n; idx kl = 0; idx ku = 0; if (q == 7) q = 0;
        if (band) { kl = r.in(0, long(m) - 1); ku = r.in(0, long(n) - 1); }
        Uplo u = UP[q]; int ka = r.in(0, 3); double a = num(r, ka); double b = num(r, ka); if (r.p(.05)) a = 0; if (r.p(.05)) a = b; if (r.p(.03)) a = (a < 0 ? -1 : 1) * INFINITY; else if (r.p(.03)) b = (b < 0 ? -1 : 1) * INFINITY;
        bool poison = r.p(.5); int kx = r.in(0, 2); bool fl = r.p(.2) && ab((LD)a) < 1e6L && ab((LD)b) < 1e6L && ab((LD)b) > 1e-6L;
        R.say("m", m, "n", n, band ? "band" : "uplo", band ? 'B' : char(u), kl, ku, "b", b, "a", a, "poison", poison);
        Mat<T, L1> A(r, m, n);
        // contents scaled so that the result is representable about half of the time
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) A.at(i, j) *= kx == 0 ? 1. : kx == 1 ? e2(r, -1000, 1000) : std::ldexp(1., std::max(-1000, std::min(1000, (std::isfinite(b) && std::isfinite(a) && a != 0 ? std::ilogb(b) - std::ilogb(a) : 0) + int(r.in(-40, 40)))));
        auto in = [&](idx i, idx j) { return band ? (i <= j + kl && j <= i + ku) : inup(u, i, j); };
        if (poison) A.fill([&](idx i, idx j) { return !in(i, j); }, rd<T>::nan());
        A.save(); auto v = A.view(); int rc;
        if (band) rc = lascl(BandAccess{kl, ku}, b, a, v);
        else if ((fl = fl && float(a) == a && float(b) == b)) rc = lascl(u, float(b), float(a), v);
        else rc = lascl(u, b, a, v);
        if (rc != 0) R.fail("value", "returned " + str(rc));
        if (!A.kept(in)) { R.fail("frame", "changed an entry outside the selected part"); }
        if (std::isinf(a) && std::isinf(b)) return;
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) if (in(i, j)) {
            Z o = Z(A.old(i, j)); Z g = Z(A.at(i, j));
            if (std::isinf(a)) { if (o.real() != 0 && std::isfinite(g.real())) R.fail("value", "entry stayed finite although a is infinite"); continue; }
            if (std::isinf(b)) { if (g != Z(0)) R.fail("value", "entry not zero although b is infinite"); continue; }
            ZL w = ZL(o.real(), o.imag()) * ((LD)a / (LD)b); LD s = std::max(ab(w.real()), ab(w.imag()));
            if (s < MN * 2) { if (!(ab(ZL(g.real(), g.imag())) <= 4 * MN)) R.fail("value", "A(" + str(i) + "," + str(j) + ") = " + str(g) + ", contract requires " + zs(w)); continue; }
            if (!good(g, w, (fl ? 1e-6L : 8 * EPS) + (ab((LD)a) < MN ? 8 * DN / ab((LD)a) : 0) + (ab((LD)b) < MN ? 8 * DN / ab((LD)b) : 0), s)) R.fail("value", "A(" + str(i) + "," + str(j) + ") = " + str(g) + ", contract requires " + zs(w));
        })
}
CASE(rscl)
{
    idx n = dim(r, false); bool cx = r.p(.6), ca = cx && r.p(.7); int k = r.in(0, 3), kx = r.in(0, 2);
    auto fill = [&](auto& x, double la) { for (idx i = 0; i < n; ++i) x.at(i) *= kx == 0 ? 1. : kx == 1 ? e2(r, -300, 300) : std::ldexp(1., std::max(-1000, std::min(1000, int(la) + int(r.in(-40, 40))))); };
    auto judge = [&](ZL al, Z o, Z g, idx i) {
        LD m1 = std::max(ab(al.real()), ab(al.imag())); ZL w = ZL(o.real(), o.imag()) / (al / m1) / m1; LD s = ab(w);
        // the real and imaginary parts of 1/alpha may be much smaller than its modulus: normwise accuracy
        if (!good(g, w, 40 * EPS + (ab(al) < MN / EPS ? 16 * DN / ab(al) : 0), s) && !(s < 4 * MN && ab(ZL(g.real(), g.imag())) < 16 * MN)) R.fail("value", "x(" + str(i) + ") = " + str(g) + ", contract requires " + zs(w));
    };
    if (!ca) {
        double al = num(r, k); R.say(cx ? "c" : "d", "n", n, "alpha", al);
        if (!cx) { Vec<D> x(r, n); fill(x, std::ilogb(al)); x.save(); auto v = x.view(); rscl(al, v); for (idx i = 0; i < n; ++i) judge(ZL(al), x.old(i), x.at(i), i); if (!x.kept(true)) R.fail("frame", "wrote outside x"); }
        else { Vec<Z> x(r, n); fill(x, std::ilogb(al)); x.save(); auto v = x.view(); rscl(al, v); for (idx i = 0; i < n; ++i) judge(ZL(al), x.old(i), x.at(i), i); if (!x.kept(true)) R.fail("frame", "wrote outside x"); }
    }
    else {
        double re = num(r, k), im = r.p(.3) ? num(r, r.in(0, 3)) : re * (r.uni() + .01); if (r.p(.15)) re = 0; else if (r.p(.15)) im = 0; else if (r.p(.2)) re = im; if (re == 0 && im == 0) re = 1;
        Z al(re, im); R.say("cc n", n, "alpha", al);
        Vec<Z> x(r, n); fill(x, std::max(re ? std::ilogb(re) : -1074, im ? std::ilogb(im) : -1074)); x.save(); auto v = x.view();
        rscl(al, v);
        for (idx i = 0; i < n; ++i) judge(ZL(re, im), x.old(i), x.at(i), i);
        if (!x.kept(true)) R.fail("frame", "wrote outside x");
    }
}
CASE(ladiv)
{
    int k = r.in(0, 3); auto g = [&] { double x = num(r, r.p(.6) ? k : r.in(0, 3)); return r.p(.1) ? 0. : x; };
    double a = g(), b = g(), c = g(), d = g(); if (c == 0 && d == 0) c = 1;
    double p = 7, q = 7; bool w = r.p(.3);
    R.say(a, b, c, d, w ? "complex" : "real");
    if (w) { Z z = ladiv(Z(a, b), Z(c, d)); p = z.real(); q = z.imag(); } else ladiv(a, b, c, d, p, q);
    LD m = std::max(ab((LD)c), ab((LD)d)); LD n2 = ((LD)c / m) * ((LD)c / m) + ((LD)d / m) * ((LD)d / m);
    ZL z((((LD)a * ((LD)c / m) + (LD)b * ((LD)d / m)) / n2) / m, (((LD)b * ((LD)c / m) - (LD)a * ((LD)d / m)) / n2) / m);
    LD s = ab(z);
    if (!good(Z(p, q), z, 64 * EPS, s) && !(s < 4 * MN && std::hypot(p, q) < 16 * MN)) R.fail("value", "(a+ib)/(c+id) = " + str(Z(p, q)) + ", contract requires " + zs(z));
}
int main(int argc, char** argv) { return drive(argc, argv); }
