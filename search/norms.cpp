// Norms, scaled sums of squares and NaN/Inf detection: bounded evaluation of
// the contracts of specs/norms.py, against sums accumulated in long double.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/lapack/hasinf.hpp"
#include "tlapack/lapack/hasnan.hpp"
#include "tlapack/lapack/infnorm_colmajor.hpp"
#include "tlapack/lapack/infnorm_hermitian_colmajor.hpp"
#include "tlapack/lapack/infnorm_symmetric_colmajor.hpp"
#include "tlapack/lapack/infnorm_triangular_colmajor.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/lapy2.hpp"
#include "tlapack/lapack/lapy3.hpp"
#include "tlapack/lapack/lassq.hpp"
using namespace S;
typedef long double LD;
inline LD ab(D x) { return std::fabs((LD)x); }
inline LD ab(Z x) { return std::hypot((LD)x.real(), (LD)x.imag()); }
// how the entries are scaled: 0 plain, 1 huge, 2 tiny, 3 mixed, 4 mixed extreme
inline double mag(Rng& r, int k)
{
    switch (k) {
        case 1: return std::ldexp(1., int(r.in(500, 1015)));
        case 2: return std::ldexp(1., int(r.in(-1060, -500)));
        case 3: { int e[] = {0, 0, 0, -600, 600, -511, 511, 486, -538}; return std::ldexp(1., e[r.in(0, 8)]); }
        case 4: return std::ldexp(1., int(r.in(-1060, 1015)));
        default: return 1;
    }
}
inline bool agree(LD got, LD want) {
    if (std::isnan((double)got) || std::isnan((double)want)) return std::isnan((double)got) == std::isnan((double)want);
    if (std::isinf((double)got) || std::isinf((double)want)) return (double)got == (double)want || (std::isinf((double)got) && want > 1.7e308L);
    return std::fabs(got - want) <= 1e-12L * want + 1e-321L;
}
template <class M> void fillmag(Rng& r, M& A, int k) { for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A.at(i, j) *= mag(r, k); }
// reference: entry(i,j) is a magnitude, 0 where nothing is stored
template <class F> LD ref(Norm t, idx m, idx n, F e)
{
    LD s = 0;
    bool nan = false;
    auto up = [&](LD x) { if (std::isnan((double)x)) nan = true; if (x > s) s = x; };
    if (t == Norm::Max) for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) up(e(i, j));
    if (t == Norm::One) for (idx j = 0; j < n; ++j) { LD x = 0; for (idx i = 0; i < m; ++i) x += e(i, j); up(x); }
    if (t == Norm::Inf) for (idx i = 0; i < m; ++i) { LD x = 0; for (idx j = 0; j < n; ++j) x += e(i, j); up(x); }
    if (t == Norm::Fro) { LD x = 0; for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) { LD y = e(i, j); x += y * y; } up(std::sqrt(x)); }
    return nan ? (LD)NAN : s;
}
inline std::string lds(LD x) { std::ostringstream o; o.precision(20); o << x; return o.str(); }
inline const char* nn(Norm t) { return t == Norm::Max ? "M" : t == Norm::One ? "1" : t == Norm::Inf ? "I" : "F"; }
static const Norm NT[] = {Norm::Max, Norm::One, Norm::Inf, Norm::Fro};

// plant a special value somewhere in the referenced region; returns whether it did
template <class M, class F> bool special(Rng& r, M& A, F in, double x)
{
    std::vector<std::pair<idx, idx>> c;
    for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) if (in(i, j)) c.push_back({i, j});
    if (c.empty()) return false;
    auto k = c[r.in(0, long(c.size()) - 1)];
    A.at(k.first, k.second) = typename std::decay<decltype(A.at(0, 0))>::type(x);
    return true;
}
static void norms(Rng& r, Rep& R, int which)
{
    TYPES(
        bool sq = which == 1 || which == 2;
        idx m = dim(r, false); idx n = sq ? m : dim(r, false); int k = r.p(.4) ? r.in(1, 4) : 0;
        Norm t = NT[r.in(0, 3)]; Uplo u = ru(r); Diag dg = rdiag(r); bool poison = r.p(.5); int sp = r.p(.25) ? r.in(1, 2) : 0;
        bool work = r.p(.3);
        R.say("m", m, "n", n, nn(t), c(u), c(dg), "scale", k, "poison", poison, "special", sp, "work", work);
        Mat<T, L1> A(r, m, n); fillmag(r, A, k);
        auto stored = [&](idx i, idx j) { return which == 0 ? true : which == 3 && i == j ? dg == Diag::NonUnit : intri(u, i, j); };
        auto seen = [&](idx i, idx j) { return stored(i, j) && !(which == 2 && i == j); };
        if (sp && !special(r, A, seen, sp == 1 ? NAN : INFINITY)) sp = 0;
        if (poison) A.fill([&](idx i, idx j) { return !stored(i, j); }, rd<T>::nan());
        if constexpr (cplx) if (which == 2 && poison) for (idx i = 0; i < n; ++i) A.at(i, i) += Z(0, 1) * 3.;
        auto e = [&](idx i, idx j) -> LD {
            if (which == 0) return ab(A.at(i, j));
            if (which == 3) return i == j && dg == Diag::Unit ? 1 : intri(u, i, j) ? ab(A.at(i, j)) : 0;
            if (i == j) return which == 2 ? std::fabs((LD)real(A.at(i, i))) : ab(A.at(i, i));
            return intri(u, i, j) ? ab(A.at(i, j)) : ab(A.at(j, i));
        };
        A.save(); auto a = A.view();
        LD got; Norm tt = t;
        bool inf = t == Norm::Inf && work;
        if (inf) {
            Work<T> w(std::max<idx>(m, 1), 1); auto wv = w.view();
            bool alloc = r.p(.5);
            if (which == 0) got = alloc ? infnorm_colmajor(a) : infnorm_colmajor_work(a, wv);
            else if (which == 1) got = alloc ? infnorm_symmetric_colmajor(u, a) : infnorm_symmetric_colmajor_work(u, a, wv);
            else if (which == 2) got = alloc ? infnorm_hermitian_colmajor(u, a) : infnorm_hermitian_colmajor_work(u, a, wv);
            else got = alloc ? infnorm_triangular_colmajor(u, dg, a) : infnorm_triangular_colmajor_work(u, dg, a, wv);
            if (!w.ok()) R.fail("frame", "wrote outside the workspace");
        }
        else got = which == 0 ? lange(tt, a) : which == 1 ? lansy(tt, u, a) : which == 2 ? lanhe(tt, u, a) : lantr(tt, u, dg, a);
        LD want = m && n ? ref(t, m, n, e) : 0;
        if (m == 0 || n == 0) want = 0;
        if (!agree(got, want)) R.fail(poison ? "access" : sp ? "special" : "value", std::string(nn(t)) + " norm " + lds(got) + ", contract requires " + lds(want));
        if (!A.kept()) R.fail("frame", "A was modified");)
}
CASE(lange) { norms(r, R, 0); }
CASE(lansy) { norms(r, R, 1); }
CASE(lanhe) { norms(r, R, 2); }
CASE(lantr) { norms(r, R, 3); }

CASE(lassq)
{
    TYPES(
        idx n = dim(r, false); int k = r.p(.7) ? r.in(1, 4) : 0; int sp = r.p(.15) ? r.in(1, 2) : 0; int calls = int(r.in(1, 3)); bool start = r.p(.4);
        R.say("n", n, "scale", k, "special", sp, "calls", calls, "start", start);
        LD want = 0; D scl = 1; D sq = 0; bool nan = false; bool inf = false;
        if (start) { scl = mag(r, std::min(k, 3)) * (1 + r.in(0, 3)); sq = r.p(.2) ? 0 : double(r.in(1, 9)) * (k == 3 && r.p(.3) ? mag(r, 3) : 1.); if (!(ab(scl) * std::sqrt((LD)sq) < 1e300L)) scl = 1; if (r.p(.5)) { int e = int(r.in(-1060, 1000)); int f = std::max(-1060, std::min(1000, int(e + r.in(-480, 480)))); scl = std::ldexp(1. + .25 * r.in(0, 3), f); sq = std::ldexp(1. + .25 * r.in(0, 3), 2 * (e - f)); if (!std::isfinite(sq)) sq = 1; } if (r.p(.1)) scl = 0; want = (LD)scl * scl * sq; }
        R.say("scl", scl, "sq", sq);
        for (int q = 0; q < calls; ++q) {
            Vec<T> x(r, n); for (idx i = 0; i < n; ++i) x.at(i) *= mag(r, k);
            if (sp && n && q == 0) { x.at(r.in(0, long(n) - 1)) = T(sp == 1 ? NAN : INFINITY); (sp == 1 ? nan : inf) = true; }
            for (idx i = 0; i < n; ++i) { LD y = ab(x.at(i)); want += y * y; }
            x.save(); auto xv = x.view();
            lassq(xv, scl, sq);
            if (!x.kept(false)) R.fail("frame", "x was modified");
        }
        LD got = (LD)scl * std::sqrt((LD)sq); want = std::sqrt(want);
        if (nan ? !(scl != scl || sq != sq) : inf ? !std::isinf((double)got) : std::fabs(got - want) > 1e-11L * want + 1e-321L)
            R.fail("value", "scale*sqrt(sumsq) = " + lds(got) + ", contract requires " + lds(nan ? (LD)NAN : want));
        Vec<T> x(r, n); for (idx i = 0; i < n; ++i) x.at(i) *= mag(r, k); LD w2 = 0; for (idx i = 0; i < n; ++i) { LD y = ab(x.at(i)); w2 += y * y; }
        auto xv = x.view(); LD g2 = nrm2(xv);
        if (!agree(g2, std::sqrt(w2))) R.fail("value", "nrm2 = " + lds(g2) + ", contract requires " + lds(std::sqrt(w2)));)
}
CASE(lapy)
{
    auto pick = [&]() -> D { int k = r.in(0, 9); D s = r.p(.5) ? 1 : -1; return k == 0 ? 0 : k == 1 ? s * INFINITY : k == 2 ? NAN : k == 3 ? s * 4.9e-324 : k == 4 ? s * 1.7e308 : k < 7 ? s * double(r.in(1, 9)) : s * double(r.in(1, 9)) * mag(r, 4); };
    D x = pick(), y = pick(), z = pick();
    R.say("x", x, "y", y, "z", z);
    bool nan2 = x != x || y != y, inf2 = std::isinf(x) || std::isinf(y);
    LD w = std::sqrt((LD)x * x + (LD)y * y), g = lapy2(x, y);
    // an argument that is NaN gives NaN unless the other one decides the result; infinities give Inf (or NaN for two of them)
    if (nan2) { if (!inf2 && !std::isnan((double)g)) R.fail("value", "lapy2 lost a NaN: " + lds(g)); }
    else if (inf2) { if (!(std::isinf(x) && std::isinf(y)) && !std::isinf((double)g)) R.fail("value", "lapy2 of an infinity is " + lds(g)); }
    else if (!agree(g, w)) R.fail("value", "lapy2 = " + lds(g) + ", contract requires " + lds(w));
    if (nan2 || inf2 || z != z || std::isinf(z)) return;
    w = std::sqrt((LD)x * x + (LD)y * y + (LD)z * z); g = lapy3(x, y, z);
    if (!agree(g, w)) R.fail("value", "lapy3 = " + lds(g) + ", contract requires " + lds(w));
}

static const Uplo UP[] = {Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower, Uplo::UpperHessenberg, Uplo::LowerHessenberg};
inline bool inreg(Uplo u, idx i, idx j)
{
    switch (u) {
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::StrictUpper: return i < j;
        case Uplo::StrictLower: return i > j;
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        default: return true;
    }
}
CASE(has)
{
    TYPES(
        idx m = dim(r, false); idx n = dim(r, false); int w = r.in(0, 2); Uplo u = UP[r.in(0, 6)]; BandAccess b{size_t(r.in(0, 4)), size_t(r.in(0, 4))};
        bool isv = w == 2; bool banded = w == 1; bool in = r.p(.5); bool nan = r.p(.5); bool im = cplx && r.p(.5);
        R.say("m", m, "n", n, isv ? "vector" : banded ? "band" : "uplo", (int)u, "kl", b.lower_bandwidth, "ku", b.upper_bandwidth, "inside", in, nan ? "nan" : "inf");
        T bad; if constexpr (cplx) bad = im ? Z(1, nan ? NAN : -INFINITY) : Z(nan ? NAN : INFINITY, 1); else bad = nan ? NAN : r.p(.5) ? INFINITY : -INFINITY;
        if (isv) {
            Vec<T> x(r, n); bool h = in && n; if (h) x.at(r.in(0, long(n) - 1)) = bad;
            auto xv = x.view();
            if (hasnan(xv) != (h && nan)) R.fail("value", "hasnan(x) is wrong");
            if (hasinf(xv) != (h && !nan)) R.fail("value", "hasinf(x) is wrong");
            return;
        }
        Mat<T, L1> A(r, m, n);
        auto reg = [&](idx i, idx j) { return banded ? i <= j + b.lower_bandwidth && j <= i + b.upper_bandwidth : inreg(u, i, j); };
        // fill everything outside the region (and around the matrix) with the bad value
        if (r.p(.5)) { for (auto& x : A.b) if (x != x) x = bad; A.fill([&](idx i, idx j) { return !reg(i, j); }, bad); }
        else for (auto& x : A.b) if (x != x) x = bad;
        bool h = false;
        if (in) { std::vector<std::pair<idx, idx>> c; for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) if (reg(i, j)) c.push_back({i, j}); if (!c.empty()) { auto k = c[r.p(.4) ? size_t(r.p(.5) ? 0 : c.size() - 1) : size_t(r.in(0, long(c.size()) - 1))]; A.at(k.first, k.second) = bad; h = true; } }
        auto a = A.view();
        bool gn = banded ? hasnan(b, a) : hasnan(u, a); bool gi = banded ? hasinf(b, a) : hasinf(u, a);
        if (gn != (h && nan)) R.fail("value", gn ? "hasnan reports a NaN where there is none" : "hasnan misses a NaN");
        if (gi != (h && !nan)) R.fail("value", gi ? "hasinf reports an infinity where there is none" : "hasinf misses an infinity");)
}
CASE(iamax)
{
    TYPES(
        idx n = dim(r, false); int k = r.p(.3) ? r.in(1, 4) : 0; int sp = r.in(0, 5); bool big = cplx && r.p(.3);
        R.say("n", n, "scale", k, "special", sp, "big", big);
        Vec<T> x(r, n); for (idx i = 0; i < n; ++i) x.at(i) *= mag(r, k);
        if (big) for (idx i = 0; i < n; ++i) if (r.p(.5)) x.at(i) = T(r.p(.5) ? 1.6e308 : 1.1e308) * (r.p(.5) ? T(1) : T(-1)) + T(cplx ? 0 : 0);
        if constexpr (cplx) if (big) for (idx i = 0; i < n; ++i) if (std::abs(real(x.at(i))) > 1e308) x.at(i) = Z(real(x.at(i)), r.p(.5) ? 1.5e308 : -1.2e308);
        long fn = -1; long fi = -1;
        for (idx i = 0; i < n; ++i) if (sp >= 4 && r.p(.3)) { bool isn_ = sp == 5 && r.p(.5); x.at(i) = T(isn_ ? NAN : r.p(.5) ? INFINITY : -INFINITY); if (isn_ && fn < 0) fn = long(i); if (!isn_ && fi < 0) fi = long(i); }
        x.save(); auto xv = x.view();
        EcOpts ec; ec.ec.nan = true; EcOpts nc; nc.ec.nan = false;
        auto f = [](const T& z) { return real_type<T>(abs1(z)); };
        auto check = [&](const char* nm, size_t g, bool usenan) {
            if (n == 0) { if (g != 0) R.fail("value", std::string(nm) + " of an empty vector is not 0"); return; }
            long want = usenan && fn >= 0 ? fn : fi >= 0 ? fi : -1;
            if (!usenan && fn >= 0) return;   // unspecified
            if (want >= 0) { if (long(g) != want) R.fail("value", std::string(nm) + " = " + std::to_string(g) + ", first special entry is " + std::to_string(want)); return; }
            if (g >= n) { R.fail("value", std::string(nm) + " returned an index out of range"); return; }
            auto v1 = [&](idx i) { Z z(x.at(i)); return std::fabs((LD)z.real()) + std::fabs((LD)z.imag()); };
            for (idx i = 0; i < n; ++i) if (v1(i) > v1(g) * (1 + 1e-15L) || (v1(i) == v1(g) && i < g)) { R.fail("value", std::string(nm) + " = " + std::to_string(g) + " but entry " + std::to_string(i) + (i < g ? " is as large" : " is larger")); return; }
        };
        check("iamax", iamax(xv, IamaxOpts(f, ec)), true);
        check("iamax_ec", iamax_ec(xv, f), true);
        check("iamax_nc", iamax_nc(xv, f), false);
        check("iamax()", iamax(xv), TLAPACK_DEFAULT_NANCHECK);
        if (!x.kept(false)) R.fail("frame", "x was modified");)
}
int main(int a, char** b) { return drive(a, b); }
