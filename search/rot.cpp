// Plane rotations: generation, application and sequences of rotations.
#define TLAPACK_NDEBUG
#include "dense.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/lartg.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/rotg.hpp"
#include "tlapack/blas/rotm.hpp"
#include "tlapack/blas/rotmg.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
using namespace S;
typedef long double LD;
typedef std::complex<long double> ZL;
static const double CS[][2] = {{.6, .8}, {.8, -.6}, {1, 0}, {0, 1}, {-.6, .8}, {5. / 13, 12. / 13}, {-1, 0}, {0, -1}, {.28, .96}};
inline void cs(Rng& r, double& c, D& s) { int k = r.in(0, 8); c = CS[k][0]; s = CS[k][1]; if (r.p(.1)) { c = r.in(-3, 3); s = r.in(-3, 3); } }
inline void cs(Rng& r, double& c, Z& s)
{
    D t; cs(r, c, t);
    static const Z ph[] = {1., Z(0, 1), Z(.6, .8), Z(-.28, .96), Z(0, -1), -1.};
    s = t * ph[r.in(0, 5)];
}
CASE(rot)
{
    TYPES(
        idx n = dim(r); double co; T si; cs(r, co, si); bool real_s = r.p(.2); if (real_s) si = T(real(si));
        R.say("n", n, "c", co, "s", si);
        Vec<T> x(r, n); Vec<T> y(r, n); x.save(); y.save();
        auto xv = x.view(); auto yv = y.view();
        if (real_s) rot(xv, yv, co, real(si)); else rot(xv, yv, co, si);
        for (idx i = 0; i < n; ++i) {
            Z w = co * Z(x.old(i)) + Z(si) * Z(y.old(i)); Z u = co * Z(y.old(i)) - std::conj(Z(si)) * Z(x.old(i));
            if (!near(x.at(i), w)) R.fail("value", str2("x", i, 0, x.at(i), w));
            if (!near(y.at(i), u)) R.fail("value", str2("y", i, 0, y.at(i), u));
        }
        if (!x.kept(true) || !y.kept(true)) R.fail("frame", "wrote outside the vectors");)
}
CASE(rotm)
{
    idx n = dim(r); int f = r.in(-2, 1); D h[4]; for (auto& q : h) q = r.in(-3, 3) + .5;
    R.say("n", n, "flag", f, h[0], h[1], h[2], h[3]);
    Vec<D> x(r, n), y(r, n); x.save(); y.save();
    auto xv = x.view(); auto yv = y.view();
    D H[4] = {h[0], h[1], h[2], h[3]};
    if (f == 0) H[0] = H[3] = 1; else if (f == 1) { H[2] = 1; H[1] = -1; } else if (f == -2) { H[0] = H[3] = 1; H[1] = H[2] = 0; }
    D g[4] = {h[0], h[1], h[2], h[3]};
    for (int q = 0; q < 4; ++q) if ((f == 0 && (q == 0 || q == 3)) || (f == 1 && (q == 1 || q == 2)) || f == -2) g[q] = NAN;
    if (f == -1) rotm<-1>(xv, yv, g); else if (f == 0) rotm<0>(xv, yv, g); else if (f == 1) rotm<1>(xv, yv, g); else rotm<-2>(xv, yv, g);
    for (idx i = 0; i < n; ++i) {
        D w = H[0] * x.old(i) + H[2] * y.old(i), u = H[1] * x.old(i) + H[3] * y.old(i);
        if (!near(x.at(i), w)) R.fail("value", str2("x", i, 0, x.at(i), w));
        if (!near(y.at(i), u)) R.fail("value", str2("y", i, 0, y.at(i), u));
    }
    if (!x.kept(true) || !y.kept(true)) R.fail("frame", "wrote outside the vectors");
}
template <class F> F pw(Rng& r, int lo, int hi) { return std::ldexp(F(1), int(r.in(lo, hi))); }
template <class F> F rnum(Rng& r, int kind)
{
    F x = F(r.in(1, 9)) * (r.p(.5) ? 1 : -1);
    if (r.p(.3)) x += F(r.uni());
    const bool f = sizeof(F) == 4;
    int lo = f ? -140 : -1060, hi = f ? 122 : 1018;
    if (r.p(.08)) return 0;
    if (kind == 1) return x * pw<F>(r, lo, hi);
    if (kind == 2) { int e[] = {0, lo, lo + 20, f ? -126 : -1022, f ? -124 : -1018, f ? -51 : -485, f ? -75 : -537, f ? 51 : 485, f ? 64 : 512, hi, hi - 20, lo / 2, hi / 2}; return x * std::ldexp(F(1), e[r.in(0, 12)] + int(r.in(-2, 2)) > hi ? hi : e[r.in(0, 12)]); }
    return x;
}
inline LD ab(ZL x) { return std::hypot(x.real(), x.imag()); }
template <class F> void rotg_real(Rng& r, Rep& R)
{
    int k = r.in(0, 2); F a = rnum<F>(r, k), b = rnum<F>(r, k), c = 7, s = 7, a0 = a, b0 = b, rr = 7; bool lart = r.p(.4);
    R.say(sizeof(F) == 4 ? "float" : "double", lart ? "lartg" : "rotg", "a", (LD)a0, "b", (LD)b0);
    if (lart) { const F ca = a, cb = b; lartg(ca, cb, c, s, rr); }
    else { rotg(a, b, c, s); rr = a; }
    const LD eps = std::numeric_limits<F>::epsilon(), tiny = std::numeric_limits<F>::denorm_min();
    LD h = std::hypot((LD)a0, (LD)b0), sg = h > std::numeric_limits<F>::max() ? INFINITY : h;
    if (!(std::isfinite(c) && std::isfinite(s))) { R.fail("value", "c or s is not finite"); return; }
    if (h < std::numeric_limits<F>::min() / eps) return;   // a subnormal r carries too few digits
    if (std::fabs((LD)c * c + (LD)s * s - 1) > 20 * eps) R.fail("value", "c*c + s*s = " + str((LD)c * c + (LD)s * s));
    if (std::isinf((double)sg)) return;
    if (std::fabs(std::fabs((LD)rr) - h) > 20 * eps * h + 4 * tiny) R.fail("value", "|r| = " + str((LD)std::fabs(rr)) + ", contract requires " + str(h));
    if (std::fabs((LD)c * a0 + (LD)s * b0 - rr) > 30 * eps * h + 8 * tiny) R.fail("value", "c*a + s*b = " + str((LD)c * a0 + (LD)s * b0) + ", r = " + str((LD)rr));
    if (std::fabs((LD)c * b0 - (LD)s * a0) > 30 * eps * h + 8 * tiny) R.fail("value", "-s*a + c*b = " + str((LD)c * b0 - (LD)s * a0) + ", contract requires 0");
    if (!lart) {   // documented encoding of the rotation in b
        bool ok = b == s || (c != 0 && std::fabs((LD)b * c - 1) < 10 * eps) || (c == 0 && b == 1) || (b0 == 0 && b == 0) || (std::isinf(b) && std::fabs(c) < 1e-30);
        if (!ok) R.fail("value", "b = " + str((LD)b) + " is none of s, 1/c, 0 (c = " + str((LD)c) + ", s = " + str((LD)s) + ")");
    }
}
template <class F> void rotg_cplx(Rng& r, Rep& R)
{
    typedef std::complex<F> C;
    int k = r.in(0, 2); auto g = [&] { F x = rnum<F>(r, k), y = rnum<F>(r, k == 1 && r.p(.5) ? 0 : k); if (r.p(.15)) x = 0; if (r.p(.15)) y = 0; return C(x, y); };
    C a = g(), b = g(), a0 = a, s(7, 7); F c = 7; const C b0 = b;
    R.say(sizeof(F) == 4 ? "cfloat" : "cdouble", "a", a0, "b", b0);
    rotg(a, b, c, s);
    const LD eps = std::numeric_limits<F>::epsilon(), tiny = std::numeric_limits<F>::denorm_min(), mn = std::numeric_limits<F>::min();
    ZL A(a0.real(), a0.imag()), B(b0.real(), b0.imag()), S_(s.real(), s.imag()), RR(a.real(), a.imag());
    LD h = std::hypot(ab(A), ab(B));
    if (!(std::isfinite(c) && std::isfinite(s.real()) && std::isfinite(s.imag()))) { R.fail("value", "c or s is not finite"); return; }
    if (std::fabs((LD)c * c + std::norm(S_) - 1) > 40 * eps) R.fail("value", "c*c + |s|^2 = " + str((LD)c * c + std::norm(S_)));
    if (h > std::numeric_limits<F>::max() / 4) return;
    if (h < mn / eps) return;   // result in the subnormal range: only accurate to an absolute error
    ZL w = (LD)c * A + S_ * B, z = -std::conj(S_) * A + (LD)c * B;
    if (ab(w - RR) > 60 * eps * h + 8 * tiny) R.fail("value", "c*a + s*b = " + str(w) + ", r = " + str(RR));
    if (ab(z) > 60 * eps * h + 8 * tiny) R.fail("value", "-conj(s)*a + c*b = " + str(z) + ", contract requires 0");
    if (c < 0) R.fail("value", "c is negative");
}
CASE(rotg) { switch (r.in(0, 3)) { case 0: rotg_real<double>(r, R); break; case 1: rotg_real<float>(r, R); break; case 2: rotg_cplx<double>(r, R); break; default: rotg_cplx<float>(r, R); } }
CASE(rotmg)
{
    bool wide = r.p(.6); auto num = [&]() -> D { D x = D(r.in(1, 9)) * (r.p(.5) ? 1 : -1); if (r.p(.4)) x += r.uni(); return wide ? x * std::ldexp(1., int(r.in(-40, 40))) : x; };
    D d1 = std::fabs(num()), d2 = std::fabs(num()), a = num(), b = r.p(.1) ? 0 : num(); if (r.p(.05)) d2 = 0;
    bool neg = r.p(.2); if (neg) d2 = -d2;   // allowed as long as d1 a^2 + d2 b^2 stays positive
    R.say("d1", d1, "d2", d2, "a", a, "b", b);
    D h[4] = {7, 7, 7, 7}; const D cb = b; D e1 = d1, e2 = d2, a0 = a; LD q = (LD)d1 * a * a + (LD)d2 * b * b; LD qa = (LD)d1 * a * a + std::fabs((LD)d2) * b * b;
    if (neg && q < 1e-3L * qa) return;
    int f = rotmg(e1, e2, a, cb, h);
    if (f < -2 || f > 1) { R.fail("value", "flag " + str(f)); return; }
    D H[4] = {h[0], h[1], h[2], h[3]};
    if (f == 0) H[0] = H[3] = 1; else if (f == 1) { H[2] = 1; H[1] = -1; } else if (f == -2) { H[0] = H[3] = 1; H[1] = H[2] = 0; }
    // new coordinates: x' = a, y' = 0
    LD x = (LD)H[0] * a0 + (LD)H[2] * b; LD y = (LD)H[1] * a0 + (LD)H[3] * b;
    if (std::fabs(x - a) > 1e-12L * (std::fabs((LD)H[0] * a0) + std::fabs((LD)H[2] * b))) R.fail("value", "first component of H (a,b) is " + str(x) + ", returned a = " + str(a));
    if (b != 0 && d2 != 0 && std::fabs(y) > 1e-12L * (std::fabs((LD)H[1] * a0) + std::fabs((LD)H[3] * b))) R.fail("value", "H does not eliminate b: " + str(y));
    // H^T D' H = D : the rotation preserves the scaled norm
    LD D1 = d1, D2 = d2;
    LD g11 = (LD)e1 * H[0] * H[0] + (LD)e2 * H[1] * H[1]; LD g12 = (LD)e1 * H[0] * H[2] + (LD)e2 * H[1] * H[3]; LD g22 = (LD)e1 * H[2] * H[2] + (LD)e2 * H[3] * H[3];
    LD t = neg ? 1e-8L : 1e-11L;
    if (std::fabs(g11 - D1) > t * D1) R.fail("value", "H^T D' H differs from D in (1,1): " + str(g11) + " instead of " + str(D1));
    if (std::fabs(g22 - D2) > t * std::fabs(D2)) R.fail("value", "H^T D' H differs from D in (2,2): " + str(g22) + " instead of " + str(D2));
    if (std::fabs(g12) > t * std::sqrt(D1 * std::fabs(D2))) R.fail("value", "H^T D' H is not diagonal: " + str(g12));
}
// reference: apply P(i) to rows/columns i, i+1
template <class X> void app(DM& A, bool left, idx i, double c, X s_)
{
    Z s(s_);
    if (left) for (idx j = 0; j < A.n; ++j) { Z x = A(i, j), y = A(i + 1, j); A(i, j) = c * x + s * y; A(i + 1, j) = -std::conj(s) * x + c * y; }
    else for (idx j = 0; j < A.m; ++j) { Z x = A(j, i), y = A(j, i + 1); A(j, i) = c * x + std::conj(s) * y; A(j, i + 1) = -s * x + c * y; }
}
template <class T, Layout L1, Layout L2> void seqs(Rng& r, Rep& R, bool three)
{
    idx m = dim(r), n = dim(r); bool left = r.p(.5);
    if (three && r.p(.12)) { (left ? n : m) = 256 + r.in(0, 3); (left ? m : n) = r.in(2, 9); }
    if ((left ? m : n) == 0) (left ? m : n) = 1;
    idx k = (left ? m : n) - 1, l = three ? (r.p(.7) ? r.in(0, long(std::min<idx>(k, 9))) : r.in(0, long(k) + 3)) : 1; bool fwd = r.p(.5); if (l > 12) l = 12;
    R.say("m", m, "n", n, left ? "Left" : "Right", fwd ? "Forward" : "Backward"); if (three) R.say("l", l);
    Mat<T, L1> A(r, m, n); Mat<D, L2> C(r, k, l); Mat<T, L2> S_(r, k, l);
    for (idx j = 0; j < l; ++j) for (idx i = 0; i < k; ++i) cs(r, C.at(i, j), S_.at(i, j));
    A.save(); C.save(); S_.save(); DM W = was(A);
    auto a = A.view(); auto cv = C.view(); auto sv = S_.view();
    Side sd = left ? Side::Left : Side::Right; Direction dr = fwd ? Direction::Forward : Direction::Backward;
    if (three) rot_sequence3(sd, dr, cv, sv, a);
    else {
        auto c0 = col(cv, 0); auto s0 = col(sv, 0);
        int rc = rot_sequence(sd, dr, c0, s0, a);
        if (rc != 0) R.fail("value", "returned " + str(rc));
    }
    // forward: P = P(0) ... P(k-1), P(k-1) acts first; the repository documents the order through its implementation and test
    double sc = 4;
    for (idx j = 0; j < l; ++j) for (idx t = 0; t < k; ++t) { idx i = fwd ? k - 1 - t : t; app(W, left, i, C.at(i, j), S_.at(i, j)); }
    for (auto& z : W.a) sc = std::max(sc, std::abs(z));
    if (!(sc < 1e12)) return;
    differ(R, "value", "A", cur(A), W, sc);
    if (!A.kept([&](idx, idx) { return true; }) || !C.kept() || !S_.kept()) R.fail("frame", "wrote outside A");
}
CASE(rot_sequence) { TYPES((seqs<T, L1, L2>(r, R, false));) }
CASE(rot_sequence3) { TYPES((seqs<T, L1, L2>(r, R, true));) }
int main(int argc, char** argv) { return drive(argc, argv); }
