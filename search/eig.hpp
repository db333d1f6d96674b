// shared by the eigenvalue evaluators
#pragma once
#include "dense.hpp"
using namespace S;
typedef long double LD;
typedef std::complex<long double> ZL;
static const double EPS = 2.3e-16;
template <class T> T rn(Rng& r) { if constexpr (std::is_same<T, D>::value) return r.uni(); else return Z(r.uni(), r.uni()); }
template <class T> T entry(Rng& r, int k)
{
    T x = k == 0 ? rv<T>(r) : k == 1 ? rn<T>(r) : k == 2 ? rn<T>(r) * std::ldexp(1., int(r.in(-30, 30))) : T(rv<T>(r) * 1.);
    return x;
}
// a random unitary matrix (exact product of rotations and phases is not needed: rounding of Z is part of the scale)
template <class T> DM unitary(Rng& r, idx n)
{
    DM q = eye(n);
    for (int t = 0; t < 2; ++t) { std::vector<Z> v(n); double s = 0; for (auto& x : v) { x = rn<T>(r); s += std::norm(x); } if (s > 1e-3) hl(q, v, 2. / s); }
    return q;
}
template <class T> T to(Z z) { if constexpr (std::is_same<T, D>::value) return z.real(); else return z; }
template <class M, class X> void put(M& A, const X& Q) { for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A.at(i, j) = to<typename std::decay<decltype(A.at(0, 0))>::type>(Q(i, j)); }
inline double fro(const DM& A) { double s = 0; for (auto& x : A.a) s += std::norm(x); return std::sqrt(s); }
inline bool fin(const DM& A) { for (auto& x : A.a) if (isn(x)) return false; return true; }
inline bool near0(Rep& R, const char* what, const DM& X, double tol)
{
    for (idx j = 0; j < X.n; ++j) for (idx i = 0; i < X.m; ++i) if (!(std::abs(X(i, j)) <= tol)) { R.fail("value", str2(what, i, j, X(i, j), Z(0)) + " up to " + str(tol)); return false; }
    return true;
}

// a matrix in Schur form with well separated eigenvalues; blk: first row of each block
template <class T, class M> void schur(Rng& r, M& A, std::vector<idx>& blk, double two)
{
    idx n = A.n; constexpr bool cx = !std::is_same<T, D>::value;
    std::vector<int> ev(n); for (idx i = 0; i < n; ++i) ev[i] = int(i) * 2; for (idx i = n; i > 1; --i) std::swap(ev[i - 1], ev[r.in(0, long(i) - 1)]);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) A.at(i, j) = i < j ? rn<T>(r) : T(0);
    for (idx i = 0; i < n;) {
        blk.push_back(i); A.at(i, i) = T(ev[i] - int(n)); if constexpr (cx) A.at(i, i) += Z(0, r.uni());
        if (!cx && i + 1 < n && r.p(two)) { D b = .5 + std::fabs(r.uni()); D cc = -(.5 + std::fabs(r.uni())); if (r.p(.5)) std::swap(b, cc); A.at(i + 1, i + 1) = A.at(i, i); A.at(i, i + 1) = T(b); A.at(i + 1, i) = T(cc); i += 2; }
        else ++i;
    }
}
template <class M> Z ev(M& A, idx i) { idx n = A.n; if (i + 1 < n && Z(A.at(i + 1, i)) != Z(0)) return Z(real(Z(A.at(i, i))), std::sqrt(std::fabs(real(Z(A.at(i, i + 1))) * real(Z(A.at(i + 1, i)))))); return Z(A.at(i, i)); }
template <class M> std::vector<Z> evs(M& A) { std::vector<Z> e; for (idx i = 0; i < A.n;) { e.push_back(ev(A, i)); i += i + 1 < A.n && Z(A.at(i + 1, i)) != Z(0) ? 2 : 1; } return e; }
