// dense reference algebra in std::complex<double>
#pragma once
#include "common.hpp"
namespace S {
struct DM {
    idx m, n;
    std::vector<Z> a;
    DM(idx m_ = 0, idx n_ = 0) : m(m_), n(n_), a(m_ * n_, Z(0)) {}
    Z& operator()(idx i, idx j) { return a[i + j * m]; }
    const Z& operator()(idx i, idx j) const { return a[i + j * m]; }
};
inline DM eye(idx m, idx n) { DM r(m, n); for (idx i = 0; i < std::min(m, n); ++i) r(i, i) = 1; return r; }
inline DM eye(idx n) { return eye(n, n); }
inline DM mul(const DM& A, const DM& B)
{
    DM r(A.m, B.n);
    for (idx j = 0; j < B.n; ++j) for (idx l = 0; l < A.n; ++l) { Z b = B(l, j); if (b != Z(0)) for (idx i = 0; i < A.m; ++i) r(i, j) += A(i, l) * b; }
    return r;
}
inline DM ct(const DM& A) { DM r(A.n, A.m); for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) r(j, i) = std::conj(A(i, j)); return r; }
inline DM sub(const DM& A, const DM& B) { DM r = A; for (size_t k = 0; k < r.a.size(); ++k) r.a[k] -= B.a[k]; return r; }
inline double mx(const DM& A) { double s = 0; for (auto& x : A.a) s = std::max(s, std::abs(x)); return s; }
template <class F> DM mk(idx m, idx n, F f) { DM r(m, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) r(i, j) = f(i, j); return r; }
template <class M> DM cur(const M& A) { return mk(A.m, A.n, [&](idx i, idx j) { return Z(A.at(i, j)); }); }
template <class M> DM was(const M& A) { return mk(A.m, A.n, [&](idx i, idx j) { return Z(A.old(i, j)); }); }
// first entry where the two differ
inline bool differ(Rep& R, const char* kind, const char* what, const DM& G, const DM& W, double scale)
{
    for (idx j = 0; j < W.n; ++j) for (idx i = 0; i < W.m; ++i) if (!near(G(i, j), W(i, j), scale)) { R.fail(kind, str2(what, i, j, G(i, j), W(i, j))); return true; }
    return false;
}
// scratch space of exactly the queried size, guarded on both sides
template <class T> struct Work {
    idx m, n;
    std::vector<T> b;
    Work(size_t m_, size_t n_) : m(m_), n(n_), b(m_ * n_ + 16, T(12345.5)) { for (idx i = 0; i < m * n; ++i) b[8 + i] = rd<T>::nan(); }
    LegacyMatrix<T, idx> view() { return LegacyMatrix<T, idx>(m, n, b.data() + 8, std::max<idx>(m, 1)); }
    bool ok() const { for (idx i = 0; i < 8; ++i) if (b[i] != T(12345.5) || b[8 + m * n + i] != T(12345.5)) return false; return true; }
};
// H X, X H with H = I - tau v v^H
inline void hl(DM& X, const std::vector<Z>& v, Z tau)
{
    for (idx j = 0; j < X.n; ++j) { Z s = 0; for (idx i = 0; i < X.m; ++i) s += std::conj(v[i]) * X(i, j); s *= tau; for (idx i = 0; i < X.m; ++i) X(i, j) -= v[i] * s; }
}
struct Refl { std::vector<std::vector<Z>> v; std::vector<Z> tau; idx n; };
// product H(0) H(1) ... H(k-1)   (reverse: H(k-1) ... H(0))
inline DM prod(const Refl& h, bool reverse)
{
    DM q = eye(h.n);
    idx k = h.v.size();
    for (idx t = 0; t < k; ++t) { idx i = reverse ? t : k - 1 - t; hl(q, h.v[i], h.tau[i]); }
    return q;
}
// reflectors stored in a panel: n = order, k = number
template <class G> Refl refl(bool fwd, bool col, idx n, idx k, G V, const std::vector<Z>& tau)
{
    Refl h; h.n = n;
    for (idx i = 0; i < k; ++i) {
        std::vector<Z> v(n, Z(0));
        idx p = fwd ? i : n - k + i;
        v[p] = 1;
        if (fwd) for (idx r = p + 1; r < n; ++r) v[r] = col ? Z(V(r, i)) : std::conj(Z(V(i, r)));
        else for (idx r = 0; r < p; ++r) v[r] = col ? Z(V(r, i)) : std::conj(Z(V(i, r)));
        h.v.push_back(v); h.tau.push_back(tau[i]);
    }
    return h;
}
}  // namespace S
