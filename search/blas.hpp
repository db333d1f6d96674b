#pragma once
#include "common.hpp"
namespace S {
// value and frame check of a matrix result; f(i,j) is the contract's value,
// in(i,j) the region that may be written
template <class M, class In, class F>
void checkM(Rep& R, const char* nm, M& C, const char* kind, In in, F f, double scale = 1)
{
    for (idx j = 0; j < C.n; ++j)
        for (idx i = 0; i < C.m; ++i)
            if (in(i, j)) {
                Z w = f(i, j);
                if (!near(C.at(i, j), w, scale)) {
                    R.fail(kind, str2(nm, i, j, C.at(i, j), w));
                    return;
                }
            }
    if (!C.kept(in)) R.fail("frame", std::string(nm) + ": an element outside the documented output region was modified");
}
template <class V, class F> void checkV(Rep& R, const char* nm, V& y, const char* kind, F f, double scale = 1)
{
    for (idx i = 0; i < y.n; ++i) {
        Z w = f(i);
        if (!near(y.at(i), w, scale)) {
            R.fail(kind, str2(nm, i, 0, y.at(i), w));
            return;
        }
    }
    if (!y.kept(true)) R.fail("frame", std::string(nm) + ": an element outside the vector was modified");
}
template <class M> void input(Rep& R, const char* nm, M& A)
{
    if (!A.kept()) R.fail("frame", std::string(nm) + ": an input matrix was modified");
}
template <class V> void inputv(Rep& R, const char* nm, V& A)
{
    if (!A.kept(false)) R.fail("frame", std::string(nm) + ": an input vector was modified");
}
inline auto all = [](idx, idx) { return true; };

// element of a triangular matrix stored in A
template <class M> Z tri(const M& A, Uplo u, Diag d, idx i, idx j)
{
    if (i == j) return d == Diag::Unit ? Z(1) : Z(A.at(i, i));
    return intri(u, i, j) ? Z(A.at(i, j)) : Z(0);
}
template <class M> Z trop(const M& A, Uplo u, Diag d, Op o, idx i, idx j)
{
    return o == Op::NoTrans ? tri(A, u, d, i, j) : o == Op::Conj ? std::conj(tri(A, u, d, i, j)) : o == Op::Trans ? tri(A, u, d, j, i) : std::conj(tri(A, u, d, j, i));
}
// is the (i,j) entry of op(tri(A)) structurally nonzero?
inline bool trnz(Uplo u, Op o, idx i, idx j) { return o == Op::NoTrans || o == Op::Conj ? intri(u, i, j) : intri(u, j, i); }
template <class M> Z herm(const M& A, Uplo u, bool h, idx i, idx j)
{
    if (i == j) return h ? Z(Z(A.at(i, i)).real()) : Z(A.at(i, i));
    if (intri(u, i, j)) return Z(A.at(i, j));
    return h ? std::conj(Z(A.at(j, i))) : Z(A.at(j, i));
}
template <class M> void easy_diag(M& A, Rng& r)
{
    static const double v[] = {1, -1, 2, .5, -2};
    for (idx i = 0; i < std::min(A.m, A.n); ++i) A.at(i, i) = v[r.in(0, 4)];
}
// strictly triangular part scaled down so that solves stay well conditioned
template <class M> void tame(M& A)
{
    double s = A.m > 8 ? 1.0 / 64 : .5;
    for (idx j = 0; j < A.n; ++j)
        for (idx i = 0; i < A.m; ++i)
            if (i != j) A.at(i, j) *= s;
}
}  // namespace S
