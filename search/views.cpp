#if __has_include(<Eigen/Core>)
#include <Eigen/Core>
#include "tlapack/plugins/eigen.hpp"
#define HAVE_EIGEN 1
#endif
#include "tlapack/base/utils.hpp"
#include "tlapack/LegacyBandedMatrix.hpp"
#include "common.hpp"
using namespace S;
// legacy views (the ones with a leading dimension / an increment)
template <class A> struct is_lm : std::false_type {};
template <class T, class I, Layout L> struct is_lm<LegacyMatrix<T, I, L>> : std::true_type {};
template <class A> struct is_lv : std::false_type {};
template <class T, class I, class J, Direction D> struct is_lv<LegacyVector<T, I, J, D>> : std::true_type {};
#define LM(x) is_lm<std::decay_t<decltype(x)>>::value
#define LV(x) is_lv<std::decay_t<decltype(x)>>::value

// which entries of the root array a view denotes, as a plain table
struct Tab {
    idx m, n;
    std::vector<const void*> p;
    const void*& at(idx i, idx j) { return p[i + j * m]; }
    Tab(idx a, idx b) : m(a), n(b), p(a * b, nullptr) {}
    Tab sub(idx r0, idx r1, idx c0, idx c1) { Tab t(r1 - r0, c1 - c0); for (idx j = c0; j < c1; ++j) for (idx i = r0; i < r1; ++i) t.at(i - r0, j - c0) = at(i, j); return t; }
    Tab tr() { Tab t(n, m); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) t.at(j, i) = at(i, j); return t; }
    Tab dg(int k) { std::vector<const void*> q; for (idx i = 0; i < m; ++i) { long j = long(i) + k; if (j >= 0 && j < long(n)) q.push_back(at(i, j)); } Tab t(q.size(), 1); t.p = q; return t; }
};
// an entry that is returned by value is recognised by its (unique) value
#define IS(e, q) ([&] { if constexpr (std::is_lvalue_reference<decltype(e)>::value) { auto&& x_ = e; return (const void*)&x_ == (q); } else return e == *(const std::decay_t<decltype(e)>*)(q); }())
template <class V> void checkview(Rep& R, const char* nm, V&& v, Tab t)
{
    if (idx(nrows(v)) != t.m || idx(ncols(v)) != t.n) { R.fail("value", std::string(nm) + ": size " + str(nrows(v)) + "x" + str(ncols(v)) + ", contract requires " + str(t.m) + "x" + str(t.n)); return; }
    if (idx(size(v)) != t.m * t.n) R.fail("value", std::string(nm) + ": size() is not rows times columns");
    for (idx j = 0; j < t.n; ++j) for (idx i = 0; i < t.m; ++i) if (!IS(v(i, j), t.at(i, j))) { R.fail("value", std::string(nm) + ": entry (" + str(i) + "," + str(j) + ") is not the entry of the array it names"); return; }
}
template <class V> void checkvec(Rep& R, const char* nm, V&& v, Tab t)
{
    if (idx(size(v)) != t.m * t.n) { R.fail("value", std::string(nm) + ": size " + str(size(v)) + ", contract requires " + str(t.m * t.n)); return; }
    for (idx i = 0; i < t.p.size(); ++i) if (!IS(v[i], t.p[i])) { R.fail("value", std::string(nm) + ": entry " + str(i) + " is not the entry of the array it names"); return; }
}
static std::pair<idx, idx> range(Rng& r, idx n) { idx a = r.in(0, n), b = r.in(a, n); return {a, b}; }
template <class T> constexpr int vecdir(const T&) { return 0; }
// a vector and the views taken of it
template <class V> void vecops(Rng& r, Rep& R, V& v, Tab t)
{
    checkvec(R, "vector view", v, t);
    auto s = range(r, t.p.size());
    Tab u(s.second - s.first, 1); for (idx i = s.first; i < s.second; ++i) u.p[i - s.first] = t.p[i];
    auto w = slice(v, s); checkvec(R, "slice of a vector", w, u);
    const auto& cv = v; auto cw = slice(cv, s); checkvec(R, "slice of a const vector", cw, u);
    auto s2 = range(r, u.p.size());
    Tab u2(s2.second - s2.first, 1); for (idx i = s2.first; i < s2.second; ++i) u2.p[i - s2.first] = u.p[i];
    auto w2 = slice(w, s2); checkvec(R, "slice of a slice", w2, u2);
}
// the two results of reshape denote each entry of the source exactly once
template <class A> void collect(std::multiset<const void*>& s, A& a)
{
    if constexpr (LM(a)) { for (idx j = 0; j < idx(ncols(a)); ++j) for (idx i = 0; i < idx(nrows(a)); ++i) s.insert(&a(i, j)); }
    else if constexpr (LV(a) || is_lv<std::decay_t<A>>::value) { for (idx i = 0; i < idx(size(a)); ++i) s.insert(&a[i]); }
    else { for (idx j = 0; j < idx(ncols(a)); ++j) for (idx i = 0; i < idx(nrows(a)); ++i) s.insert(&a(i, j)); }
}
template <class P> void parts(Rep& R, const char* nm, P& p, Tab t, long m, long n)
{
    std::multiset<const void*> s; collect(s, p.first); collect(s, p.second);
    std::multiset<const void*> w(t.p.begin(), t.p.end());
    if (s != w) R.fail("value", std::string(nm) + ": the two parts do not hold each entry of the source exactly once");
    if constexpr (!LV(p.first)) if (n >= 0 && (idx(nrows(p.first)) != idx(m) || idx(ncols(p.first)) != idx(n))) R.fail("value", std::string(nm) + ": the first part is " + str(nrows(p.first)) + "x" + str(ncols(p.first)));
    if (n < 0 && idx(size(p.first)) != idx(m)) R.fail("value", std::string(nm) + ": the first part has the wrong length");
}
template <class M> void reshapes(Rng& r, Rep& R, M& A, Tab t, bool contig)
{
    idx sz = t.m * t.n; idx m, n; int w = r.in(0, 5);
    if (w == 0) { m = t.m; n = r.in(0, t.n); } else if (w == 1) { n = t.n; m = r.in(0, t.m); }
    else if (w == 2) { m = 0; n = r.in(0, 6); } else if (w == 3) { n = 0; m = r.in(0, 6); } else { m = r.in(0, 5); n = r.in(0, 5); }
    R.say("reshape", m, n, contig ? "contiguous" : "strided");
    bool ok = m * n <= sz && (contig || m == t.m || n == t.n || m * n == 0);
    bool thrown = false;
    try { auto p = reshape(A, m, n); parts(R, "reshape to a matrix", p, t, m, n); } catch (const std::domain_error&) { thrown = true; }
    if (thrown == ok) R.fail("value", ok ? "reshape refused sizes it supports" : "reshape accepted sizes it cannot represent");
    idx k = r.p(.3) ? t.m : r.p(.4) ? t.n : r.in(0, sz + 1);
    bool ok2 = k <= sz && (contig || k == 0 || k == t.m || k == t.n); thrown = false;
    try { auto p = reshape(A, k); parts(R, "reshape to a vector", p, t, k, -1); } catch (const std::domain_error&) { thrown = true; }
    if (thrown == ok2) R.fail("value", ok2 ? "reshape refused a length it supports" : "reshape accepted a length it cannot represent");
}
template <class M> bool contiguous(M& A, Tab& t)
{
    std::vector<const void*> p(t.p); std::sort(p.begin(), p.end());
    typedef typename std::decay<decltype(A(0, 0))>::type T;
    for (idx i = 1; i < p.size(); ++i) if ((const T*)p[i] != (const T*)p[i - 1] + 1) return false;
    return true;
}
template <class M> void matops(Rng& r, Rep& R, M& A, Tab t, int depth, bool eig = false)
{
    idx m = t.m, n = t.n;
    checkview(R, "matrix view", A, t);
    const auto& C = A;
    int w = r.in(0, 8);
    auto R1 = range(r, m), C1 = range(r, n);
    R.say("op", w, "rows", R1.first, R1.second, "cols", C1.first, C1.second);
    if (w == 0) {
        auto v = slice(A, R1, C1); Tab u = t.sub(R1.first, R1.second, C1.first, C1.second); checkview(R, "slice", v, u);
        auto c = slice(C, R1, C1); checkview(R, "slice of a const matrix", c, u);
        if constexpr (LM(v)) { if (depth) matops(r, R, v, u, depth - 1); }
    }
    if (w == 1) {
        auto v = rows(A, R1); Tab u = t.sub(R1.first, R1.second, 0, n); checkview(R, "rows", v, u);
        auto c = rows(C, R1); checkview(R, "rows of a const matrix", c, u);
        if constexpr (LM(v)) { if (depth) matops(r, R, v, u, depth - 1); }
    }
    if (w == 2) {
        auto v = cols(A, C1); Tab u = t.sub(0, m, C1.first, C1.second); checkview(R, "cols", v, u);
        auto c = cols(C, C1); checkview(R, "cols of a const matrix", c, u);
        if constexpr (LM(v)) { if (depth) matops(r, R, v, u, depth - 1); }
    }
    if (w == 3 && m) { idx i = r.in(0, m - 1); Tab u = t.sub(i, i + 1, 0, n); auto v = row(A, i); vecops(r, R, v, u); auto c = row(C, i); checkvec(R, "row of a const matrix", c, u); }
    if (w == 4 && n) { idx j = r.in(0, n - 1); Tab u = t.sub(0, m, j, j + 1); auto v = col(A, j); vecops(r, R, v, u); auto c = col(C, j); checkvec(R, "col of a const matrix", c, u); }
    if (w == 5 && m) { idx i = r.in(0, m - 1); Tab u = t.sub(i, i + 1, C1.first, C1.second); auto v = slice(A, i, C1); vecops(r, R, v, u); auto c = slice(C, i, C1); checkvec(R, "row slice of a const matrix", c, u); }
    if (w == 6 && n) { idx j = r.in(0, n - 1); Tab u = t.sub(R1.first, R1.second, j, j + 1); auto v = slice(A, R1, j); vecops(r, R, v, u); auto c = slice(C, R1, j); checkvec(R, "column slice of a const matrix", c, u); }
    if (w == 7 && m && n) {
        int k = r.in(-long(m) + 1, long(n) - 1); R.say("diagonal", k); Tab u = t.dg(k);
        auto c = diag(C, k); checkvec(R, "diag of a const matrix", c, u);
        auto v = diag(A, k); checkvec(R, "diag", v, u);
        if constexpr (LV(v)) vecops(r, R, v, u);
    }
    if (w == 8) {
        auto v = transpose_view(A); checkview(R, "transpose_view", v, t.tr());
        if constexpr (LM(A)) { auto c = transpose_view(C); checkview(R, "transpose_view of a const matrix", c, t.tr()); }
        if constexpr (LM(v)) { if (depth) matops(r, R, v, t.tr(), depth - 1); }
    }
    if (depth && m && n) {
        auto l = legacy_matrix(A); idx ld = l.ldim;
        typedef typename std::decay<decltype(A(0, 0))>::type T;
        if (idx(l.m) != m || idx(l.n) != n) R.fail("value", "legacy_matrix: wrong size");
        else for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) if ((const void*)((const T*)l.ptr + (l.layout == Layout::ColMajor ? i + j * ld : i * ld + j)) != t.at(i, j)) { R.fail("value", "legacy_matrix: entry (" + str(i) + "," + str(j) + ") differs"); i = m; j = n - 1; }
    }
}
template <class M> Tab table(M& A, idx m, idx n) { Tab t(m, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) t.at(i, j) = &A.at(i, j); return t; }

CASE(vmatrix)
{
    TYPES(idx m = dim(r, false); idx n = dim(r, false); Mat<T, L1> A(r, m, n); R.say("m", m, "n", n, "ld", A.ld); auto a = A.view(); matops(r, R, a, table(A, m, n), 2);)
}
CASE(vreshape)
{
    TYPES(idx m = dim(r, false); idx n = dim(r, false); if (r.p(.1)) m = 1; if (r.p(.1)) n = 1; Mat<T, L1> A(r, m, n); if (r.p(.5)) A.ld = std::max<idx>(1, L1 == Layout::ColMajor ? m : n);
          R.say("m", m, "n", n, "ld", A.ld); auto a = A.view(); Tab t = table(A, m, n); reshapes(r, R, a, t, contiguous(a, t));)
}
template <Direction DD, class T> void vv(Rng& r, Rep& R)
{
    idx n = dim(r, false); std::ptrdiff_t inc = r.in(1, 3); std::vector<T> b((n + 1) * inc + 2);
    R.say("n", n, "inc", inc, DD == Direction::Forward ? "forward" : "backward");
    LegacyVector<T, idx, std::ptrdiff_t, DD> v(n, b.data(), inc);
    Tab t(n, 1); for (idx i = 0; i < n; ++i) t.p[i] = b.data() + (DD == Direction::Forward ? i : n - 1 - i) * inc;
    vecops(r, R, v, t);
    idx k = r.in(0, n + 1); bool thrown = false;
    try { auto p = reshape(v, k); parts(R, "reshape of a vector", p, t, k, -1); checkvec(R, "first part", p.first, [&] { Tab u(k, 1); for (idx i = 0; i < k; ++i) u.p[i] = t.p[i]; return u; }()); } catch (const std::domain_error&) { thrown = true; }
    if (thrown != (k > n)) R.fail("value", "reshape of a vector to a vector");
    idx m = r.in(0, 3), q = r.in(0, 4); thrown = false; bool ok = m * q <= n && (inc == 1 || n <= 1 || m <= 1);
    try { auto p = reshape(v, m, q); if (DD == Direction::Forward || inc == 1) parts(R, "reshape of a vector to a matrix", p, t, m, q); } catch (const std::domain_error&) { thrown = true; }
    if (thrown == ok) R.fail("value", "reshape of a vector to a matrix: sizes");
    if (DD == Direction::Forward && n) { auto l = legacy_vector(v); for (idx i = 0; i < n; ++i) if ((const void*)(l.ptr + i * l.inc) != t.p[i] || idx(l.n) != n) { R.fail("value", "legacy_vector: entry " + str(i) + " differs"); break; } }
}
CASE(vvector)
{
    int w = r.in(0, 3);
    if (w == 0) vv<Direction::Forward, D>(r, R); else if (w == 1) vv<Direction::Backward, D>(r, R); else if (w == 2) vv<Direction::Forward, Z>(r, R); else vv<Direction::Backward, Z>(r, R);
}
CASE(vstd)
{
    idx n = dim(r, false); std::vector<D> v(n); R.say("n", n);
    Tab t(n, 1); for (idx i = 0; i < n; ++i) t.p[i] = v.data() + i;
    vecops(r, R, v, t);
}
CASE(vband)
{
    idx m = r.in(1, 7), n = r.in(1, 7), kl = r.in(0, m - 1), ku = r.in(0, n - 1); R.say("m", m, "n", n, "kl", kl, "ku", ku);
    std::vector<D> b((kl + ku + 1) * n); LegacyBandedMatrix<D, idx> A(m, n, kl, ku, b.data()); const auto& C = A;
    if (nrows(A) != m || ncols(A) != n) R.fail("value", "banded matrix: wrong size");
    for (idx j = 0; j < n; ++j) for (idx i = j > ku ? j - ku : 0; i < std::min(m, j + kl + 1); ++i) {
        const D* w = b.data() + (ku + i - j) + j * (ku + kl + 1);
        if (&A(i, j) != w || &C(i, j) != w) R.fail("value", "banded entry (" + str(i) + "," + str(j) + ") is not at its documented place");
    }
}
CASE(vcreate)
{
    TYPES(idx m = dim(r, false); idx n = dim(r, false); R.say("m", m, "n", n);
          Create<LegacyMatrix<T, idx, L1>> newm; std::vector<T> b; auto A = newm(b, m, n);
          std::set<const void*> s; for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) s.insert(&A(i, j));
          if (idx(nrows(A)) != m || idx(ncols(A)) != n || s.size() != m * n) R.fail("value", "Create: the new matrix has the wrong shape or shares entries");
          for (auto p : s) if (p < (void*)b.data() || p >= (void*)(b.data() + b.size())) R.fail("access", "Create: entry outside the storage");
          if (layout<decltype(A)> != L1) R.fail("value", "Create: wrong layout");
          CreateStatic<LegacyMatrix<T, idx, L1>, 3, 2> news; T st[6]; auto B = news(st);
          std::set<const void*> s2; for (idx j = 0; j < 2; ++j) for (idx i = 0; i < 3; ++i) s2.insert(&B(i, j));
          if (s2.size() != 6 || *s2.begin() != (void*)st || *s2.rbegin() != (void*)(st + 5)) R.fail("value", "CreateStatic: the entries do not cover the storage");
          Create<LegacyVector<T, idx, idx>> newv; std::vector<T> c; auto v = newv(c, n); std::set<const void*> s3;
          for (idx i = 0; i < n; ++i) s3.insert(&v[i]);
          if (idx(size(v)) != n || s3.size() != n) R.fail("value", "Create: the new vector has the wrong length or shares entries");
          for (auto p : s3) if (p < (void*)c.data() || p >= (void*)(c.data() + c.size())) R.fail("access", "Create: entry outside the storage");)
}
#ifdef HAVE_EIGEN
template <class E> void eg(Rng& r, Rep& R)
{
    idx m = dim(r, false), n = dim(r, false); E A(m, n); R.say("m", m, "n", n, E::IsRowMajor ? "row" : "col");
    Tab t(m, n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) { t.at(i, j) = &A(i, j); A(i, j) = 1 + i + 1000. * j; }
    matops(r, R, A, t, 1);
    auto R1 = range(r, m), C1 = range(r, n);
    auto b = slice(A, R1, C1); Tab u = t.sub(R1.first, R1.second, C1.first, C1.second);
    R.say("block", R1.first, R1.second, C1.first, C1.second);
    matops(r, R, b, u, 1);
    if (r.p(.5)) reshapes(r, R, A, t, true);
    else { Tab w(u); reshapes(r, R, b, u, contiguous(b, w)); }
}
CASE(veigen)
{
    if (r.p(.5)) eg<Eigen::Matrix<D, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>>(r, R); else eg<Eigen::Matrix<D, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(r, R);
}
#endif
int main(int a, char** b) { return drive(a, b); }
