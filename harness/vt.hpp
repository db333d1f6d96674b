// Abstract scalars, matrices and vectors used to instantiate the real tlapack
// templates for verification.  Every operation is an extern pure function, so
// the LLVM IR of an instantiated template is the template's own control flow
// and index arithmetic over opaque field operations.
#ifndef VT_HPP
#define VT_HPP
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <complex>
#include <iostream>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <algorithm>

#define VT_PURE __attribute__((const, nothrow))
#define VT_INL __attribute__((always_inline)) inline

namespace vt {
typedef const struct opaque_term* H;  // handle of a scalar term
}
extern "C" {
VT_PURE vt::H v_int(long) noexcept;
VT_PURE vt::H v_dbl(double) noexcept;
VT_PURE vt::H v_add(vt::H, vt::H) noexcept;
VT_PURE vt::H v_sub(vt::H, vt::H) noexcept;
VT_PURE vt::H v_mul(vt::H, vt::H) noexcept;
VT_PURE vt::H v_div(vt::H, vt::H) noexcept;
VT_PURE vt::H v_neg(vt::H) noexcept;
VT_PURE vt::H v_conj(vt::H) noexcept;
VT_PURE vt::H v_real(vt::H) noexcept;
VT_PURE vt::H v_imag(vt::H) noexcept;
VT_PURE vt::H v_cplx(vt::H, vt::H) noexcept;
VT_PURE vt::H v_abs(vt::H) noexcept;
VT_PURE vt::H v_sqrt(vt::H) noexcept;
VT_PURE vt::H v_log2(vt::H) noexcept;
VT_PURE vt::H v_pow(vt::H, vt::H) noexcept;
VT_PURE vt::H v_ceil(vt::H) noexcept;
VT_PURE vt::H v_floor(vt::H) noexcept;
VT_PURE vt::H v_lim(int) noexcept;  // numeric_limits constants
VT_PURE bool v_eq(vt::H, vt::H) noexcept;
VT_PURE bool v_lt(vt::H, vt::H) noexcept;
VT_PURE bool v_le(vt::H, vt::H) noexcept;
VT_PURE bool v_isnan(vt::H) noexcept;
VT_PURE bool v_isinf(vt::H) noexcept;
VT_PURE long v_toint(vt::H) noexcept;
// address of an element: base id, row/col offset, view flags, element index
VT_PURE void* v_at(long base, std::size_t r, std::size_t c) noexcept;
// raw storage of a pointer argument (legacy interface)
VT_PURE void* v_raw(long base) noexcept;
// bounds obligation (not pure)
void v_bounds(std::size_t i, std::size_t n) noexcept;
void v_assert(bool c, int code) noexcept;
void v_assume(bool c) noexcept;
void v_check(bool c) noexcept;
long v_newbase(int real) noexcept;
}

namespace vt {

struct VR {
    H h;
    VR() = default;
    template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    VT_INL VR(I i) : h(v_int(long(i))) {}
    template <class F, std::enable_if_t<std::is_floating_point_v<F>, int> = 0>
    VT_INL VR(F f) : h(v_dbl(double(f))) {}
    struct raw {};
    VT_INL VR(raw, H x) : h(x) {}
    template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    VT_INL explicit operator I() const { return I(v_toint(h)); }
};
VT_INL VR mk(H h) { return VR(VR::raw{}, h); }
struct VC {
    H h;
    VC() = default;
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>
    VT_INL VC(I i) : h(VR(i).h) {}
    VT_INL VC(const VR& x) : h(x.h) {}
    VT_INL VC(const VR& x, const VR& y) : h(v_cplx(x.h, y.h)) {}
    struct raw {};
    VT_INL VC(raw, H x) : h(x) {}
    VT_INL VR real() const { return mk(v_real(h)); }
    VT_INL VR imag() const { return mk(v_imag(h)); }
};
VT_INL VC mkc(H h) { return VC(VC::raw{}, h); }

#define VT_OPS(op, f)                                                        \
    VT_INL VR operator op(const VR& a, const VR& b) { return mk(f(a.h, b.h)); }    \
    VT_INL VC operator op(const VC& a, const VC& b) { return mkc(f(a.h, b.h)); }   \
    VT_INL VC operator op(const VC& a, const VR& b) { return mkc(f(a.h, b.h)); }   \
    VT_INL VC operator op(const VR& a, const VC& b) { return mkc(f(a.h, b.h)); }   \
    VT_INL VR& operator op##=(VR& a, const VR& b) { a.h = f(a.h, b.h); return a; } \
    VT_INL VC& operator op##=(VC& a, const VC& b) { a.h = f(a.h, b.h); return a; } \
    VT_INL VC& operator op##=(VC& a, const VR& b) { a.h = f(a.h, b.h); return a; } \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VR operator op(I a, const VR& b) { return VR(a) op b; }                 \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VR operator op(const VR& a, I b) { return a op VR(b); }                 \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VC operator op(I a, const VC& b) { return VC(a) op b; }                 \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VC operator op(const VC& a, I b) { return a op VC(b); }                 \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VR& operator op##=(VR& a, I b) { return a op##= VR(b); }                \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0>   \
    VT_INL VC& operator op##=(VC& a, I b) { return a op##= VC(b); }
VT_OPS(+, v_add)
VT_OPS(-, v_sub)
VT_OPS(*, v_mul)
VT_OPS(/, v_div)
#undef VT_OPS
#define VT_CMP(op, T, e)                                                   \
    VT_INL bool operator op(const T& a, const T& b) { return e; }                \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0> \
    VT_INL bool operator op(I a, const T& b) { return T(a) op b; }               \
    template <class I, std::enable_if_t<std::is_arithmetic_v<I>, int> = 0> \
    VT_INL bool operator op(const T& a, I b) { return a op T(b); }
VT_CMP(==, VR, v_eq(a.h, b.h))
VT_CMP(!=, VR, !v_eq(a.h, b.h))
VT_CMP(<, VR, v_lt(a.h, b.h))
VT_CMP(>, VR, v_lt(b.h, a.h))
VT_CMP(<=, VR, v_le(a.h, b.h))
VT_CMP(>=, VR, v_le(b.h, a.h))
VT_CMP(==, VC, v_eq(a.h, b.h))
VT_CMP(!=, VC, !v_eq(a.h, b.h))
#undef VT_CMP
VT_INL bool operator==(const VC& a, const VR& b) { return v_eq(a.h, b.h); }
VT_INL bool operator!=(const VC& a, const VR& b) { return !v_eq(a.h, b.h); }
VT_INL VR operator-(const VR& a) { return mk(v_neg(a.h)); }
VT_INL VC operator-(const VC& a) { return mkc(v_neg(a.h)); }
VT_INL VR operator+(const VR& a) { return a; }

VT_INL VC conj(const VC& z) { return mkc(v_conj(z.h)); }
VT_INL VR real(const VC& z) { return mk(v_real(z.h)); }
VT_INL VR imag(const VC& z) { return mk(v_imag(z.h)); }
VT_INL VR abs(const VR& z) { return mk(v_abs(z.h)); }
VT_INL VR abs(const VC& z) { return mk(v_abs(z.h)); }
VT_INL VR fabs(const VR& z) { return mk(v_abs(z.h)); }
VT_INL VR sqrt(const VR& z) { return mk(v_sqrt(z.h)); }
VT_INL VC sqrt(const VC& z) { return mkc(v_sqrt(z.h)); }
VT_INL VR log2(const VR& z) { return mk(v_log2(z.h)); }
VT_INL VR pow(const VR& a, const VR& b) { return mk(v_pow(a.h, b.h)); }
VT_INL VR pow(int a, const VR& b) { return mk(v_pow(v_int(a), b.h)); }
VT_INL VR ceil(const VR& z) { return mk(v_ceil(z.h)); }
VT_INL VR floor(const VR& z) { return mk(v_floor(z.h)); }
VT_INL bool isnan(const VR& z) { return v_isnan(z.h); }
VT_INL bool isinf(const VR& z) { return v_isinf(z.h); }
inline std::ostream& operator<<(std::ostream& o, const VR&) { return o; }
inline std::ostream& operator<<(std::ostream& o, const VC&) { return o; }
}  // namespace vt

template <>
struct std::numeric_limits<vt::VR> {
    static constexpr bool is_specialized = true;
    static constexpr int digits = 53, radix = 2, min_exponent = -1021,
                         max_exponent = 1024;
    static constexpr bool has_infinity = true, is_signed = true,
                          is_integer = false, is_exact = false;
    VT_INL static vt::VR epsilon() { return vt::mk(v_lim(0)); }
    VT_INL static vt::VR min() { return vt::mk(v_lim(1)); }
    VT_INL static vt::VR max() { return vt::mk(v_lim(2)); }
    VT_INL static vt::VR lowest() { return vt::mk(v_lim(3)); }
    VT_INL static vt::VR infinity() { return vt::mk(v_lim(4)); }
    VT_INL static vt::VR quiet_NaN() { return vt::mk(v_lim(5)); }
    VT_INL static vt::VR round_error() { return vt::mk(v_lim(6)); }
};
template <>
struct std::numeric_limits<vt::VC> : std::numeric_limits<vt::VR> {};

#include "tlapack/base/exceptionHandling.hpp"
// argument checks of the templates become proof obligations
#undef tlapack_check
#undef tlapack_check_false
#define tlapack_check(cond) v_check(bool(cond))
#define tlapack_check_false(cond) v_check(!bool(cond))
// diagnostics on std::cerr: no effect on the results
#undef tlapack_error
#undef tlapack_warning
#undef tlapack_error_if
#define tlapack_error(info, detailedInfo) ((void)0)
#define tlapack_warning(info, detailedInfo) ((void)0)
#define tlapack_error_if(cond, info, detailedInfo) ((void)0)
#include "tlapack/base/scalar_type_traits.hpp"
namespace tlapack {
namespace traits {
    template <>
    struct real_type_traits<vt::VR, int> {
        using type = vt::VR;
        constexpr static bool is_real = true;
    };
    template <>
    struct complex_type_traits<vt::VR, int> {
        using type = vt::VC;
        constexpr static bool is_complex = false;
    };
    template <>
    struct real_type_traits<vt::VC, int> {
        using type = vt::VR;
        constexpr static bool is_real = false;
    };
    template <>
    struct complex_type_traits<vt::VC, int> {
        using type = vt::VC;
        constexpr static bool is_complex = true;
    };
}  // namespace traits
}  // namespace tlapack
#include "tlapack/base/types.hpp"
#include "tlapack/base/arrayTraits.hpp"

namespace vt {
using idx = std::size_t;
using tlapack::Layout;

// Vector view: element k is at (r + k*dr, c + k*dc) of storage object `base`
template <class T>
struct VVec {
    using value_type = T;
    long base;
    idx r, c;
    idx dr, dc;
    idx n;
    VT_INL T& operator[](idx i) const
    {
        v_bounds(i, n);
        return *static_cast<T*>(v_at(base, r + i * dr, c + i * dc));
    }
};
// Matrix view: element (i,j) at (r+i, c+j), or (r+j, c+i) when tr
template <class T>
struct VMat {
    using value_type = T;
    long base;
    idx r, c;
    idx m, n;
    VT_INL T& operator()(idx i, idx j) const
    {
        v_bounds(i, m);
        v_bounds(j, n);
        return *static_cast<T*>(v_at(base, r + i, c + j));
    }
};
// the same view, declared column-major (selects the column-major code paths)
template <class T>
struct VMatC : VMat<T> {
};
template <class T> VT_INL constexpr idx nrows(const VMat<T>& A) { return A.m; }
template <class T> VT_INL constexpr idx ncols(const VMat<T>& A) { return A.n; }
template <class T> VT_INL constexpr idx size(const VMat<T>& A) { return A.m * A.n; }
template <class T> VT_INL constexpr idx size(const VVec<T>& v) { return v.n; }
// half-open range obligations
VT_INL void rng(idx a, idx b, idx n)
{
    v_assert(a <= b, 1);
    v_assert(b <= n, 2);
}
template <class T, class R, class S, std::enable_if_t<!std::is_integral_v<R> && !std::is_integral_v<S>, int> = 0>
VT_INL VMat<T> slice(const VMat<T>& A, const R& rows, const S& cols)
{
    rng(rows.first, rows.second, A.m);
    rng(cols.first, cols.second, A.n);
    return {A.base, A.r + idx(rows.first), A.c + idx(cols.first), idx(rows.second) - idx(rows.first),
            idx(cols.second) - idx(cols.first)};
}
template <class T, class S, std::enable_if_t<!std::is_integral_v<S>, int> = 0>
VT_INL VVec<T> slice(const VMat<T>& A, idx row, const S& cols)
{
    // the row must exist unless the range is empty
    v_assert(row < A.m || idx(cols.first) == idx(cols.second), 3);
    rng(cols.first, cols.second, A.n);
    return {A.base, A.r + row, A.c + idx(cols.first), 0, 1, idx(cols.second) - idx(cols.first)};
}
template <class T, class R, std::enable_if_t<!std::is_integral_v<R>, int> = 0>
VT_INL VVec<T> slice(const VMat<T>& A, const R& rows, idx col)
{
    v_assert(col < A.n || idx(rows.first) == idx(rows.second), 3);
    rng(rows.first, rows.second, A.m);
    return {A.base, A.r + idx(rows.first), A.c + col, 1, 0, idx(rows.second) - idx(rows.first)};
}
template <class T, class R, std::enable_if_t<!std::is_integral_v<R>, int> = 0>
VT_INL VMat<T> rows(const VMat<T>& A, const R& rows)
{
    rng(rows.first, rows.second, A.m);
    return {A.base, A.r + idx(rows.first), A.c, idx(rows.second) - idx(rows.first), A.n};
}
template <class T, class S, std::enable_if_t<!std::is_integral_v<S>, int> = 0>
VT_INL VMat<T> cols(const VMat<T>& A, const S& cols)
{
    rng(cols.first, cols.second, A.n);
    return {A.base, A.r, A.c + idx(cols.first), A.m, idx(cols.second) - idx(cols.first)};
}
template <class T>
VT_INL VVec<T> row(const VMat<T>& A, idx i)
{
    v_assert(i < A.m, 3);
    return {A.base, A.r + i, A.c, 0, 1, A.n};
}
template <class T>
VT_INL VVec<T> col(const VMat<T>& A, idx j)
{
    v_assert(j < A.n, 3);
    return {A.base, A.r, A.c + j, 1, 0, A.m};
}
template <class T>
VT_INL VVec<T> diag(const VMat<T>& A, int d = 0)
{
    idx n = (d >= 0) ? std::min(A.m + idx(d), A.n) - idx(d)
                     : std::min(A.m, A.n + idx(-d)) - idx(-d);
    return {A.base, (d >= 0) ? A.r : A.r + idx(-d), (d >= 0) ? A.c + idx(d) : A.c, 1, 1, n};
}
template <class T, class R>
VT_INL VVec<T> slice(const VVec<T>& v, const R& r)
{
    rng(r.first, r.second, v.n);
    return {v.base, v.r + idx(r.first) * v.dr, v.c + idx(r.first) * v.dc, v.dr, v.dc, idx(r.second) - idx(r.first)};
}
// workspace: a fresh array with unspecified contents
template <class T>
VT_INL auto reshape(const VMat<T>& W, idx m, idx n)
{
    v_assert(m * n <= W.m * W.n, 4);
    struct R { VMat<T> a; VMat<T> b; };
    return R{VMat<T>{v_newbase(std::is_same_v<T, VR>), 0, 0, m, n}, VMat<T>{W.base, 0, 0, W.m * W.n - m * n, 1}};
}
template <class T>
VT_INL auto reshape(const VMat<T>& W, idx n)
{
    v_assert(n <= W.m * W.n, 4);
    struct R { VVec<T> a; VMat<T> b; };
    return R{VVec<T>{v_newbase(std::is_same_v<T, VR>), 0, 0, 1, 0, n}, VMat<T>{W.base, 0, 0, W.m * W.n - n, 1}};
}
}  // namespace vt

namespace tlapack {
using vt::nrows; using vt::ncols; using vt::size; using vt::slice; using vt::rows; using vt::cols; using vt::row; using vt::col; using vt::diag; using vt::reshape;
namespace traits {
    template <class T>
    struct layout_trait<vt::VMatC<T>, int> { static constexpr Layout value = Layout::ColMajor; };
    template <class A, class B>
    struct matrix_type_traits<vt::VMat<A>, vt::VMat<B>, int> { using type = vt::VMat<scalar_type<A, B>>; };
    template <class A, class B>
    struct matrix_type_traits<vt::VVec<A>, vt::VMat<B>, int> { using type = vt::VMat<scalar_type<A, B>>; };
    template <class A, class B>
    struct matrix_type_traits<vt::VMat<A>, vt::VVec<B>, int> { using type = vt::VMat<scalar_type<A, B>>; };
    template <class A, class B>
    struct matrix_type_traits<vt::VVec<A>, vt::VVec<B>, int> { using type = vt::VMat<scalar_type<A, B>>; };
    template <class A, class B>
    struct vector_type_traits<vt::VMat<A>, vt::VMat<B>, int> { using type = vt::VVec<scalar_type<A, B>>; };
    template <class A, class B>
    struct vector_type_traits<vt::VVec<A>, vt::VMat<B>, int> { using type = vt::VVec<scalar_type<A, B>>; };
    template <class A, class B>
    struct vector_type_traits<vt::VMat<A>, vt::VVec<B>, int> { using type = vt::VVec<scalar_type<A, B>>; };
    template <class A, class B>
    struct vector_type_traits<vt::VVec<A>, vt::VVec<B>, int> { using type = vt::VVec<scalar_type<A, B>>; };
    template <class T>
    struct CreateFunctor<vt::VMat<T>, int> {
        template <class U>
        VT_INL constexpr auto operator()(std::vector<U>&, vt::idx m, vt::idx n = 1) const
        {
            return vt::VMat<U>{v_newbase(std::is_same_v<U, vt::VR>), 0, 0, m, n};
        }
    };
    template <class T>
    struct CreateFunctor<vt::VVec<T>, int> {
        template <class U>
        VT_INL constexpr auto operator()(std::vector<U>&, vt::idx n) const
        {
            return vt::VVec<U>{v_newbase(std::is_same_v<U, vt::VR>), 0, 0, 1, 0, n};
        }
    };
    template <class T, int m, int n>
    struct CreateStaticFunctor<vt::VMat<T>, m, n, int> {
        template <class U>
        VT_INL constexpr auto operator()(U*) const
        {
            return vt::VMat<U>{v_newbase(std::is_same_v<U, vt::VR>), 0, 0, m, n};
        }
    };
    template <class T, int n>
    struct CreateStaticFunctor<vt::VVec<T>, n, -1, int> {
        template <class U>
        VT_INL constexpr auto operator()(U*) const
        {
            return vt::VVec<U>{v_newbase(std::is_same_v<U, vt::VR>), 0, 0, 1, 0, n};
        }
    };
}  // namespace traits
}  // namespace tlapack
#endif
