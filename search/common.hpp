// Concrete evaluation of the contracts on the code in /repo: used to replay a
// failed obligation with an actual input, and as a labelled bounded stand-in.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <csignal>
#include <csetjmp>
#include <unistd.h>
#include <sys/time.h>

#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"

namespace S {
using namespace tlapack;
typedef std::size_t idx;
typedef std::complex<double> Z;
typedef double D;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    long in(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    double uni() { return (next() >> 11) * (2.0 / 9007199254740992.0) - 1; }
};

// dimension: mostly small, sometimes large enough to cross a block boundary
inline idx dim(Rng& r, bool big = true)
{
    int c = r.in(0, 99);
    if (c < 8) return 0;
    if (c < 20) return 1;
    if (c < 75) return r.in(2, 5);
    if (c < 95 || !big) return r.in(6, 12);
    if (c < 99) return r.in(13, 24);
    return r.in(33, 70);
}

template <class T> struct rd {
    static T get(Rng& r) { return T(double(r.p(.15) ? 0 : r.in(-3, 3))); }
    static T nan() { return T(std::nan("")); }
};
template <class R> struct rd<std::complex<R>> {
    typedef std::complex<R> T;
    static T get(Rng& r)
    {
        if (r.p(.1)) return T(0, 0);
        if (r.p(.15)) return T(R(r.in(-3, 3)), 0);
        return T(R(r.in(-3, 3)), R(r.in(-3, 3)));
    }
    static T nan() { return T(R(std::nan("")), R(std::nan(""))); }
};
template <class T> T rv(Rng& r) { return rd<T>::get(r); }
template <class T> T rnz(Rng& r)
{
    T x = rv<T>(r);
    while (std::abs(x) < .5) x = rv<T>(r);
    return x;
}
template <class T> T rs(Rng& r)
{
    int c = r.in(0, 9);
    return c == 0 ? T(0) : c < 3 ? T(1) : c == 3 ? T(-1) : rv<T>(r);
}
inline D cj(D x) { return x; }
inline float cj(float x) { return x; }
inline Z cj(Z x) { return std::conj(x); }
inline std::complex<float> cj(std::complex<float> x) { return std::conj(x); }
template <class T> bool isn(T x) { Z z(x); return !(std::isfinite(z.real()) && std::isfinite(z.imag())); }
inline bool same(D a, D b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b || (a != a && b != b); }
inline bool same(float a, float b) { return a == b || (a != a && b != b); }
template <class R> bool same(std::complex<R> a, std::complex<R> b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
// agreement with a reference value, scale is the magnitude of the terms involved
template <class T, class U> bool near(T a, U b, double scale = 1)
{
    Z x(a), y(b);
    if (isn(x) || isn(y)) return isn(x) == isn(y);
    return std::abs(x - y) <= (sizeof(real_type<T>) == 4 ? 2e-3 : 1e-9) * (std::abs(y) + scale + 1);
}

// a matrix stored inside a larger buffer
template <class T, Layout L> struct Mat {
    idx m, n, ld, off;
    std::vector<T> b, snap;
    Mat(Rng& r, idx m_, idx n_) : m(m_), n(n_)
    {
        ld = std::max<idx>(1, (L == Layout::ColMajor ? m : n)) + r.in(0, 2);
        off = r.in(0, 3);
        b.assign(off + ld * std::max<idx>(1, (L == Layout::ColMajor ? n : m)) + 8, rd<T>::nan());
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i) at(i, j) = rv<T>(r);
    }
    T& at(idx i, idx j) { return b[off + (L == Layout::ColMajor ? i + j * ld : i * ld + j)]; }
    const T& at(idx i, idx j) const { return b[off + (L == Layout::ColMajor ? i + j * ld : i * ld + j)]; }
    const T& old(idx i, idx j) const { return snap[off + (L == Layout::ColMajor ? i + j * ld : i * ld + j)]; }
    LegacyMatrix<T, idx, L> view() { return LegacyMatrix<T, idx, L>(m, n, b.data() + off, ld); }
    void save() { snap = b; }
    void restore() { b = snap; }
    template <class F> void fill(F f, T x)
    {
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i)
                if (f(i, j)) at(i, j) = x;
    }
    // everything outside region f is bitwise as it was at save()
    template <class F> bool kept(F f) const
    {
        std::vector<char> in(b.size(), 0);
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i)
                if (f(i, j)) in[&at(i, j) - b.data()] = 1;
        for (idx k = 0; k < b.size(); ++k)
            if (!in[k] && !same(b[k], snap[k])) return false;
        return true;
    }
    bool kept() const { return kept([](idx, idx) { return false; }); }
};
template <class T> struct Vec {
    idx n, inc, off;
    std::vector<T> b, snap;
    Vec(Rng& r, idx n_) : n(n_)
    {
        inc = r.in(1, 3);
        off = r.in(0, 2);
        b.assign(off + inc * (n + 1) + 4, rd<T>::nan());
        for (idx i = 0; i < n; ++i) at(i) = rv<T>(r);
    }
    T& at(idx i) { return b[off + i * inc]; }
    const T& at(idx i) const { return b[off + i * inc]; }
    const T& old(idx i) const { return snap[off + i * inc]; }
    LegacyVector<T, idx, idx> view() { return LegacyVector<T, idx, idx>(n, b.data() + off, inc); }
    void save() { snap = b; }
    void restore() { b = snap; }
    bool kept(bool content) const
    {
        for (idx k = 0; k < b.size(); ++k) {
            bool el = k >= off && (k - off) % inc == 0 && (k - off) / inc < n;
            if ((!el || !content) && !same(b[k], snap[k])) return false;
        }
        return true;
    }
};

struct Rep {
    std::string fn, desc;
    std::vector<std::pair<std::string, std::string>> fails;   // kind, message
    std::ostringstream d;
    void fail(const char* kind, const std::string& m)
    {
        for (auto& f : fails)
            if (f.first == kind) return;
        fails.push_back({kind, m});
    }
    template <class... A> void say(const A&... a)
    {
        int x[] = {((d << a << ' '), 0)...};
        (void)x;
    }
};
template <class T> std::string str(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <class T> std::string str2(const char* s, idx i, idx j, const T& g, const Z& w)
{
    std::ostringstream o;
    o.precision(17);
    o << s << "(" << i << "," << j << ") = " << g << ", contract requires " << w;
    return o.str();
}

typedef void (*Fn)(Rng&, Rep&);
struct Case { const char* name; Fn f; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char* n, Fn f) { cases().push_back({n, f}); } };
#define CASE(name) static void c_##name(Rng&, Rep&); static Reg r_##name(#name, c_##name); static void c_##name(Rng& r, Rep& R)

static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static void onsig(int s) { if (armed) siglongjmp(jb, s); _exit(128 + s); }

inline std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } if ((unsigned char)c < 32) { o += '?'; continue; } o += c; }
    return o;
}

inline int drive(int argc, char** argv)
{
    uint64_t seed = 1;
    double budget = 20;
    long maxit = 1L << 40;
    std::string only;
    long at = -1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        if (a == "--time") budget = atof(argv[i + 1]);
        if (a == "--only") only = std::string(",") + argv[i + 1] + ",";
        if (a == "--iters") maxit = atol(argv[i + 1]);
        if (a == "--at") at = atol(argv[i + 1]);
    }
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsig;
    sa.sa_flags = SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) sigaction(s, &sa, 0);
    auto t0 = std::chrono::steady_clock::now();
    auto now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::set<std::string> done, distinct;
    std::vector<std::string> samples;
    long ev = 0;
    std::vector<std::string> names;
    for (auto& c : cases())
        if (only.empty() || only.find(std::string(",") + c.name + ",") != std::string::npos) names.push_back(c.name);
    for (long it = at >= 0 ? at : 0; it < (at >= 0 ? at + 1 : maxit); ++it) {
        bool any = false;
        for (auto& c : cases()) {
            if (!only.empty() && only.find(std::string(",") + c.name + ",") == std::string::npos) continue;
            uint64_t h = 1469598103934665603ull;
            for (const char* p = c.name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
            Rng r(seed * 1000003u + h + uint64_t(it) * 0x2545F4914F6CDD1Dull);
            Rep R;
            R.fn = c.name;
            any = true;
            int sg = sigsetjmp(jb, 1);
            if (sg == 0) {
                armed = 1;
                itimerval tv = {{0, 0}, {10, 0}};
                setitimer(ITIMER_REAL, &tv, 0);
                try {
                    c.f(r, R);
                }
                catch (const std::exception& e) {
                    R.fail("crash", std::string("exception: ") + e.what());
                }
                itimerval tz = {{0, 0}, {0, 0}};
                setitimer(ITIMER_REAL, &tz, 0);
                armed = 0;
            }
            else {
                armed = 0;
                R.fail(sg == SIGALRM ? "hang" : "crash", sg == SIGALRM ? "did not terminate within 10 s" : "killed by signal " + std::to_string(sg));
            }
            ++ev;
            std::string ds = std::string(c.name) + " " + R.d.str();
            if (distinct.size() < 200000) distinct.insert(ds);
            if (samples.size() < 12 && (ev % 97) == 1) samples.push_back(ds);
            bool fatal = false;
            for (auto& f : R.fails) {
                std::string k = std::string(c.name) + "/" + f.first;
                if (f.first == "crash" || f.first == "hang") fatal = true;
                if (done.count(k)) continue;
                done.insert(k);
                std::printf("{\"fail\":\"%s\",\"kind\":\"%s\",\"seed\":%llu,\"iter\":%ld,\"case\":\"%s\",\"msg\":\"%s\"}\n", c.name, f.first.c_str(), (unsigned long long)seed, it, esc(ds).c_str(), esc(f.second).c_str());
                std::fflush(stdout);
            }
            if (fatal) { _exit(0); }
            if (now() > budget) break;
        }
        if (!any || now() > budget) break;
    }
    std::printf("{\"evaluations\":%ld,\"distinct\":%zu,\"cases\":%zu,\"samples\":[", ev, distinct.size(), names.size());
    for (size_t i = 0; i < samples.size(); ++i) std::printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    std::printf("]}\n");
    return 0;
}

// ------------------------------------------------------------------ flags
inline Uplo ru(Rng& r) { return r.p(.5) ? Uplo::Upper : Uplo::Lower; }
inline Side rside(Rng& r) { return r.p(.5) ? Side::Left : Side::Right; }
inline Diag rdiag(Rng& r) { return r.p(.5) ? Diag::NonUnit : Diag::Unit; }
inline Op rop(Rng& r) { int c = r.in(0, 2); return c == 0 ? Op::NoTrans : c == 1 ? Op::Trans : Op::ConjTrans; }
inline bool intri(Uplo u, idx i, idx j) { return u == Uplo::Upper ? i <= j : i >= j; }
template <class M> auto opel(Op o, const M& A, idx i, idx j) -> typename std::decay<decltype(A(i, j))>::type
{
    if (o == Op::NoTrans) return A(i, j);
    if (o == Op::Trans) return A(j, i);
    if (o == Op::Conj) return cj(A(i, j));
    return cj(A(j, i));
}
inline char c(Uplo u) { return (char)u; }
inline char c(Op u) { return u == Op::Conj ? 'J' : (char)u; }
inline char c(Side u) { return (char)u; }
inline char c(Diag u) { return (char)u; }

template <class F> void each_type(Rng& r, F f)
{
    switch (r.in(0, 3)) {
        case 0: f((D*)0, (std::integral_constant<Layout, Layout::ColMajor>*)0, (std::integral_constant<Layout, Layout::RowMajor>*)0); break;
        case 1: f((Z*)0, (std::integral_constant<Layout, Layout::ColMajor>*)0, (std::integral_constant<Layout, Layout::ColMajor>*)0); break;
        case 2: f((Z*)0, (std::integral_constant<Layout, Layout::RowMajor>*)0, (std::integral_constant<Layout, Layout::ColMajor>*)0); break;
        default: f((D*)0, (std::integral_constant<Layout, Layout::RowMajor>*)0, (std::integral_constant<Layout, Layout::RowMajor>*)0); break;
    }
}
#define TYPES(...) each_type(r, [&](auto* tp, auto* l1p, auto* l2p) { \
    typedef typename std::remove_pointer<decltype(tp)>::type T; \
    constexpr Layout L1 = std::remove_pointer<decltype(l1p)>::type::value; \
    constexpr Layout L2 = std::remove_pointer<decltype(l2p)>::type::value; \
    constexpr bool cplx = !std::is_same<T, D>::value; (void)cplx; \
    R.say(cplx ? "c" : "d", L1 == Layout::ColMajor ? "col" : "row", L2 == Layout::ColMajor ? "col" : "row"); \
    __VA_ARGS__ });
}  // namespace S
