// P21: runs a kernel with plain numbers and with automatic-differentiation numbers. A kernel is a generic callable
// f(a, b, c, out) on four vectors of scalars; a, b, c are its groups of inputs (their scalar types may differ), out its results.
// Every point of the declared set is visited, with every group differentiated alone and with all groups together. Values must
// agree with the plain ones; derivatives with a fourth-order difference quotient of the plain kernel.
#pragma once
#include "elem.hpp"
namespace ad
{
using vp::u64; using el::V;
template<typename S> using Vec = std::vector<S>;
template<typename S> Plato::ScalarMultiVectorT<S> mv(const Vec<S>& x, int o, int m) { Plato::ScalarMultiVectorT<S> v("v", 1, m); for(int j = 0; j < m; j++) v(0, j) = x[o + j]; return v; }
template<typename S> Plato::ScalarVectorT<S> cv(const S& x) { Plato::ScalarVectorT<S> v("v", 1); v(0) = x; return v; }
template<typename S> Plato::ScalarArray3DT<S> a3(const Vec<S>& x, int o, int n, int m) { Plato::ScalarArray3DT<S> v("v", 1, n, m); for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) v(0, i, j) = x[o + i * m + j]; return v; }
template<typename S> Plato::ScalarMultiVectorT<S> omv(int m) { Plato::ScalarMultiVectorT<S> v("o", 1, m); return v; }
template<typename S> Plato::ScalarVectorT<S> ocv() { Plato::ScalarVectorT<S> v("o", 1); return v; }
template<typename S> Plato::ScalarArray3DT<S> oa3(int n, int m) { Plato::ScalarArray3DT<S> v("o", 1, n, m); return v; }
template<typename S> void put(Vec<S>& out, const Plato::ScalarMultiVectorT<S>& v) { for(size_t j = 0; j < v.extent(1); j++) out.push_back(v(0, j)); }
template<typename S> void put(Vec<S>& out, const Plato::ScalarVectorT<S>& v) { out.push_back(v(0)); }
template<typename S> void put(Vec<S>& out, const Plato::ScalarArray3DT<S>& v) { for(size_t i = 0; i < v.extent(1); i++) for(size_t j = 0; j < v.extent(2); j++) out.push_back(v(0, i, j)); }
template<typename T> using sc = typename std::decay<T>::type::value_type;

typedef std::function<V(u64)> Pts;
// all lattice points when that is small, else a fixed family of generic points
inline u64 npts(int n, bool pos = false) { if(n <= 7) return vp::ipow(3, n); return vp::thorough() ? 400 : 60; }
inline V pt(int n, u64 k, bool pos, double s)
{
    V x; static const double A[] = {-1.1, 0.35, 0.83}, P[] = {0.3, 0.85, 1.6};
    if(n <= 7) { vp::Dec d(k); for(int j = 0; j < n; j++) x.push_back(s * ((pos ? P : A)[d.take(3)] + 0.0137 * j * (j + 1))); }
    else for(int j = 0; j < n; j++) { double t = 0.3 + 0.17 * ((j * 7 + k * 5 + j * k) % 11) - (pos ? 0 : 0.9) * ((j + k) % 2) + 0.0137 * (j % 5) + 0.011 * (k % 7); x.push_back(s * t); }
    return x;
}
struct Opt { Pts pts; u64 n = 0; bool pos = false; double scale = 1, tol = 2e-6; std::function<bool(const V&)> ok; double h = 1e-3; bool zero = true; /* also at the origin and on the axes */ std::function<V(const V&)> ref; /* differentiated instead of the plain kernel, when its rounding would spoil the quotient */ };

template<int NA, int NB, int NC, typename K> V plain(const K& f, const V& x) { V a(x.begin(), x.begin() + NA), b(x.begin() + NA, x.begin() + NA + NB), c(x.begin() + NA + NB, x.end()), o; f(a, b, c, o); vp::calls(); return o; }

template<typename F, typename S> struct Seed { static Vec<S> go(const V& x, int o, int n) { return Vec<S>(x.begin() + o, x.begin() + o + n); } };
template<typename F> struct Seed<F, F> { static Vec<F> go(const V& x, int o, int n) { Vec<F> r; for(int j = 0; j < n; j++) r.push_back(F((int)Sacado::StaticSize<F>::value, o + j, x[o + j])); return r; } };

template<int N> struct Fad : Sacado::Fad::SFad<double, N> {};
template<int NA, int NB, int NC, typename A, typename B, typename C, typename F, typename K> void run(const K& f, const V& x, const V& y0, const std::vector<V>& J, const bool* seeded, double tol, const char* how)
{
    Vec<A> a = Seed<F, A>::go(x, 0, NA); Vec<B> b = Seed<F, B>::go(x, NA, NB); Vec<C> c = Seed<F, C>::go(x, NA + NB, NC); Vec<F> o; f(a, b, c, o); vp::calls();
    vp::eqi(o.size(), y0.size(), "results");
    for(size_t r = 0; r < y0.size(); r++)
    {
        double big = 1; for(double e : J[r]) big = std::fmax(big, std::fabs(e));
        vp::eq(o[r].val(), y0[r], vp::fmt("value %zu, %s", r, how).c_str(), 1e-11, 1e-12 * big);
        for(int j = 0; j < NA + NB + NC; j++) vp::eq(o[r].dx(j), seeded[j] ? J[r][j] : 0.0, vp::fmt("d result %zu / d input %d, %s", r, j, how).c_str(), tol, tol * big);
    }
}
template<int NA, int NB, int NC, bool SEP = true, typename K> void kernel(const std::string& name, const K& f, Opt q = Opt())
{
    const int N = NA + NB + NC; typedef Sacado::Fad::SFad<double, N> F; const u64 n0 = q.n ? q.n : npts(N), n = n0 + (q.zero && !q.pts ? N + 1 : 0);
    vp::section(name, n, [=](u64 i)
    {
        V x = q.pts ? q.pts(i) : i < n0 ? pt(N, i, q.pos, q.scale) : V(N, 0.0); if(i > n0) x[i - n0 - 1] = 1; vp::input("at " + vp::vec_str(x));
        if(q.ok && !q.ok(x)) { vp::skip(); return; }
        V y0 = plain<NA, NB, NC>(f, x); std::vector<V> J(y0.size(), V(N));
        for(int j = 0; j < N; j++)
        {
            const double h = q.h * std::fmax(0.1, std::fabs(x[j])); V y[4]; const double s[4] = {1, -1, 2, -2}; for(int k = 0; k < 4; k++) { V z = x; z[j] += s[k] * h; y[k] = q.ref ? q.ref(z) : plain<NA, NB, NC>(f, z); }
            for(size_t r = 0; r < y0.size(); r++) J[r][j] = (8 * (y[0][r] - y[1][r]) - (y[2][r] - y[3][r])) / (12 * h);
        }
        bool m[N]; auto mark = [&](int lo, int hi) { for(int j = 0; j < N; j++) m[j] = j >= lo && j < hi; };
        mark(0, N); run<NA, NB, NC, F, F, F, F>(f, x, y0, J, m, q.tol, "all inputs seeded");
        
        if constexpr(SEP && NA && NA < N) { mark(0, NA); run<NA, NB, NC, F, double, double, F>(f, x, y0, J, m, q.tol, "first group seeded"); }
        if constexpr(SEP && NB != 0) { mark(NA, NA + NB); run<NA, NB, NC, double, F, double, F>(f, x, y0, J, m, q.tol, "second group seeded"); }
        if constexpr(SEP && NC != 0) { mark(NA + NB, N); run<NA, NB, NC, double, double, F, F>(f, x, y0, J, m, q.tol, "third group seeded"); }
    });
}
inline Opt positive(double s = 1) { Opt o; o.pos = true; o.scale = s; return o; }
} // namespace ad
