// P09 (1-D vector operations), P10 (2-D / 3-D workset operations).
#include "vpk.hpp"
#include "BLAS1.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
#include "PlatoMathHelpers.hpp"
#include <limits>
using vp::u64; using vp::Dec; using vp::fmt;
typedef Plato::ScalarVector V; typedef Plato::ScalarMultiVector M; typedef Plato::ScalarArray3D A3; typedef Plato::OrdinalType O;
namespace b1 = Plato::blas1; namespace b2 = Plato::blas2; namespace b3 = Plato::blas3;
typedef std::vector<double> D;
static const double INF = std::numeric_limits<double>::infinity(), QNAN = std::numeric_limits<double>::quiet_NaN();
static void same(const V& g, const D& w, const char* what) { vp::eqi(g.size(), w.size(), "length"); for(size_t i = 0; i < w.size(); i++) vp::eq(g(i), w[i], fmt("%s(%zu)", what, i).c_str()); }
static void same2(const M& g, const D& w, const char* what) { vp::eqi(g.size(), w.size(), "size"); for(size_t i = 0; i < g.extent(0); i++) for(size_t j = 0; j < g.extent(1); j++) vp::eq(g(i, j), w[i * g.extent(1) + j], fmt("%s(%zu,%zu)", what, i, j).c_str()); }
static A3 mk3(int a, int b, int c, const D& w) { A3 r("a", a, b, c); for(int i = 0; i < a; i++) for(int j = 0; j < b; j++) for(int k = 0; k < c; k++) r(i, j, k) = w[(i * b + j) * c + k]; return r; }
static void same3(const A3& g, const D& w, const char* what) { size_t b = g.extent(1), c = g.extent(2); vp::eqi(g.size(), w.size(), "size"); for(size_t i = 0; i < g.extent(0); i++) for(size_t j = 0; j < b; j++) for(size_t k = 0; k < c; k++) vp::eq(g(i, j, k), w[(i * b + j) * c + k], fmt("%s(%zu,%zu,%zu)", what, i, j, k).c_str()); }
static D seq(int n, int seed) { D r(n); for(int i = 0; i < n; i++) { r[i] = ((i * 7 + seed * 5 + 2) % 11) - 5; if(r[i] == 0) r[i] = 0.25; r[i] *= 1.5; } return r; }

static const double VA[] = {-2, 0, 1, 3.5}; // component alphabet
static const double SC[] = {0, 1, -1, 0.5, 7, INF, -INF, QNAN};
static D tuple(Dec& d, int n) { D r(n); for(auto& x : r) x = d.pick(VA); return r; }
static u64 ntuple(int maxn) { u64 t = 0; for(int n = 0; n <= maxn; n++) t += vp::ipow(4, n); return t; }
// the i-th vector of length 0..maxn over the alphabet
static D nth(u64 i, int maxn) { for(int n = 0; n <= maxn; n++) { u64 w = vp::ipow(4, n); if(i < w) { Dec d(i); return tuple(d, n); } i -= w; } abort(); }

#if VP_PROP == 10
template<int S, int F> static void extract2(u64 i)
{
    Dec d(i); int c = 1 + d.take(3), n = 1 + d.take(3), extra = d.take(2); D f = seq(c * (n * S + extra), 1); M from = vp::smv(c, n * S + extra, f), to("to", c, n); Kokkos::deep_copy(to, 99.0); vp::input(fmt("stride %d offset %d cells %d n %d", S, F, c, n)); vp::calls();
    b2::extract<S, F>(from, to); D w(c * n); for(int a = 0; a < c; a++) for(int b = 0; b < n; b++) w[a * n + b] = f[a * (n * S + extra) + b * S + F]; same2(to, w, "to"); same2(from, f, "from");
}
template<int S, int N, int F> static void extract2n(u64 i)
{
    Dec d(i); int c = 1 + d.take(3), n = 1 + d.take(3), use = d.take(n + 1), extra = d.take(2); int L = n * S, LT = n * N + extra; D f = seq(c * L, 2); M from = vp::smv(c, L, f), to("to", c, LT); Kokkos::deep_copy(to, 99.0); vp::input(fmt("stride %d dim %d offset %d cells %d of %d", S, N, F, use, n)); vp::calls();
    if(F == 0) b2::extract<S, N>(use, from, to); else b2::extract<S, N, F>(use, from, to);
    D w(c * LT, 99.0); for(int a = 0; a < c; a++) for(int o = 0; o < use; o++) for(int k = 0; k < N; k++) w[a * LT + o * N + k] = f[a * L + o * S + k + F]; same2(to, w, "to"); same2(from, f, "from");
}
template<int S, int F> static void axpy2(u64 i)
{
    Dec d(i); int co = d.take(4), ci = d.take(4), ni = d.take(4), extra = d.take(2); double al = d.pick(SC); int no = ni * S + extra; if(!std::isfinite(al)) { vp::skip(); return; }
    D fi = seq(ci * ni, 1), fo = seq(co * no, 3); M in = vp::smv(ci, ni, fi), out = vp::smv(co, no, fo); vp::input(fmt("dofs %d offset %d in %dx%d out %dx%d alpha %g", S, F, ci, ni, co, no, al)); vp::calls();
    bool bad = vp::throws([&] { b2::axpy<S, F>(al, in, out); }); bool want = fi.empty() || fo.empty() || ci != co; vp::check(bad == want, bad ? "valid shapes rejected" : "invalid shapes accepted");
    if(!bad) for(int a = 0; a < ci; a++) for(int b = 0; b < ni; b++) { double& x = fo[a * no + b * S + F]; x = al * x + fi[a * ni + b]; }
    same2(out, fo, "out"); same2(in, fi, "in");
}
template<int R, int C> static void ident(u64 i)
{
    Dec d(i); int n = d.take(4), c = d.take(4); A3 a("a", n, R, C); Kokkos::deep_copy(a, 5.0); vp::input(fmt("%d cells, argument %d, %dx%d", n, c, R, C)); vp::calls(); bool bad = vp::throws([&] { b3::identity<R, C>(c, a); });
    vp::check(bad == (n == 0 || n != c), "shape check"); D w(n * R * C, 5.0); if(!bad) for(int k = 0; k < n; k++) for(int r = 0; r < R; r++) for(int q = 0; q < C; q++) w[(k * R + r) * C + q] = r == q; same3(a, w, "identity");
}
template<int R, int C> static void fill3(u64 i)
{
    Dec d(i); int n = d.take(4), c = d.take(4); double al = d.pick(SC); if(c > n || !std::isfinite(al)) { vp::skip(); return; } A3 a("a", n, R, C); Kokkos::deep_copy(a, 5.0); vp::input(fmt("%d cells, argument %d, %dx%d value %g", n, c, R, C, al)); vp::calls(); bool bad = vp::throws([&] { b3::fill<R, C>(c, al, a); });
    vp::check(bad == (n == 0 || c == 0), "shape check"); D w(n * R * C, 5.0); if(!bad) for(int k = 0; k < c * R * C; k++) w[k] = al; same3(a, w, "filled");
}
template<int N> static void inverse(u64 i, u64 total)
{
    // every matrix over {-1,0,1,2} off the diagonal, kept diagonally dominant (the routine does not pivot)
    Dec d(i); int cells = 1 + d.take(2); static const double E[] = {-1, 0, 2}; D a(cells * N * N); for(int k = 0; k < N * N; k++) for(int c = 0; c < cells; c++) a[c * N * N + k] = (k / N == k % N) ? (c ? -1 : 1) * (3.0 * N + k) : 0;
    for(int k = 0; k < N * N; k++) if(k / N != k % N) { double e = d.pick(E); for(int c = 0; c < cells; c++) a[c * N * N + k] = c ? e * 0.5 : e; }
    A3 A = mk3(cells, N, N, a), I("i", cells, N, N); Kokkos::deep_copy(I, 9.0); vp::input("A = " + vp::vec_str(a)); vp::calls(); b3::inverse<N, N>(cells, A, I);
    for(int c = 0; c < cells; c++) for(int r = 0; r < N; r++) for(int q = 0; q < N; q++) { double s = 0, t = 0; for(int k = 0; k < N; k++) { s += a[(c * N + r) * N + k] * I(c, k, q); t += I(c, r, k) * a[(c * N + k) * N + q]; } vp::eq(s, r == q, "A * inverse", 1e-9, 1e-10); vp::eq(t, r == q, "inverse * A", 1e-9, 1e-10); }
}
template<int N> static void inverse_big(u64 i)
{
    D a(N * N); for(int r = 0; r < N; r++) for(int c = 0; c < N; c++) a[r * N + c] = r == c ? 2.0 * N + r : (((r * 5 + c * 3) % 7) - 3) * 0.5; int p = i % (N * N); a[p] = p / N == p % N ? -a[p] : 4; int cells = 1 + i / (N * N);
    D w; for(int c = 0; c < cells; c++) for(double v : a) w.push_back(v * (c + 1)); A3 A = mk3(cells, N, N, w), I("i", cells, N, N); Kokkos::deep_copy(I, 9.0); vp::input(fmt("%dx%d entry %d", N, N, p)); vp::calls(); b3::inverse<N, N>(cells, A, I);
    for(int c = 0; c < cells; c++) for(int r = 0; r < N; r++) for(int q = 0; q < N; q++) { double s = 0; for(int k = 0; k < N; k++) s += w[(c * N + r) * N + k] * I(c, k, q); vp::eq(s, r == q, "A * inverse", 1e-9, 1e-9); }
}
#endif

void vp::explore()
{
    const bool T = thorough();
#if VP_PROP == 9
    const int L = T ? 4 : 3; const u64 N = ntuple(L);
    section("dot", N * N, [&](u64 i) { D a = nth(i % N, L), b = nth(i / N, L); vp::input(vec_str(a) + " " + vec_str(b)); V x = sv(a), y = sv(b); vp::calls(); double g = 0; bool bad = throws([&] { g = b1::dot(x, y); }); check(bad == (a.size() != b.size()), "length check"); if(!bad) { double w = 0; for(size_t k = 0; k < a.size(); k++) w += a[k] * b[k]; eq(g, w, "dot"); } same(x, a, "x"); same(y, b, "y"); });
    section("copy", N * N, [&](u64 i) { D a = nth(i % N, L), b = nth(i / N, L); vp::input(vec_str(a) + " " + vec_str(b)); V x = sv(a), y = sv(b); vp::calls(); bool bad = throws([&] { b1::copy(x, y); }); check(bad == (a.size() != b.size()), "length check"); same(x, a, "x"); same(y, bad ? b : a, "y"); if(!bad && a.size()) { x(0) += 1; eq(y(0), a[0], "the copy follows its source"); } });
    section("axpy", N * N * 4, [&](u64 i) { Dec d(i); static const double al[] = {0, 1, -2, 0.5}; double c = d.pick(al); D a = nth(d.take(N), L), b = nth(d.v, L); vp::input(vec_str(a) + " " + vec_str(b) + fmt(" alpha %g", c)); V x = sv(a), y = sv(b); vp::calls(); bool bad = throws([&] { b1::axpy(c, x, y); }); check(bad == (a.size() != b.size()), "length check"); if(!bad) for(size_t k = 0; k < a.size(); k++) b[k] += c * a[k]; same(x, a, "x"); same(y, b, "y"); });
    const int L2 = T ? 3 : 2; const u64 N2 = ntuple(L2);
    section("update", N2 * N2 * 64, [&](u64 i) { Dec d(i); double al = d.pick(SC), be = d.pick(SC); D a = nth(d.take(N2), L2), b = nth(d.v, L2); vp::input(vec_str(a) + " " + vec_str(b) + fmt(" alpha %g beta %g", al, be)); V x = sv(a), y = sv(b); vp::calls(); bool bad = throws([&] { b1::update(al, x, be, y); }); check(bad == (a.size() != b.size() || !std::isfinite(al) || !std::isfinite(be)), "argument check"); if(!bad) for(size_t k = 0; k < a.size(); k++) b[k] = al * a[k] + be * b[k]; same(x, a, "x"); same(y, b, "y"); });
    section("norm_sum_max_min", N, [&](u64 i) { D a = nth(i, L); vp::input(vec_str(a)); V x = sv(a); double g = 0, s = 7, mx = 7, mn = 7; vp::calls(4); bool e = a.empty();
        check(throws([&] { g = b1::norm(x); }) == e, "norm of empty"); check(throws([&] { b1::local_sum(x, s); }) == e, "sum of empty"); check(throws([&] { b1::max(x, mx); }) == e, "max of empty"); check(throws([&] { b1::min(x, mn); }) == e, "min of empty");
        if(!e) { double w = 0, t = 0; for(double v : a) { w += v * v; t += v; } eq(g, std::sqrt(w), "norm"); eq(s, t, "sum"); eq(mx, *std::max_element(a.begin(), a.end()), "max"); eq(mn, *std::min_element(a.begin(), a.end()), "min"); } same(x, a, "x"); });
    // all-negative and all-positive vectors of every length: max and min have no built-in zero
    section("extrema_signs", 40 * 4, [&](u64 i) { Dec d(i); int how = d.take(4); int n = 1 + d.v; D a(n); for(int k = 0; k < n; k++) { a[k] = 1 + (k * 5) % n; if(how & 1) a[k] = -a[k]; if(how & 2) a[k] *= 1e6; } vp::input(vec_str(a)); V x = sv(a); double mx, mn, s; vp::calls(3); b1::max(x, mx); b1::min(x, mn); b1::local_sum(x, s); double w = 0; for(double v : a) w += v; eq(mx, *std::max_element(a.begin(), a.end()), "max"); eq(mn, *std::min_element(a.begin(), a.end()), "min"); eq(s, w, "sum"); });
    section("fill_scale", N * 8, [&](u64 i) { Dec d(i); double c = d.pick(SC); D a = nth(d.v, L); vp::input(vec_str(a) + fmt(" %g", c)); bool bad = a.empty() || !std::isfinite(c); vp::calls(2); V x = sv(a), y = sv(a); check(throws([&] { b1::fill(c, x); }) == bad, "fill argument check"); check(throws([&] { b1::scale(c, y); }) == bad, "scale argument check"); D f = a, s = a; if(!bad) for(size_t k = 0; k < a.size(); k++) { f[k] = c; s[k] = c * a[k]; } same(x, f, "filled"); same(y, s, "scaled"); });
    // fill by ordinals: every output length, every list of distinct ordinals, every length mismatch
    section("fill_ordinals", 5 * 6 * 6 * 8 * 120, [&](u64 i) {
        Dec d(i); int n = d.take(5), no = d.take(6), nv = d.take(6); double c = d.pick(SC); int perm = d.v; vp::input(fmt("output %d ordinals %d values %d permutation %d multiplier %g", n, no, nv, perm, c)); if(no > n && no == nv && n > 0 && std::isfinite(c)) { vp::skip(); return; }
        std::vector<int> p(std::max(n, no)); for(size_t k = 0; k < p.size(); k++) p[k] = k; { int f = perm; for(int k = (int)p.size() - 1; k > 0; k--) { std::swap(p[k], p[f % (k + 1)]); f /= k + 1; } }
        Plato::LocalOrdinalVector o("o", no); for(int k = 0; k < no; k++) o(k) = p[k]; V v("v", nv); for(int k = 0; k < nv; k++) v(k) = 10 + k; V out("out", n); for(int k = 0; k < n; k++) out(k) = -1 - k; vp::calls();
        bool bad = throws([&] { b1::fill(c, o, v, out); }); check(bad == (n == 0 || nv == 0 || !std::isfinite(c) || no != nv), "argument check"); D w(n); for(int k = 0; k < n; k++) w[k] = -1 - k; if(!bad) for(int k = 0; k < no; k++) w[p[k]] = c * (10 + k); same(out, w, "output"); });
    auto ex = [&](auto s, auto f, u64 i) { constexpr int S = decltype(s)::value, F = decltype(f)::value; Dec d(i); int n = d.take(6), extra = d.take(3); int m = n ? (n - 1) * S + F + 1 + extra : extra; D a = seq(m, 1); V x = sv(a), y("y", n); for(int k = 0; k < n; k++) y(k) = 99; vp::input(fmt("stride %d offset %d to %d from %d", S, F, n, m)); vp::calls(); bool bad = throws([&] { b1::extract<S, F>(x, y); }); check(bad == (m == 0 || n == 0), "argument check"); D w(n, 99.0); if(!bad) for(int k = 0; k < n; k++) w[k] = a[k * S + F]; same(y, w, "to"); same(x, a, "from"); };
#define EX(S, F) section(fmt("extract_%d_%d", S, F), 18, [&](u64 i) { ex(std::integral_constant<int, S>(), std::integral_constant<int, F>(), i); });
    EX(1, 0) EX(2, 0) EX(2, 1) EX(3, 0) EX(3, 1) EX(3, 2) EX(4, 0) EX(4, 1) EX(4, 2) EX(4, 3) EX(5, 3)
    section("random_range", 6 * 5, [&](u64 i) { Dec d(i); static const double lo[] = {0, -1, 2, -5, 0.5, -3}, up[] = {1, 1, 2, -4, 100, 3}; int k = d.take(6), n = d.v; V a("a", n), b("b", n); vp::input(fmt("[%g,%g] n=%d", lo[k], up[k], n)); vp::calls(2); b1::random(lo[k], up[k], a); b1::random(lo[k], up[k], b); for(int j = 0; j < n; j++) { check(a(j) >= lo[k] && a(j) <= up[k], "outside the bounds: %g", a(j)); check(a(j) == b(j), "not repeatable"); } if(n >= 2 && lo[k] < up[k]) check(a(0) != a(1), "constant"); });
    section("conditional", ipow(9, 2) * 9, [&](u64 i) { static const double q[] = {-3, -1, -0.5, 0, 0.25, 0.5, 1, 2, 5}; Dec d(i); double x = d.pick(q), y = d.pick(q), a = d.pick(q); vp::input(fmt("x %g y %g", x, y)); vp::calls(); eq(Plato::conditional_expression(x, y, a, a + 1), x > y ? a + 1 : a, "if(X>Y) A=B"); });
    // every length up to the bound at three magnitudes: no operation stops early, skips an entry or ignores small or large values
    const int LM = T ? 2100 : 700;
    vp::sweep({1, 1 / 1099511627776.0, 1099511627776.0}, [&] {
    section("lengths", LM, [&](u64 i) {
        const int n = 1 + i; const double S = vp::sc(); D a(n), b(n); for(int k = 0; k < n; k++) { a[k] = S * (((k * 7 + n) % 13) - 6.5); b[k] = S * (((k * 5 + 3 * n) % 11) - 5.25); } const int at = (n * 17) % n == 0 ? n - 1 : (n * 17) % n;
        vp::input(fmt("length %d magnitude %g", n, S)); V x = sv(a), y = sv(b); vp::calls(12); double w = 0, q = 0, t = 0; for(int k = 0; k < n; k++) { w += a[k] * b[k]; q += a[k] * a[k]; t += a[k]; }
        double g, mx = 7, mn = 7; vp::degree(2); eq(b1::dot(x, y), w, "dot", 1e-9, 1e-9); vp::degree(1); eq(b1::norm(x), std::sqrt(q), "norm"); b1::local_sum(x, g); eq(g, t, "sum", 1e-9, 1e-9);
        for(int p : {0, at, n / 2, n - 1}) for(int sg : {1, -1}) { D e(n, sg * 3.0 * S); e[p] = S * (sg > 0 ? 4 : -4); V z = sv(e); b1::max(z, mx); b1::min(z, mn); eq(mx, sg > 0 ? 4 * S : n > 1 ? -3 * S : -4 * S, "max"); eq(mn, sg > 0 ? (n > 1 ? 3 * S : 4 * S) : -4 * S, "min"); }
        V z("z", n); b1::copy(x, z); same(z, a, "copy"); b1::axpy(0.5, y, z); D c(a); for(int k = 0; k < n; k++) c[k] += 0.5 * b[k]; same(z, c, "axpy"); b1::update(2.0, x, -1.0, z); for(int k = 0; k < n; k++) c[k] = 2 * a[k] - c[k]; same(z, c, "update"); b1::scale(-0.25, z); for(auto& v : c) v *= -0.25; same(z, c, "scale");
        b1::fill(S, z); same(z, D(n, S), "fill"); Plato::LocalOrdinalVector o("o", n); for(int k = 0; k < n; k++) o(k) = n - 1 - k; b1::fill(2.0, o, x, z); for(int k = 0; k < n; k++) c[n - 1 - k] = 2 * a[k]; same(z, c, "fill by ordinals");
        D l(3 * n); for(int k = 0; k < 3 * n; k++) l[k] = S * (k + 1); V f = sv(l); V h("h", n); b1::extract<3, 1>(f, h); for(int k = 0; k < n; k++) c[k] = S * (3 * k + 2); same(h, c, "extract"); same(x, a, "x"); same(y, b, "y"); });
    });
    {
        // histories: every sequence of operations on two vectors equals the same sequence on plain arrays
        const unsigned K = T ? 6 : 5; const u64 NO = 10;
        section("histories", ipow(NO, K), [&](u64 i) {
            Dec d(i); D a = {1, -2, 0.5}, b = {3, 0, -1}; V x = sv(a), y = sv(b); std::string h; static const char* nm[] = {"x=y ", "y+=2x ", "x=3x-y ", "x*=-0.5 ", "y=fill2 ", "x[2,0]=y ", "x+=dot*y ", "y=max(x) ", "x+=x ", "y*=norm(x)/8 "};
            for(unsigned k = 0; k < K; k++)
            {
                int o = d.take(NO); vp::calls(); h += nm[o]; double s;
                switch(o)
                {
                case 0: b1::copy(y, x); a = b; break;
                case 1: b1::axpy(2.0, x, y); for(int j = 0; j < 3; j++) b[j] += 2 * a[j]; break;
                case 2: b1::update(-1.0, y, 3.0, x); for(int j = 0; j < 3; j++) a[j] = 3 * a[j] - b[j]; break;
                case 3: b1::scale(-0.5, x); for(auto& v : a) v *= -0.5; break;
                case 4: b1::fill(2.0, y); b = D(3, 2.0); break;
                case 5: { Plato::LocalOrdinalVector q("q", 2); q(0) = 2; q(1) = 0; V v("v", 2); v(0) = y(0); v(1) = y(1); b1::fill(1.0, q, v, x); a[2] = b[0]; a[0] = b[1]; break; }
                case 6: s = b1::dot(x, y); { double w = 0; for(int j = 0; j < 3; j++) w += a[j] * b[j]; eq(s, w, "dot"); b1::axpy(0.125 * s, y, x); for(int j = 0; j < 3; j++) a[j] += 0.125 * w * b[j]; } break;
                case 7: b1::max(x, s); { double w = *std::max_element(a.begin(), a.end()); eq(s, w, "max"); b1::fill(s, y); b = D(3, w); } break;
                case 8: b1::axpy(1.0, x, x); for(auto& v : a) v += v; break;
                case 9: s = b1::norm(x); { double w = 0; for(double v : a) w += v * v; w = std::sqrt(w); eq(s, w, "norm"); b1::scale(s / 8, y); for(auto& v : b) v *= w / 8; } break;
                }
                if(k + 1 == K) { vp::input(h); }
                same(x, a, "x"); same(y, b, "y");
            } });
    }
#else
#define E2(S, F) section(fmt("extract_%d_%d", S, F), 18, extract2<S, F>);
    E2(1, 0) E2(2, 0) E2(2, 1) E2(3, 0) E2(3, 1) E2(3, 2) E2(4, 0) E2(4, 3)
#define E3(S, N, F) section(fmt("extract_dims_%d_%d_%d", S, N, F), 3 * 3 * 4 * 2, extract2n<S, N, F>);
    E3(1, 1, 0) E3(2, 1, 0) E3(2, 1, 1) E3(2, 2, 0) E3(3, 1, 2) E3(3, 2, 0) E3(3, 2, 1) E3(3, 3, 0) E3(4, 3, 0) E3(4, 2, 1) E3(4, 3, 1) E3(4, 1, 3)
#define AX(S, F) section(fmt("axpy_%d_%d", S, F), 4 * 4 * 4 * 2 * 8, axpy2<S, F>);
    AX(1, 0) AX(2, 0) AX(2, 1) AX(3, 0) AX(3, 1) AX(3, 2) AX(4, 0) AX(4, 3)
    section("fill_scale", 4 * 5 * 8, [&](u64 i) { Dec d(i); int r = d.take(4), c = d.take(5); double al = d.pick(SC); if(!std::isfinite(al)) { vp::skip(); return; } D f = seq(r * c, 1); M a = smv(r, c, f), b = smv(r, c, f); vp::input(fmt("%dx%d %g", r, c, al)); vp::calls(2); bool bad = f.empty(); check(throws([&] { b2::fill(al, a); }) == bad, "fill shape check"); check(throws([&] { b2::scale(al, b); }) == bad, "scale shape check"); D w = f, s = f; if(!bad) for(size_t k = 0; k < f.size(); k++) { w[k] = al; s[k] = al * f[k]; } same2(a, w, "filled"); same2(b, s, "scaled"); });
    section("update", ipow(4, 4) * 25, [&](u64 i) { Dec d(i); int r = d.take(4), c = d.take(4), r2 = d.take(4), c2 = d.take(4); double al = SC[d.take(5)], be = SC[d.take(5)]; D f = seq(r * c, 1), g = seq(r2 * c2, 2); M a = smv(r, c, f), b = smv(r2, c2, g); vp::input(fmt("X %dx%d Y %dx%d alpha %g beta %g", r, c, r2, c2, al, be)); vp::calls(); bool bad = throws([&] { b2::update(al, a, be, b); }); check(bad == (r != r2 || c != c2), "shape check"); if(!bad) for(size_t k = 0; k < f.size(); k++) g[k] = al * f[k] + be * g[k]; same2(b, g, "Y"); same2(a, f, "X"); });
    {
        static const char* tr[] = {"N", "n", "T", "t", "C", "x", "", "TN"};
        section("matrix_times_vector", 4 * 3 * 3 * 8 * 25 * 9, [&](u64 i) {
            Dec d(i); int c = d.take(4), r = 1 + d.take(3), q = 1 + d.take(3); const char* t = d.pick(tr); double al = SC[d.take(5)], be = SC[d.take(5)]; int cx = c + (int)d.take(3) - 1, cy = c + (int)d.take(3) - 1; if(cx < 0 || cy < 0) { vp::skip(); return; }
            bool tra = *t == 'T' || *t == 't', nor = *t == 'N' || *t == 'n'; int nx = tra ? r : q, ny = tra ? q : r; D a = seq(c * r * q, 1), x = seq(cx * nx, 2), y = seq(cy * ny, 3); A3 A = mk3(c, r, q, a); M X = smv(cx, nx, x), Y = smv(cy, ny, y); vp::input(fmt("A %dx%dx%d '%s' alpha %g beta %g cells x %d y %d", c, r, q, t, al, be, cx, cy)); vp::calls();
            bool bad = throws([&] { b2::matrix_times_vector(t, al, A, X, be, Y); }); check(bad == (a.empty() || x.empty() || y.empty() || cx != c || cy != c || !(tra || nor)), bad ? "valid arguments rejected" : "invalid arguments accepted");
            if(!bad) { D w(y); for(int k = 0; k < c; k++) for(int o = 0; o < ny; o++) { double s = be * y[k * ny + o]; for(int e = 0; e < nx; e++) s += al * (tra ? a[(k * r + e) * q + o] : a[(k * r + o) * q + e]) * x[k * nx + e]; w[k * ny + o] = s; } y = w; }
            same2(Y, y, "y"); same2(X, x, "x"); same3(A, a, "A"); });
    }
#define ID(R, C) section(fmt("identity_%dx%d", R, C), 16, ident<R, C>); section(fmt("fill_%dx%d", R, C), 16 * 8, fill3<R, C>);
    ID(1, 1) ID(2, 2) ID(3, 3) ID(2, 3) ID(3, 2) ID(4, 4) ID(6, 6) ID(1, 4)
    section("update3", 4 * 3 * 3 * 3 * 3 * 25 * 4, [&](u64 i) { Dec d(i); int n = d.take(4), r = 1 + d.take(3), c = 1 + d.take(3), r2 = 1 + d.take(3), c2 = 1 + d.take(3); double al = SC[d.take(5)], be = SC[d.take(5)]; int cells = d.take(4); if(cells > n) { vp::skip(); return; } D f = seq(n * r * c, 1), g = seq(n * r2 * c2, 2); A3 A = mk3(n, r, c, f), B = mk3(n, r2, c2, g); vp::input(fmt("A %dx%dx%d B %dx%d cells %d alpha %g beta %g", n, r, c, r2, c2, cells, al, be)); vp::calls();
        bool bad = throws([&] { b3::update(cells, al, A, be, B); }); check(bad == (n == 0 || cells == 0 || r != r2 || c != c2), "shape check"); if(!bad) for(int k = 0; k < cells * r * c; k++) g[k] = al * f[k] + be * g[k]; same3(B, g, "B"); same3(A, f, "A"); });
    section("multiply", 3 * ipow(3, 3) * 8 * 25 * 9, [&](u64 i) {
        Dec d(i); int n = d.take(3), r = 1 + d.take(3), k = 1 + d.take(3), c = 1 + d.take(3); int mis = d.take(8); double al = SC[d.take(5)], be = SC[d.take(5)]; int nb = n + (int)d.take(3) - 1, nc = n + (int)d.take(3) - 1; if(nb < 0 || nc < 0) { vp::skip(); return; }
        int kb = k + (mis & 1), rc = r + (mis >> 1 & 1), cc = c + (mis >> 2 & 1); D a = seq(n * r * k, 1), b = seq(nb * kb * c, 2), g = seq(nc * rc * cc, 3); A3 A = mk3(n, r, k, a), B = mk3(nb, kb, c, b), C = mk3(nc, rc, cc, g); vp::input(fmt("A %dx%dx%d B %dx%dx%d C %dx%dx%d alpha %g beta %g", n, r, k, nb, kb, c, nc, rc, cc, al, be)); vp::calls();
        bool bad = throws([&] { b3::multiply(n, al, A, B, be, C); }); check(bad == (a.empty() || b.empty() || g.empty() || mis || nb != n || nc != n), bad ? "valid shapes rejected" : "invalid shapes accepted");
        if(!bad) for(int q = 0; q < n; q++) for(int x = 0; x < r; x++) for(int y = 0; y < c; y++) { double s = be * g[(q * r + x) * c + y]; for(int e = 0; e < k; e++) s += al * a[(q * r + x) * k + e] * b[(q * k + e) * c + y]; g[(q * r + x) * c + y] = s; }
        same3(C, g, "C"); same3(A, a, "A"); same3(B, b, "B"); });
    section("inverse_1", 2, [&](u64 i) { inverse<1>(i, 2); });
    section("inverse_2", 2 * 9, [&](u64 i) { inverse<2>(i, 0); });
    section("inverse_3", 2 * 729, [&](u64 i) { inverse<3>(i, 0); });
    section("inverse_4", 2 * (T ? 531441 : 59049), [&](u64 i) { inverse<4>(i, 0); });
    section("inverse_6", 2 * 36, inverse_big<6>); section("inverse_10", 2 * 100, inverse_big<10>); section("inverse_14", 2 * 196, inverse_big<14>); // local residual Jacobians
    section("inverse_shapes", 9, [&](u64 i) { Dec d(i); int a = d.take(3), b = d.take(3); A3 A("A", a, 2, 2), B("B", b, 2, 2); for(int k = 0; k < a; k++) { A(k, 0, 0) = 2; A(k, 1, 1) = 4; } vp::input(fmt("%d and %d cells", a, b)); vp::calls(); bool bad = throws([&] { b3::inverse<2, 2>(a, A, B); }); check(bad == (a == 0 || a != b), "shape check"); obs(bad); });
    // every number of cells up to the bound at three magnitudes
    vp::sweep({1, 1 / 1099511627776.0, 1099511627776.0}, [&] {
    section("cells", T ? 900 : 300, [&](u64 i) {
        const int n = 1 + i; const double S = vp::sc(); auto sq = [&](int m, int seed) { D r = seq(m, seed); for(auto& v : r) v *= S; return r; }; vp::input(fmt("%d cells, magnitude %g", n, S)); vp::calls(12);
        D a = sq(n * 6, 1), x = sq(n * 3, 2), y = sq(n * 2, 3); for(int k = 0; k < n; k++) { a[6 * k] += S * k; x[3 * k] -= S * k; } A3 A = mk3(n, 2, 3, a); M X = smv(n, 3, x), Y = smv(n, 2, y); double al = 2, be = -1; D w(y);
        vp::degree(1); { D xs(x); for(auto& v : xs) v /= S; M X1 = smv(n, 3, xs); b2::matrix_times_vector("N", al, A, X1, be, Y); for(int k = 0; k < n; k++) for(int r = 0; r < 2; r++) { w[2 * k + r] = -y[2 * k + r]; for(int c = 0; c < 3; c++) w[2 * k + r] += 2 * a[6 * k + 3 * r + c] * xs[3 * k + c]; } same2(Y, w, "A x"); }
        { D ys = seq(n * 2, 4); M Y1 = smv(n, 2, ys), Z = smv(n, 3, x); b2::matrix_times_vector("T", al, A, Y1, be, Z); D v(x); for(int k = 0; k < n; k++) for(int c = 0; c < 3; c++) { v[3 * k + c] = -x[3 * k + c]; for(int r = 0; r < 2; r++) v[3 * k + c] += 2 * a[6 * k + 3 * r + c] * ys[2 * k + r]; } same2(Z, v, "A' y"); }
        { M Z = smv(n, 3, x), W = smv(n, 3, sq(n * 3, 7)); D v = sq(n * 3, 7); b2::update(al, Z, be, W); for(int k = 0; k < 3 * n; k++) v[k] = 2 * x[k] - v[k]; same2(W, v, "update"); b2::scale(al, W); for(auto& e : v) e *= 2; same2(W, v, "scale"); double fl = 3 * S; b2::fill(fl, W); same2(W, D(3 * n, fl), "fill"); M E("e", n, 1); b2::extract<3, 2>(Z, E); D e1(n); for(int k = 0; k < n; k++) e1[k] = x[3 * k + 2]; same2(E, e1, "extract");
          M P = smv(n, 3, sq(n * 3, 9)); D pv = sq(n * 3, 9); b2::axpy<3, 1>(al, E, P); for(int k = 0; k < n; k++) pv[3 * k + 1] = 2 * pv[3 * k + 1] + e1[k]; same2(P, pv, "axpy"); }
        { D bs = seq(n * 6, 5), cs = sq(n * 4, 6); A3 B = mk3(n, 3, 2, bs), C = mk3(n, 2, 2, cs); b3::multiply(n, al, A, B, be, C); for(int k = 0; k < n; k++) { double t[4]; for(int r = 0; r < 2; r++) for(int c = 0; c < 2; c++) { t[2 * r + c] = -cs[4 * k + 2 * r + c]; for(int e = 0; e < 3; e++) t[2 * r + c] += 2 * a[6 * k + 3 * r + e] * bs[6 * k + 2 * e + c]; } for(int e = 0; e < 4; e++) cs[4 * k + e] = t[e]; } same3(C, cs, "A B");
          A3 U = mk3(n, 2, 2, cs), I("i", n, 2, 2); b3::update(n, al, C, be, U); for(auto& v : cs) v *= 1; same3(U, cs, "update3"); b3::identity<2, 2>(n, I); D id(4 * n); for(int k = 0; k < n; k++) { id[4 * k] = id[4 * k + 3] = 1; } same3(I, id, "identity"); b3::fill<2, 2>(n, S, I); same3(I, D(4 * n, S), "fill3"); }
        { D q(4 * n); for(int k = 0; k < n; k++) { q[4 * k] = S * (4 + k % 5); q[4 * k + 1] = S * (k % 3 - 1); q[4 * k + 2] = S * (1 + k % 2); q[4 * k + 3] = S * (-3 - k % 4); } A3 Q = mk3(n, 2, 2, q), I("i", n, 2, 2); b3::inverse<2, 2>(n, Q, I); vp::degree(-1); for(int k = 0; k < n; k++) { double dt = q[4 * k] * q[4 * k + 3] - q[4 * k + 1] * q[4 * k + 2]; eq(I(k, 0, 0), q[4 * k + 3] / dt, "inverse"); eq(I(k, 0, 1), -q[4 * k + 1] / dt, "inverse"); eq(I(k, 1, 0), -q[4 * k + 2] / dt, "inverse"); eq(I(k, 1, 1), q[4 * k] / dt, "inverse"); } } });
    });
    {
        // histories on one workset vector and one workset matrix
        const unsigned K = T ? 6 : 5;
        section("histories", ipow(8, K), [&](u64 i) {
            Dec d(i); D a = {2, 1, 0, 3, 1, -1, 2, 4}, x = {1, -1, 2, 0.5}, y = {0, 3, -2, 1}; A3 A = mk3(2, 2, 2, a); M X = smv(2, 2, x), Y = smv(2, 2, y); std::string h; static const char* nm[] = {"y=Ax ", "y=y-A'x ", "x=2y+x ", "A=AA ", "A=I-A ", "x*=0.5 ", "y=1 ", "A=2A "};
            for(unsigned k = 0; k < K; k++)
            {
                int o = d.take(8); h += nm[o]; vp::calls(); double z = 0, u = 1, m = -1, t = 2, hf = 0.5;
                if(o == 0 || o == 1) { b2::matrix_times_vector(o ? "T" : "N", o ? m : u, A, X, o ? u : z, Y); for(int c = 0; c < 2; c++) { double w[2]; for(int r = 0; r < 2; r++) { double s = 0; for(int q = 0; q < 2; q++) s += (o ? a[c * 4 + q * 2 + r] : a[c * 4 + r * 2 + q]) * x[c * 2 + q]; w[r] = o ? y[c * 2 + r] - s : s; } y[c * 2] = w[0]; y[c * 2 + 1] = w[1]; } }
                else if(o == 2) { b2::update(t, Y, u, X); for(int c = 0; c < 4; c++) x[c] += 2 * y[c]; }
                else if(o == 3) { A3 C("C", 2, 2, 2); b3::multiply(2, u, A, A, z, C); b3::update(2, u, C, z, A); for(int c = 0; c < 2; c++) { double w[4]; for(int r = 0; r < 2; r++) for(int q = 0; q < 2; q++) w[r * 2 + q] = a[c * 4 + r * 2] * a[c * 4 + q] + a[c * 4 + r * 2 + 1] * a[c * 4 + 2 + q]; for(int r = 0; r < 4; r++) a[c * 4 + r] = w[r]; } }
                else if(o == 4) { A3 I("I", 2, 2, 2); b3::identity<2, 2>(2, I); b3::update(2, u, I, m, A); for(int c = 0; c < 8; c++) a[c] = ((c % 4) % 3 == 0) - a[c]; }
                else if(o == 5) { b2::scale(hf, X); for(auto& v : x) v *= 0.5; }
                else if(o == 6) { b2::fill(u, Y); y = D(4, 1.0); }
                else { A3 C("C", 2, 2, 2); b3::fill<2, 2>(2, z, C); b3::update(2, u, C, t, A); for(auto& v : a) v *= 2; }
                if(k + 1 == K) vp::input(h);
                same2(Y, y, "y"); same2(X, x, "x"); same3(A, a, "A");
            } });
    }
#endif
}
