// Simplex geometries and per-cell view helpers shared by the element-level harnesses.
#pragma once
#include "vpk.hpp"
#include <Sacado.hpp>
namespace el
{
typedef std::vector<double> V;
typedef uint64_t u64;
static const double POISON = 777.25;
// ---- a few cells, of which one is worked on: the others hold values that must survive
using vp::NC; using vp::cell;
static Plato::ScalarMultiVector mv(int m, int c, const V& x) { Plato::ScalarMultiVector v("v", NC, m); for(int a = 0; a < NC; a++) for(int j = 0; j < m; j++) v(a, j) = a == c ? (x.empty() ? POISON : x[j]) : POISON + a; return v; }
static Plato::ScalarVector cv(int c, double x) { Plato::ScalarVector v("v", NC); for(int a = 0; a < NC; a++) v(a) = a == c ? x : POISON + a; return v; }
static Plato::ScalarArray3D a3(int n, int m, int c, const V& x) { Plato::ScalarArray3D v("v", NC, n, m); for(int a = 0; a < NC; a++) for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) v(a, i, j) = a == c ? (x.empty() ? POISON : x[i * m + j]) : POISON + a; return v; }
static void cmp(const Plato::ScalarMultiVector& v, int c, const V& want, const char* what, double tol = 1e-9, double at = 1e-10)
{
    vp::eqi(v.extent(1), want.size(), "width");
    for(int a = 0; a < NC; a++) for(size_t j = 0; j < v.extent(1); j++) if(a != c) vp::check(v(a, j) == POISON + a, "%s: another cell was written", what); else vp::eq(v(a, j), want[j], vp::fmt("%s[%d]", what, (int)j).c_str(), tol, at);
}
static void cmp(const Plato::ScalarVector& v, int c, double want, const char* what, double tol = 1e-9, double at = 1e-10) { for(int a = 0; a < NC; a++) if(a != c) vp::check(v(a) == POISON + a, "%s: another cell was written", what); else vp::eq(v(a), want, what, tol, at); }
static void cmp(const Plato::ScalarArray3D& v, int c, const V& want, const char* what, double tol = 1e-9, double at = 1e-10)
{
    int n = v.extent(1), m = v.extent(2);
    for(int a = 0; a < NC; a++) for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) if(a != c) vp::check(v(a, i, j) == POISON + a, "%s: another cell was written", what); else vp::eq(v(a, i, j), want[i * m + j], vp::fmt("%s[%d,%d]", what, i, j).c_str(), tol, at);
}
static V gen(int n, int k, double s) { V r; for(int j = 0; j < n; j++) r.push_back(s * (0.3 + 0.17 * ((j * 7 + k * 5) % 11) - 0.9 * ((j + k) % 2))); return r; }
// unit vectors (with a value) first, then dense generic vectors
static V field(int n, int k) { if(k < n) { V r(n, 0.0); r[k] = vp::sc() * (k % 2 ? -1.5 : 2.0); return r; } return gen(n, k - n, vp::sc()); }

// ---- small dense solve (reference side): A x = b, n <= 4
static V solve(std::vector<V> A, V b)
{
    int n = b.size();
    for(int k = 0; k < n; k++) { int p = k; for(int i = k; i < n; i++) if(std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i; std::swap(A[k], A[p]); std::swap(b[k], b[p]); for(int i = k + 1; i < n; i++) { double f = A[i][k] / A[k][k]; for(int j = k; j < n; j++) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } }
    for(int i = n - 1; i >= 0; i--) { for(int j = i + 1; j < n; j++) b[i] -= A[i][j] * b[j]; b[i] /= A[i][i]; } return b;
}
template<int D> struct Geo
{
    double x[D + 1][D], vol; V G; // G[n*D+d] = derivative of the linear shape function of node n
    std::vector<V> mat() const { std::vector<V> A; for(int n = 0; n <= D; n++) { V r = {1.0}; for(int d = 0; d < D; d++) r.push_back(x[n][d]); A.push_back(r); } return A; }
    // gradient of the affine function with the given nodal values
    V grad(const V& f) const { V s = solve(mat(), f); return V(s.begin() + 1, s.end()); }
    bool make()
    {
        double m[3][3]; for(int n = 1; n <= D; n++) for(int d = 0; d < D; d++) m[n - 1][d] = x[n][d] - x[0][d];
        double det = D == 1 ? m[0][0] : D == 2 ? m[0][0] * m[1][1] - m[0][1] * m[1][0] : m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        vol = std::fabs(det) / (D == 1 ? 1 : D == 2 ? 2 : 6); if(vol < 1e-9) return false;
        G.assign((D + 1) * D, 0); for(int n = 0; n <= D; n++) { V f(D + 1, 0.0); f[n] = 1; V g = grad(f); for(int d = 0; d < D; d++) G[n * D + d] = g[d]; } return true;
    }
    std::string str() const { std::string s = "nodes"; for(int n = 0; n <= D; n++) { s += " ("; for(int d = 0; d < D; d++) s += vp::fmt("%s%g", d ? "," : "", x[n][d]); s += ")"; } return s; }
};
// every non-degenerate simplex whose vertices lie on a small (skewed, so that no coordinate is special) lattice
template<int D> static const std::vector<Geo<D>>& geos(bool full)
{
    static std::vector<Geo<D>> r[2]; auto& g = r[full]; if(!g.empty()) return g;
    std::vector<V> pts; int a = D == 1 ? (full ? 7 : 5) : D == 2 ? 3 : 2, b = D == 2 && !full ? 2 : a; 
    for(int i = 0; i < a; i++) for(int j = 0; j < (D > 1 ? b : 1); j++) for(int k = 0; k < (D > 2 ? 2 : 1); k++) { V p = {i - 0.5 + 0.25 * j}; if(D > 1) p.push_back(1.5 * j - 0.5 + 0.125 * i); if(D > 2) p.push_back(0.75 * k + 0.25 * i * (1 - j)); pts.push_back(p); }
    int n = pts.size(); u64 tot = vp::ipow(n, D + 1);
    for(u64 c = 0; c < tot; c++)
    {
        u64 v = c; int ix[4]; bool ok = true; for(int q = 0; q <= D; q++) { ix[q] = v % n; v /= n; for(int p = 0; p < q; p++) if(ix[p] == ix[q]) ok = false; } if(!ok) continue;
        if(D == 3 && !full) for(int q = 0; q < D; q++) if(ix[q] > ix[q + 1]) ok = false; if(!ok) continue;
        Geo<D> e; for(int q = 0; q <= D; q++) for(int d = 0; d < D; d++) e.x[q][d] = pts[ix[q]][d]; if(e.make()) g.push_back(e);
    }
    return g;
}
static int voigt(int D, int i, int j) { if(i == j) return i; if(D == 2) return 2; return 6 - i - j; } // xx yy zz yz xz xy
static constexpr int nvoigt(int D) { return D == 3 ? 6 : D == 2 ? 3 : 1; }
// engineering strain of the affine field with nodal values u[n*nd + off + i]
template<int D> static V strain_ref(const Geo<D>& g, const V& u, int nd, int off = 0)
{
    double H[3][3]; for(int i = 0; i < D; i++) { V f; for(int n = 0; n <= D; n++) f.push_back(u[n * nd + off + i]); V h = g.grad(f); for(int j = 0; j < D; j++) H[i][j] = h[j]; }
    V e(nvoigt(D), 0.0); for(int i = 0; i < D; i++) for(int j = i; j < D; j++) e[voigt(D, i, j)] = i == j ? H[i][i] : H[i][j] + H[j][i]; return e;
}
template<int D> static V grad_ref(const Geo<D>& g, const V& u, int nd, int off) { V f; for(int n = 0; n <= D; n++) f.push_back(u[n * nd + off]); return g.grad(f); }
static V scaled(V a, double s) { for(auto& x : a) x *= s; return a; }
} // namespace el
