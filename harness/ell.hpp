// Residuals and criteria assembled over whole (small, irregular) meshes, with an independently written linear simplex element as the
// reference. Used for every physics; one translation unit per physics and space dimension.
#pragma once
#include "mesh.hpp"
#include "SpatialModel.hpp"
#include "elliptic/VectorFunction.hpp"
#include "elliptic/ScalarFunctionBase.hpp"
#include "elliptic/ScalarFunctionBaseFactory.hpp"

namespace vpm
{
typedef std::function<void(World&, PL&)> Setup;
struct Sys
{
    World w; PL pl; Plato::DataMap dm; Plato::SpatialModel sm;
    static PL list(World& w, const Setup& s) { PL p; s(w, p); return p; }
    Sys(const M& m, const Setup& s) : w(m), pl(list(w, s)), sm(w.mesh, w.sets, pl) {}
};
inline Plato::ScalarVector dev(const V& a) { return vp::sv(a); }

// ---- reference element
struct Cell { std::vector<int> n; D g; double vol, rho; V xc; };
inline double penal(const std::string& t, double r, double p = 3, double mn = 1e-9)
{
    if(t == "SIMP") return mn + (1 - mn) * std::pow(r, p);
    if(t == "RAMP") return mn + (1 - mn) * r / (1 + p * (1 - r));
    return 1;
}
inline Cell cell(const M& m, int e, const V& z)
{
    const int d = m.d; Cell c; c.vol = std::fabs(m.vol(e)); for(int k = 0; k <= d; k++) c.n.push_back(m.c[e * (d + 1) + k]); c.xc.assign(d, 0); c.rho = 0;
    for(int n : c.n) { for(int j = 0; j < d; j++) c.xc[j] += m.x[n * d + j] / (d + 1); if(!z.empty()) c.rho += z[n] / (d + 1); }
    // gradients: solve [1 x]^T coefficients for every vertex by Cramer-free elimination
    for(int a = 0; a <= d; a++)
    {
        D q(d + 1, V(d + 2)); for(int b = 0; b <= d; b++) { q[b][0] = 1; for(int j = 0; j < d; j++) q[b][j + 1] = m.x[c.n[b] * d + j]; q[b][d + 1] = a == b; }
        for(int i = 0; i <= d; i++) { int p = i; for(int r = i; r <= d; r++) if(std::fabs(q[r][i]) > std::fabs(q[p][i])) p = r; std::swap(q[i], q[p]); for(int r = 0; r <= d; r++) if(r != i) { double f = q[r][i] / q[i][i]; for(int k = i; k <= d + 1; k++) q[r][k] -= f * q[i][k]; } }
        V g; for(int j = 0; j < d; j++) g.push_back(q[j + 1][d + 1] / q[j + 1][j + 1]); c.g.push_back(g);
    }
    return c;
}
inline int voigt(int d, int i, int j) { if(i == j) return i; return d == 2 ? 2 : 6 - i - j; } // 3-D: yz 3, xz 4, xy 5
inline V strain(const Cell& c, int d, const V& u, int nd, int off = 0)
{
    V e(d == 1 ? 1 : d == 2 ? 3 : 6, 0.0); for(size_t a = 0; a < c.n.size(); a++) for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) e[voigt(d, i, j)] += c.g[a][j] * u[c.n[a] * nd + off + i]; return e;
}
inline V gradient(const Cell& c, int d, const V& u, int nd, int off) { V g(d, 0.0); for(size_t a = 0; a < c.n.size(); a++) for(int j = 0; j < d; j++) g[j] += c.g[a][j] * u[c.n[a] * nd + off]; return g; }
inline double value_at(const Cell& c, const V& u, int nd, int off) { double s = 0; for(int n : c.n) s += u[n * nd + off] / c.n.size(); return s; }
inline V isotropic(int d, double E, double nu, const V& e)
{
    double l = E * nu / (1 + nu) / (1 - 2 * nu), mu = E / 2 / (1 + nu), t = 0; V s(e.size()); for(int i = 0; i < d; i++) t += e[i]; for(size_t k = 0; k < e.size(); k++) s[k] = (int)k < d ? l * t + 2 * mu * e[k] : mu * e[k]; return s;
}
inline double dot(const V& a, const V& b) { double s = 0; for(size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline void divergence(V& r, const Cell& c, int d, const V& s, double w, int nd, int off = 0) { for(size_t a = 0; a < c.n.size(); a++) for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) r[c.n[a] * nd + off + i] += w * s[voigt(d, i, j)] * c.g[a][j]; }
// area vector (outward) of the face of cell e opposite to local vertex k: minus d * vol * gradient
inline V area(const M& m, int e, int k) { Cell c = cell(m, e, {}); V r; for(int j = 0; j < m.d; j++) r.push_back(-m.d * c.vol * c.g[k][j]); return r; }
struct Face { int e, k; std::vector<int> n; V area; double size; };
inline std::vector<Face> boundary(const M& m)
{
    std::vector<Face> r; std::map<std::vector<int>, int> cnt; for(int p = 0; p < 2; p++) for(int e = 0; e < m.ne(); e++) for(int k = 0; k <= m.d; k++)
    {
        std::vector<int> n; for(int b = 0; b <= m.d; b++) if(b != k) n.push_back(m.c[e * (m.d + 1) + b]); std::sort(n.begin(), n.end()); if(!p) cnt[n]++; else if(cnt[n] == 1) { V a = area(m, e, k); r.push_back({e, k, n, a, std::sqrt(dot(a, a))}); }
    }
    std::sort(r.begin(), r.end(), [](const Face& a, const Face& b) { return a.n < b.n; });
    return r;
}
inline void same(const V& got, const V& want, const char* what, double tol = 1e-10)
{
    vp::check(got.size() == want.size(), "%s: %d values, %d expected", what, (int)got.size(), (int)want.size()); double s = std::fmax(big(want), 1e-12); for(size_t i = 0; i < got.size(); i++) { if(!(std::fabs(got[i] - want[i]) <= tol * s)) vp::fail("%s[%d]: implementation %.15g, reference %.15g", what, (int)i, got[i], want[i]); vp::obs(got[i]); } vp::core().cur_checks += got.size();
}
inline void same(const D& got, const D& want, const char* what, double tol = 1e-10)
{
    vp::check(got.size() == want.size(), "%s: %d rows, %d expected", what, (int)got.size(), (int)want.size()); double s = std::fmax(std::fmax(big(want), big(got)), 1e-12); for(size_t i = 0; i < got.size(); i++) { vp::check(got[i].size() == want[i].size(), "%s: row length", what); for(size_t j = 0; j < got[i].size(); j++) if(!(std::fabs(got[i][j] - want[i][j]) <= tol * s)) vp::fail("%s[%d][%d]: %.15g, expected %.15g", what, (int)i, (int)j, got[i][j], want[i][j]); vp::core().cur_checks += got[i].size(); }
}

// ---- residual and its derivatives
template<typename P> struct Res
{
    Sys s; std::string n = "Elliptic"; Plato::Elliptic::VectorFunction<P> f;
    Res(const M& m, const Setup& q) : s(m, q), f(s.sm, s.dm, s.pl, n) {}
    V value(const V& u, const V& z) { vp::calls(); return host(f.value(dev(u), dev(z))); }
    D u(const V& a, const V& z) { vp::calls(); return dense(f.gradient_u(dev(a), dev(z))); }
    D uT(const V& a, const V& z) { vp::calls(); return dense(f.gradient_u_T(dev(a), dev(z))); }
    D z(const V& a, const V& z_) { vp::calls(); return dense(f.gradient_z(dev(a), dev(z_))); }
    D x(const V& a, const V& z) { vp::calls(); return dense(f.gradient_x(dev(a), dev(z))); }
};
inline M moved(M m, const V& x) { m.x = x; return m; }
template<typename P> inline void residual_derivatives(const M& m, const Setup& q, const V& u, const V& z, bool do_x = true, double tol = 1e-7)
{
    Res<P> r(m, q); D ju = r.u(u, z), jt = r.uT(u, z); same(jt, transpose(ju, u.size()), "transposed Jacobian", 1e-13);
    derivative([&](const V& y) { return r.value(y, z); }, u, transpose(ju, u.size()), "Jacobian of the residual", 1e-3, tol);
    derivative([&](const V& y) { return r.value(u, y); }, z, r.z(u, z), "residual by control", 1e-3, tol);
    if(do_x) derivative([&](const V& y) { Res<P> s(moved(m, y), q); return s.value(u, z); }, m.x, r.x(u, z), "residual by coordinates", 1e-3, tol);
}
// ---- criterion and its derivatives
template<typename P> struct Cri
{
    Sys s; std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> f;
    Cri(const M& m, const Setup& q, std::string name = "crit") : s(m, q) { Plato::Elliptic::ScalarFunctionBaseFactory<P> k; f = k.create(s.sm, s.dm, s.pl, name); vp::check(f != nullptr, "criterion was not created"); }
    double value(const std::vector<V>& u, const V& z) { vp::calls(); return f->value(Plato::Solution(states(u)), dev(z)); }
    V u(const std::vector<V>& a, const V& z, int step = 0) { vp::calls(); return host(f->gradient_u(Plato::Solution(states(a)), dev(z), step)); }
    V z(const std::vector<V>& a, const V& z_) { vp::calls(); return host(f->gradient_z(Plato::Solution(states(a)), dev(z_))); }
    V x(const std::vector<V>& a, const V& z) { vp::calls(); return host(f->gradient_x(Plato::Solution(states(a)), dev(z))); }
};
typedef std::function<void(Plato::Elliptic::ScalarFunctionBase&)> Prepare;
template<typename P> inline void criterion_derivatives(const M& m, const Setup& q, const std::vector<V>& u, const V& z, double h = 1e-3, double tol = 1e-6, bool do_x = true)
{
    Cri<P> r(m, q);
    for(size_t k = 0; k < u.size(); k++) derivative([&](const V& y) { auto v = u; v[k] = y; return V(1, r.value(v, z)); }, u[k], column(r.u(u, z, k)), "criterion by state", h, tol);
    derivative([&](const V& y) { return V(1, r.value(u, y)); }, z, column(r.z(u, z)), "criterion by control", h, tol);
    if(do_x) derivative([&](const V& y) { Cri<P> s(moved(m, y), q); return V(1, s.value(u, z)); }, m.x, column(r.x(u, z)), "criterion by coordinates", h, tol);
}
} // namespace vpm
