// Small simplex meshes in every numbering, parameter lists, dense copies of sparse matrices, and difference quotients:
// shared by the harnesses that run whole residuals, criteria and problems over the Omega_h stand-in.
#pragma once
#include "vpk.hpp"
#include <Omega_h_mesh.hpp>
#include <Omega_h_assoc.hpp>
#include <Teuchos_ParameterList.hpp>
#include "PlatoTypes.hpp"
#include "alg/CrsMatrix.hpp"

namespace vpm
{
typedef std::vector<double> V; typedef Teuchos::ParameterList PL; using vp::u64;

// every translation unit registers its sections; mesh_main.cpp runs them
inline std::vector<std::function<void()>>& parts() { static std::vector<std::function<void()>> p; return p; }
struct Part { Part(std::function<void()> f) { parts().push_back(f); } };

// parameter lists by path: put(l, "A/B/C", value)
template<typename T> inline void put(PL& l, const std::string& path, const T& v)
{
    PL* p = &l; size_t b = 0, e; while((e = path.find('/', b)) != std::string::npos) { p = &p->sublist(path.substr(b, e - b)); b = e + 1; } p->set(path.substr(b), v);
}
inline void put(PL& l, const std::string& path, const char* v) { put<std::string>(l, path, v); }
inline void arr(PL& l, const std::string& path, const V& v) { put(l, path, Teuchos::Array<double>(v.begin(), v.end())); }
inline void names(PL& l, const std::string& path, const std::vector<std::string>& v) { put(l, path, Teuchos::Array<std::string>(v.begin(), v.end())); }

struct M
{
    int d; V x; std::vector<int> c;
    int nv() const { return x.size() / d; } int ne() const { return c.size() / (d + 1); }
    double vol(int e) const // signed
    {
        double a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) a[i][j] = x[c[e * (d + 1) + i + 1] * d + j] - x[c[e * (d + 1)] * d + j];
        double q = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); return q / (d == 1 ? 1 : d == 2 ? 2 : 6);
    }
    std::string str() const { std::string s = vp::fmt("%dD cells", d); for(int e = 0; e < ne(); e++) { s += " "; for(int k = 0; k <= d; k++) s += vp::fmt(k ? ",%d" : "%d", c[e * (d + 1) + k]); } return s + " at " + vp::vec_str(x); }
};
// irregular shapes: 0 one cell, 1 two cells, 2 several cells around a vertex or an edge
inline M shape(int d, int s)
{
    if(d == 1) { M m{1, {0.1, 0.8, 1.9, 2.5}, {0, 1}}; if(s > 0) m.c.insert(m.c.end(), {1, 2}); if(s > 1) m.c.insert(m.c.end(), {2, 3}); m.x.resize(s + 2); return m; }
    if(d == 2)
    {
        if(s == 0) return M{2, {0.1, 0.0, 1.2, 0.3, 0.4, 0.9}, {0, 1, 2}};
        if(s == 1) return M{2, {0.0, 0.1, 1.1, -0.1, 1.3, 0.9, 0.2, 1.2}, {0, 1, 2, 2, 3, 0}};
        return M{2, {0.0, 0.1, 1.1, -0.1, 1.3, 0.9, 0.2, 1.2, 0.55, 0.45}, {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}};
    }
    if(s == 0) return M{3, {0.1, 0.0, 0.05, 1.2, 0.1, -0.1, 0.2, 0.9, 0.1, 0.3, 0.2, 1.1}, {0, 1, 2, 3}};
    if(s == 1) return M{3, {0.1, 0.0, 0.05, 1.2, 0.1, -0.1, 0.2, 0.9, 0.1, 0.3, 0.2, 1.1, 1.0, 1.1, 0.9}, {0, 1, 2, 3, 1, 2, 3, 4}};
    return M{3, {0.0, 0.1, 0.0, 0.1, 0.0, 1.2, 1.1, -0.1, 0.5, 0.2, 1.0, 0.4, -0.9, 0.8, 0.6}, {0, 2, 3, 1, 0, 3, 4, 1, 0, 4, 2, 1}};
}
inline u64 fact(int n) { u64 r = 1; while(n > 1) r *= n--; return r; }
inline std::vector<int> perm(int n, u64 code) { std::vector<int> p, q; for(int i = 0; i < n; i++) q.push_back(i); for(int i = n; i > 0; i--) { p.push_back(q[code % i]); q.erase(q.begin() + code % i); code /= i; } return p; }
// orientation-preserving orders of a cell's vertices
inline const std::vector<std::vector<int>>& turns(int d)
{
    static std::vector<std::vector<int>> t[4];
    if(t[d].empty()) for(u64 k = 0; k < fact(d + 1); k++) { auto p = perm(d + 1, k); int inv = 0; for(int i = 0; i <= d; i++) for(int j = i + 1; j <= d; j++) inv += p[i] > p[j]; if(inv % 2 == 0) t[d].push_back(p); }
    return t[d];
}
// every cell positively oriented
inline M orient(M m) { for(int e = 0; e < m.ne(); e++) if(m.vol(e) < 0) std::swap(m.c[e * (m.d + 1) + m.d - 1], m.c[e * (m.d + 1) + m.d]); return m; }
// all numberings: vertex order x cell order x turn of every cell
inline u64 numberings(const M& m) { return fact(m.nv()) * fact(m.ne()) * vp::ipow(turns(m.d).size(), m.ne()); }
struct Numbered { M m; std::vector<int> node, cell; }; // node[old] = new, cell[new] = old
inline Numbered renumber(const M& m, u64 code)
{
    vp::Dec q(code); auto np = perm(m.nv(), q.take(fact(m.nv()))), ep = perm(m.ne(), q.take(fact(m.ne()))); Numbered r; r.m.d = m.d; r.m.x.resize(m.x.size()); r.node = np; r.cell = ep;
    for(int i = 0; i < m.nv(); i++) for(int j = 0; j < m.d; j++) r.m.x[np[i] * m.d + j] = m.x[i * m.d + j];
    for(int e = 0; e < m.ne(); e++) { auto& t = turns(m.d)[q.take(turns(m.d).size())]; for(int k = 0; k <= m.d; k++) r.m.c.push_back(np[m.c[ep[e] * (m.d + 1) + t[k]]]); }
    return r;
}
// a well spread selection of n of the numberings (all of them when n is larger)
inline u64 spread(u64 i, u64 n, u64 total) { return n >= total ? i : (u64)((i * 0x9E3779B97F4A7C15ull + 12345) % total); }

inline Omega_h::LOs los(const std::vector<int>& a) { Omega_h::Write<Omega_h::LO> w(a.size()); for(size_t i = 0; i < a.size(); i++) w[i] = a[i]; return w; }
struct World // a mesh with its sets
{
    Omega_h::Mesh mesh; Omega_h::MeshSets sets; M m;
    World(const M& a) : m(a) { mesh.build(a.d, a.nv(), a.c, a.x); std::vector<int> all; for(int e = 0; e < a.ne(); e++) all.push_back(e); block("body", all); }
    void block(const std::string& n, const std::vector<int>& e) { sets[Omega_h::ELEM_SET][n] = los(e); }
    void nodes(const std::string& n, const std::vector<int>& e) { sets[Omega_h::NODE_SET][n] = los(e); }
    void sides(const std::string& n, const std::vector<int>& e) { sets[Omega_h::SIDE_SET][n] = los(e); }
    int side_of(std::vector<int> v) { std::sort(v.begin(), v.end()); auto s = mesh.ask_verts_of(m.d - 1); for(int f = 0; f < mesh.nents(m.d - 1); f++) { std::vector<int> w; for(int k = 0; k < m.d; k++) w.push_back(s[f * m.d + k]); std::sort(w.begin(), w.end()); if(w == v) return f; } return -1; }
};
inline V host(const Plato::ScalarVector& a) { V r; for(size_t i = 0; i < a.extent(0); i++) r.push_back(a(i)); return r; }
template<typename A> inline V hostv(const A& a) { V r; for(size_t i = 0; i < a.extent(0); i++) r.push_back(a(i)); return r; }
inline Plato::ScalarMultiVector states(const std::vector<V>& a) { Plato::ScalarMultiVector r("s", a.size(), a[0].size()); for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < a[0].size(); j++) r(i, j) = a[i][j]; return r; }
// dense copy; every stored entry must lie inside the matrix and be stored once
typedef std::vector<V> D;
inline D dense(const Teuchos::RCP<Plato::CrsMatrixType>& a)
{
    auto rm = a->rowMap(); auto ci = a->columnIndices(); auto en = a->entries(); const int R = a->numRowsPerBlock(), C = a->numColsPerBlock(), n = rm.extent(0) - 1; int nc = 0; for(size_t i = 0; i < ci.extent(0); i++) nc = std::max(nc, ci(i) + 1);
    D r(n * R, V(nc * C, 0.0)); std::set<std::pair<int, int>> seen; vp::check(ci.extent(0) * R * C == en.extent(0), "the matrix has %d entries for %d blocks of %d x %d", (int)en.extent(0), (int)ci.extent(0), R, C);
    for(int i = 0; i < n; i++) for(int k = rm(i); k < rm(i + 1); k++) { vp::check(seen.insert({i, ci(k)}).second, "block (%d,%d) is stored twice", i, ci(k)); for(int p = 0; p < R; p++) for(int q = 0; q < C; q++) r[i * R + p][ci(k) * C + q] += en(k * R * C + p * C + q); }
    return r;
}
// fourth-order central difference of a vector-valued function along coordinate k
template<typename F> inline V quotient(F f, V x, int k, double h)
{
    auto at = [&](double s) { V y = x; y[k] += s; return f(y); }; V a = at(h), b = at(-h), c = at(2 * h), e = at(-2 * h), r(a.size()); for(size_t i = 0; i < r.size(); i++) r[i] = (8 * (a[i] - b[i]) - (c[i] - e[i])) / (12 * h); return r;
}
inline double big(const V& a) { double r = 0; for(double x : a) r = std::fmax(r, std::fabs(x)); return r; }
inline double big(const D& a) { double r = 0; for(auto& x : a) r = std::fmax(r, big(x)); return r; }
// jac[k][i] must be d f_i / d x_k
template<typename F> inline void derivative(F f, const V& x, const D& jac, const char* what, double h = 1e-3, double tol = 1e-6, double floor = 1e-8)
{
    vp::check(jac.size() == x.size(), "%s: derivative has %d rows, %d expected", what, (int)jac.size(), (int)x.size()); D q; for(size_t k = 0; k < x.size(); k++) q.push_back(quotient(f, x, k, h)); double s = std::fmax(floor, std::fmax(big(q), big(jac)));
    for(size_t k = 0; k < x.size(); k++) { vp::check(jac[k].size() == q[k].size(), "%s: %d components, %d expected", what, (int)jac[k].size(), (int)q[k].size()); for(size_t i = 0; i < q[k].size(); i++) { if(!(std::fabs(jac[k][i] - q[k][i]) <= tol * s)) vp::fail("%s: d(%d)/d(%d) is %.12g, difference quotient %.12g", what, (int)i, (int)k, jac[k][i], q[k][i]); vp::obs(jac[k][i]); } vp::core().cur_checks += q[k].size(); }
}
inline D transpose(const D& a, size_t cols) { D r(cols, V(a.size())); for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < cols && j < a[i].size(); j++) r[j][i] = a[i][j]; return r; }
inline D column(const V& a) { D r; for(double x : a) r.push_back({x}); return r; }
// values that are all different and in no simple relation
inline double mix(int i, int salt = 0) { double s = std::sin(12.9898 * (i + 1) + 78.233 * (salt + 1)) * 43758.5453; return s - std::floor(s); }
inline V field(int n, double lo, double hi, int salt = 0) { V r; for(int i = 0; i < n; i++) r.push_back(lo + (hi - lo) * mix(i, salt)); return r; }
} // namespace vpm
