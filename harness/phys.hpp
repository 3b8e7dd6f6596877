// The four elliptic physics: parameter lists, reference residuals and reference criteria.
#pragma once
#include "ell.hpp"
#include "Thermal.hpp"
#include "Mechanics.hpp"
#include "Electromechanics.hpp"
#include "Thermomechanics.hpp"
#include "elliptic/ScalarFunctionBaseFactory_def.hpp"

namespace vpm
{
enum Kind { THERMAL, MECH, EM, TM };
inline const char* kind_name(Kind k) { static const char* n[] = {"thermal", "mechanics", "electromechanics", "thermomechanics"}; return n[k]; }
inline int dofs(Kind k, int d) { return k == THERMAL ? 1 : k == MECH ? d : d + 1; }
struct Pen { std::string type = "SIMP"; double p = 3, mn = 1e-9; double operator()(double r) const { return penal(type, r, p, mn); } std::string str() const { return vp::fmt("%s %g %g", type.c_str(), p, mn); } };
inline void pen_list(PL& p, const std::string& at, const Pen& q)
{
    put(p, at + "/Penalty Function/Type", q.type); if(q.type == "Heaviside") { put(p, at + "/Penalty Function/Penalty Parameter", 3.0); put(p, at + "/Penalty Function/Regularization Parameter", 4.0); put(p, at + "/Penalty Function/Minimum Value", q.mn); } else if(q.type != "NoPenalty") { put(p, at + "/Penalty Function/Exponent", q.p); put(p, at + "/Penalty Function/Minimum Value", q.mn); }
}
static const std::vector<Pen> PENS = {{"SIMP", 3, 1e-9}, {"RAMP", 2, 0.01}, {"NoPenalty", 1, 0}, {"SIMP", 1, 0.2}};

// material number s (0, 1): all coefficients different
struct Mat
{
    double E, nu, k, alpha, Tref, scale, e15, e31, e33, p11, p33, a; int var = 0; // var 1: temperature dependent, conduction anisotropic
    double young(double T) const { return var ? E * (1 + 0.2 * T - 0.05 * T * T) : E; } double expand(double T) const { return var ? alpha * (1 - 0.3 * T + 0.1 * T * T) : alpha; }
    double kc(int o, int i, int j) const { return k * (i == j ? (o == 0 ? 1 + 0.2 * i : o == 1 ? 0.15 : 0.1) : o == 0 ? 0.1 * (i + j) : o == 1 ? 0.05 : 0.0); }
    V conduct(int d, double T, V g) const { V r(d, 0.0); for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) r[i] += (var ? kc(0, i, j) + kc(1, i, j) * T + kc(2, i, j) * T * T : i == j ? k : 0) * g[j]; return r; }
    void conduct_list(PL& p, int d, const std::string& b) const { if(!var) { put(p, b, k); return; } for(int o = 0; o < 3; o++) for(int i = 0; i < d; i++) for(int j = i; j < d; j++) put(p, b + vp::fmt("/c%d%d%d", o, i + 1, j + 1), kc(o, i, j)); }
    static Mat of(int s) { return s ? Mat{0.7, 0.2, 1.9, 0.03, 2.0, 1.5, 0.31, -0.22, 0.13, 0.9, 0.6, 0.5} : Mat{2.0, 0.3, 0.8, 0.02, 1.0, 2.0, 0.2, -0.12, 0.37, 1.3, 0.8, 2.0}; }
    void list(PL& p, Kind k_, int d, const std::string& n) const
    {
        std::string b = "Material Models/" + n + "/";
        if(k_ == THERMAL) { conduct_list(p, d, b + "Thermal Conduction/Thermal Conductivity"); if(var) put(p, b + "Thermal Conduction/Temperature Dependent", true); }
        if(k_ == MECH) { put(p, b + "Isotropic Linear Elastic/Poissons Ratio", nu); put(p, b + "Isotropic Linear Elastic/Youngs Modulus", E); }
        if(k_ == EM) { b += "Isotropic Linear Electroelastic/"; put(p, b + "Poissons Ratio", nu); put(p, b + "Youngs Modulus", E); put(p, b + "e15", e15); put(p, b + "e31", e31); put(p, b + "e33", e33); put(p, b + "p11", p11); put(p, b + "p33", p33); put(p, b + "Alpha", a); }
        if(k_ == TM) { b += "Thermoelastic/"; put(p, b + "Elastic Stiffness/Poissons Ratio", nu); if(var) { put(p, b + "Temperature Dependent", true); put(p, b + "Elastic Stiffness/Youngs Modulus/c0", E); put(p, b + "Elastic Stiffness/Youngs Modulus/c1", E * 0.2); put(p, b + "Elastic Stiffness/Youngs Modulus/c2", -E * 0.05); put(p, b + "Thermal Expansivity/c011", alpha); put(p, b + "Thermal Expansivity/c111", -alpha * 0.3); put(p, b + "Thermal Expansivity/c211", alpha * 0.1); } else { put(p, b + "Elastic Stiffness/Youngs Modulus", E); put(p, b + "Thermal Expansivity", alpha); } conduct_list(p, d, b + "Thermal Conductivity"); put(p, b + "Reference Temperature", Tref); put(p, b + "Temperature Scaling", scale); }
    }
    D piezo(int d) const { D e(d, V(d == 2 ? 3 : 6, 0.0)); if(d == 2) { e[0][2] = e15; e[1][0] = e31; e[1][1] = e33; } else { e[2][0] = e[2][1] = e31; e[2][2] = e33; e[1][3] = e[0][4] = e15; } return e; }
};
// generalized stresses of a cell (without penalty): mechanical stress, flux of the scalar field, and the strains they work on
struct Gen { V s, q, e, g; };
inline Gen kinetics(Kind k, const Mat& m, const Cell& c, int d, const V& u)
{
    Gen r; const int nd = dofs(k, d);
    if(k != THERMAL) r.e = strain(c, d, u, nd);
    if(k == MECH) r.s = isotropic(d, m.E, m.nu, r.e);
    if(k == THERMAL) { r.g = gradient(c, d, u, 1, 0); r.q = m.conduct(d, value_at(c, u, 1, 0), r.g); }
    if(k == TM) { V t = r.e; double T = value_at(c, u, nd, d); for(int i = 0; i < d; i++) t[i] -= m.scale * m.expand(T) * (T - m.Tref); r.s = isotropic(d, m.young(T), m.nu, t); r.g = gradient(c, d, u, nd, d); r.q = m.conduct(d, T, r.g); for(auto& x : r.q) x *= m.scale * m.scale; }
    if(k == EM)
    {
        r.g = gradient(c, d, u, nd, d); for(auto& x : r.g) x = -x; D e = m.piezo(d); r.s = isotropic(d, m.E, m.nu, r.e); r.q.assign(d, 0.0);
        for(size_t v = 0; v < r.s.size(); v++) for(int j = 0; j < d; j++) { r.s[v] -= m.a * r.g[j] * e[j][v]; r.q[j] += m.a * r.e[v] * e[j][v]; }
        for(int j = 0; j < d; j++) r.q[j] += m.a * m.a * (j == d - 1 ? m.p33 : m.p11) * r.g[j];
    }
    return r;
}
// loads: a side set "top" (faces f of the sorted boundary), body loads
struct Load { int kind = 0; }; // 0 none 1 uniform vector 2 pressure 3 component 4 body constant 5 body expression 6 uniform by index 7 scalar-field flux 8 two side sets and two body loads 9 uniform given as text
static const int NLOADS = 10;
struct Case
{
    Kind k; M m; Pen pen; int load = 0, blocks = 1; std::vector<int> blk; int var = 0; bool unscaled = false; // blk[cell] = block
    Mat mat(int b) const { Mat r = Mat::of(b); r.var = var; if(unscaled) r.scale = 1; return r; } Mat mat_of(int e) const { return mat(blocks == 1 ? 0 : blk[e]); }
    int d() const { return m.d; } int nd() const { return dofs(k, m.d); }
    std::string str() const { return vp::fmt("%s %s load %d blocks %d%s ", kind_name(k), pen.str().c_str(), load, blocks, var ? " temperature dependent" : "") + m.str(); }
    bool valid() const { if(k == THERMAL && (load == 2 || load == 3 || pen.type == "NoPenalty")) return false; return load != 7 || k == EM || k == TM; }
    bool x_exact() const { return true; }
};
inline bool color(Case& c, int code) // block of every cell from the bits of code (0: one block; false: no such layout)
{
    if(code == 0) { c.blocks = 1; c.blk.assign(c.m.ne(), 0); return true; }
    if(code >= (1 << c.m.ne()) - 1) return false; c.blocks = 2; c.blk.clear(); for(int e = 0; e < c.m.ne(); e++) c.blk.push_back((code >> e) & 1); return true;
}
inline std::vector<int> faces_of(const M& m, int set) { std::vector<int> r; auto b = boundary(m); for(size_t i = 0; i < b.size(); i++) if(set == 0 ? i % 2 == 0 : i == 1 || i == b.size() - 1) r.push_back(i); return r; }
// the flux vector of side set s for the first n dofs
inline V flux(int s, int n) { static const double f[2][4] = {{0.7, -0.4, 1.1, 0.3}, {-0.2, 0.9, 0.5, -0.6}}; return V(f[s], f[s] + n); }
inline const char* mech_bc(Kind k) { return k == THERMAL || k == MECH ? "Natural Boundary Conditions" : "Mechanical Natural Boundary Conditions"; }
inline const char* scal_bc(Kind k) { return k == EM ? "Electrical Natural Boundary Conditions" : "Thermal Natural Boundary Conditions"; }
inline int mech_dofs(Kind k, int d) { return k == THERMAL ? 1 : d; }
inline double expr_at(const V& x) { double y = x.size() > 1 ? x[1] : 0, z = x.size() > 2 ? x[2] : 0; return 1 + 0.5 * x[0] - 0.3 * y * x[0] + 0.2 * z; }
// faces are named by their vertices in m's own numbering, so that a renumbered mesh can carry the same loads
typedef std::vector<std::vector<int>> FaceList;
struct Sides { FaceList a, b; };
inline Sides default_sides(const M& m) { Sides s; auto b = boundary(m); for(int f : faces_of(m, 0)) s.a.push_back(b[f].n); for(int f : faces_of(m, 1)) s.b.push_back(b[f].n); return s; }
inline void set_sides(World& w, const Sides& s) { std::vector<int> a, b; for(auto& n : s.a) a.push_back(w.side_of(n)); for(auto& n : s.b) b.push_back(w.side_of(n)); w.sides("top", a); w.sides("end", b); }
inline void load_list(PL& p, Kind k, int d, int load)
{
    const std::string b = std::string(mech_bc(k)) + "/A/"; const int n = mech_dofs(k, d); V f = flux(0, n);
    auto uniform = [&](const std::string& at, const char* side, const V& v) { put(p, at + "Type", "Uniform"); put(p, at + "Sides", side); arr(p, at + "Values", v); };
    auto body = [&](const char* nm, int ix, const char* fn) { put(p, std::string("Body Loads/") + nm + "/Index", ix); put(p, std::string("Body Loads/") + nm + "/Function", fn); };
    const char* ex = d == 3 ? "1+0.5*x-0.3*y*x+0.2*z" : d == 2 ? "1+0.5*x-0.3*y*x" : "1+0.5*x";
    if(load == 1 || load == 8 || load == 10) uniform(b, "top", f);
    if(load == 2) { put(p, b + "Type", "Uniform Pressure"); put(p, b + "Sides", "top"); put(p, b + "Value", 1.3); }
    if(load == 3) { put(p, b + "Type", "Uniform Component"); put(p, b + "Sides", "top"); put(p, b + "Value", 1.3); put(p, b + "Component", d == 3 ? "z" : "y"); }
    if(load == 4 || load == 8) body("g", n - 1, "2.5");
    if(load == 5 || load == 8) body("h", 0, ex);
    if(load == 6) { put(p, b + "Type", "Uniform"); put(p, b + "Sides", "top"); put(p, b + "Value", 0.8); put(p, b + "Index", n - 1); }
    if(load == 7 || load == 11) { const std::string s = std::string(scal_bc(k)) + "/F/"; put(p, s + "Type", "Uniform"); put(p, s + "Sides", "top"); arr(p, s + "Values", {0.9}); if(load == 7) body("q", d, "1.7"); }
    if(load == 8 || load == 10) uniform(std::string(mech_bc(k)) + "/B/", "end", flux(1, n));
    if(load == 9) { put(p, b + "Type", "Uniform"); put(p, b + "Sides", "top"); std::vector<std::string> t; for(double x : f) t.push_back(vp::fmt("%g", x)); names(p, b + "Values", t); }
}
inline void block_list(World& w, PL& p, const Case& c)
{
    put(p, "PDE Constraint", "Elliptic"); pen_list(p, "Elliptic", c.pen); const int ne = c.m.ne();
    for(int b = 0; b < c.blocks; b++)
    {
        std::vector<int> e; for(int i = 0; i < ne; i++) if((c.blocks == 1 ? 0 : c.blk[i]) == b) e.push_back(i); const std::string n = vp::fmt("blk%d", b), mt = vp::fmt("mat%d", b); w.block(n, e);
        put(p, "Spatial Model/Domains/" + n + "dom/Element Block", n); put(p, "Spatial Model/Domains/" + n + "dom/Material Model", mt); c.mat(b).list(p, c.k, c.m.d, mt);
    }
}
inline Setup setup(const Case& c, const Sides& s) { return [c, s](World& w, PL& p) { set_sides(w, s); block_list(w, p, c); load_list(p, c.k, c.m.d, c.load); }; }
inline V external(const Case& c, const Sides& s, const V& z) // consistent nodal load of the applied tractions/fluxes and sources
{
    const int d = c.d(), nd = c.nd(), n = mech_dofs(c.k, d); V r(c.m.nv() * nd, 0.0); auto all = boundary(c.m); const double fs = c.k == THERMAL ? -1 : 1; // thermostatics: fluxes leave the body
    auto each = [&](const FaceList& l, std::function<void(const Face&, int, double)> fn) { for(auto nn : l) { std::sort(nn.begin(), nn.end()); for(auto& f : all) if(f.n == nn) for(int v : f.n) fn(f, v, f.size / d); } };
    auto vec = [&](const FaceList& l, const V& f) { each(l, [&](const Face&, int v, double w) { for(size_t i = 0; i < f.size(); i++) r[v * nd + i] += fs * w * f[i]; }); };
    auto body = [&](int dof, std::function<double(const V&)> fn) { for(int e = 0; e < c.m.ne(); e++) { Cell q = cell(c.m, e, z); for(int v : q.n) r[v * nd + dof] += q.vol * q.rho * fn(q.xc) / (d + 1); } };
    if(c.load == 1 || c.load == 8 || c.load == 9 || c.load == 10) vec(s.a, flux(0, n));
    if(c.load == 2) each(s.a, [&](const Face& f, int v, double) { for(int i = 0; i < d; i++) r[v * nd + i] += 1.3 * f.area[i] / d; });
    if(c.load == 3) { V f(n, 0.0); f[d == 3 ? 2 : 1] = 1.3; vec(s.a, f); }
    if(c.load == 4 || c.load == 8) body(n - 1, [](const V&) { return 2.5; });
    if(c.load == 5 || c.load == 8) body(0, expr_at);
    if(c.load == 6) { V f(n, 0.0); f[n - 1] = 0.8; vec(s.a, f); }
    if(c.load == 7) { each(s.a, [&](const Face&, int v, double w) { r[v * nd + d] += w * 0.9; }); body(d, [](const V&) { return 1.7; }); }
    if(c.load == 11) each(s.a, [&](const Face&, int v, double w) { r[v * nd + d] += w * 0.9; });
    if(c.load == 8 || c.load == 10) vec(s.b, flux(1, n));
    return r;
}
inline V internal(const Case& c, const V& u, const V& z)
{
    const int d = c.d(), nd = c.nd(); V r(c.m.nv() * nd, 0.0);
    for(int e = 0; e < c.m.ne(); e++)
    {
        Cell q = cell(c.m, e, z); Gen g = kinetics(c.k, c.mat_of(e), q, d, u); const double w = q.vol * c.pen(q.rho);
        if(!g.s.empty()) divergence(r, q, d, g.s, w, nd); if(!g.q.empty()) for(size_t a = 0; a < q.n.size(); a++) for(int j = 0; j < d; j++) r[q.n[a] * nd + nd - 1] += w * g.q[j] * q.g[a][j];
    }
    return r;
}
inline V reference(const Case& c, const Sides& s, const V& u, const V& z) { V r = internal(c, u, z), f = external(c, s, z); for(size_t i = 0; i < r.size(); i++) r[i] -= f[i]; return r; }
inline V state_of(const Case& c, int salt = 0) { return field(c.m.nv() * c.nd(), -1, 1, salt); }
inline V control_of(const Case& c, int salt = 7) { return field(c.m.nv(), 0.3, 0.95, salt); }
} // namespace vpm
