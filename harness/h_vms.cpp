// Pressure-stabilized (mixed) mechanics and thermomechanics: residual, pressure-gradient projection, energy, derivatives, and whole
// problems. One translation unit per physics and space dimension.
#include "phys.hpp"
#include "bc.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include "StabilizedMechanics.hpp"
#include "StabilizedThermomechanics.hpp"
#include "VectorFunctionVMS.hpp"
#include "StabilizedElastostaticEnergy.hpp"
#include "EllipticVMSProblem.hpp"
#include <mpi.h>
using namespace vpm; using vp::Dec;
namespace {
typedef Plato::PHYS<DIM> P; const int d = DIM, nd = DIM + 1 + TEMP, PD = DIM, TD = DIM + 1; // displacement, pressure, temperature
std::string sec(const std::string& n) { return vp::fmt("%s-%s%d", n.c_str(), TEMP ? "thermomechanics" : "mechanics", DIM); }
struct VCase
{
    M m; Pen pen, ppen; int load = 0, blocks = 1; std::vector<int> blk; double ps = 1; // ps: pressure scaling
    Mat mat_of(int e) const { return Mat::of(blocks == 1 ? 0 : blk[e]); }
    std::string str() const { return vp::fmt("penalty %s projection %s load %d blocks %d pressure scaling %g ", pen.str().c_str(), ppen.str().c_str(), load, blocks, ps) + m.str(); }
};
bool colored(VCase& c, int code) { Case q; q.m = c.m; if(!color(q, code)) return false; c.blocks = q.blocks; c.blk = q.blk; return true; }
Case loads_of(const VCase& c) { Case q; q.k = TEMP ? TM : EM; q.m = c.m; q.load = c.load; return q; } // side and body loads are those of the two-field physics (EM: names of the mechanical list)
void lists(World& w, PL& p, const VCase& c)
{
    set_sides(w, default_sides(c.m)); put(p, "PDE Constraint", "Elliptic"); pen_list(p, "Elliptic", c.pen); pen_list(p, "State Gradient Projection", c.ppen); put(p, "Material Models/Pressure Scaling", c.ps); // both are given: left out, the material takes its bulk modulus and the projection 1
    for(int b = 0; b < c.blocks; b++)
    {
        std::vector<int> e; for(int i = 0; i < c.m.ne(); i++) if((c.blocks == 1 ? 0 : c.blk[i]) == b) e.push_back(i); const std::string n = vp::fmt("blk%d", b), mt = vp::fmt("mat%d", b), q = "Material Models/" + mt + (TEMP ? "/Isotropic Linear Thermoelastic/" : "/Isotropic Linear Elastic/"); w.block(n, e); Mat a = Mat::of(b);
        put(p, "Spatial Model/Domains/" + n + "dom/Element Block", n); put(p, "Spatial Model/Domains/" + n + "dom/Material Model", mt); put(p, q + "Poissons Ratio", a.nu); put(p, q + "Youngs Modulus", a.E); put(p, q + "Pressure Scaling", c.ps);
        if(TEMP) { put(p, q + "Thermal Expansion Coefficient", a.alpha); put(p, q + "Thermal Conductivity Coefficient", a.k); put(p, q + "Reference Temperature", a.Tref); put(p, q + "Temperature Scaling", a.scale); }
    }
    load_list(p, TEMP ? TM : EM, d, c.load); if(c.load == 7) put(p, "Body Loads/q/Index", TD);
}
Setup setup_of(const VCase& c) { return [c](World& w, PL& p) { lists(w, p, c); }; }
// ---- reference
struct Kin { V dev, e, stab; double p, vol; V q; };
Kin kin(const VCase& c, int e, const Cell& k, const V& u, const V& pi)
{
    Mat a = c.mat_of(e); Kin r; r.e = strain(k, d, u, nd); V s = r.e; double tv = 0, th = 0; for(int i = 0; i < d; i++) tv += r.e[i];
    if(TEMP) { double T = value_at(k, u, nd, TD); for(int i = 0; i < d; i++) { s[i] -= a.scale * a.alpha * (T - a.Tref); th += a.scale * a.alpha * (T - a.Tref); } r.q = gradient(k, d, u, nd, TD); for(auto& x : r.q) x *= a.k * a.scale * a.scale; }
    const double l = a.E * a.nu / (1 + a.nu) / (1 - 2 * a.nu), mu = a.E / 2 / (1 + a.nu), K = l + 2 * mu / d; r.dev = isotropic(d, a.E, a.nu, s); for(int i = 0; i < d; i++) r.dev[i] -= K * (tv - th); // the pressure carries K times the volume strain
    r.p = c.ps * value_at(k, u, nd, PD); r.vol = c.ps * (tv - th - r.p / K); V g = gradient(k, d, u, nd, PD); const double tau = std::pow(k.vol, 2.0 / 3) / (2 * mu); for(int i = 0; i < d; i++) r.stab.push_back(c.ps * tau * (c.ps * g[i] - (pi.empty() ? 0 : value_at(k, pi, d, i)))); return r;
}
V ref(const VCase& c, const V& u, const V& pi, const V& z)
{
    V r(c.m.nv() * nd, 0.0); Case lc = loads_of(c); V ex = external(lc, default_sides(c.m), z); for(int v = 0; v < c.m.nv(); v++) for(int i = 0; i <= d; i++) { int j = i < d ? i : TEMP ? TD : -1; if(j >= 0) r[v * nd + j] -= ex[v * (d + 1) + i]; }
    for(int e = 0; e < c.m.ne(); e++)
    {
        Cell k = cell(c.m, e, z); Kin q = kin(c, e, k, u, pi); const double w = k.vol * c.pen(k.rho); divergence(r, k, d, q.dev, w, nd);
        for(int a = 0; a <= d; a++) { const int n = k.n[a] * nd; for(int i = 0; i < d; i++) { r[n + i] += w * q.p * k.g[a][i]; r[n + PD] -= w * q.stab[i] * k.g[a][i]; if(TEMP) r[n + TD] += w * q.q[i] * k.g[a][i]; } r[n + PD] += w * q.vol / (d + 1); }
    }
    return r;
}
V ref_projection(const VCase& c, const V& pi, const V& p, const V& z)
{
    V r(c.m.nv() * d, 0.0); for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); V g = gradient(k, d, p, 1, 0); for(int n : k.n) for(int i = 0; i < d; i++) r[n * d + i] += k.vol * c.ppen(k.rho) * (value_at(k, pi, d, i) - c.ps * g[i]) / (d + 1); } return r;
}
double ref_energy(const VCase& c, const V& u, const V& z) { double s = 0; for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); Kin q = kin(c, e, k, u, {}); V t = q.dev; for(int i = 0; i < d; i++) t[i] += q.p; s += k.vol * c.pen(k.rho) * dot(t, q.e); } return s; }
// gradient of the pressure spread to the nodes with row-summed weights
V spread_gradient(const VCase& c, const V& u, const V& z)
{
    V a(c.m.nv() * d, 0.0), w(c.m.nv(), 0.0); for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); V g = gradient(k, d, u, nd, PD); for(int n : k.n) { const double f = k.vol * c.ppen(k.rho); w[n] += f; for(int i = 0; i < d; i++) a[n * d + i] += f * c.ps * g[i]; } }
    for(int n = 0; n < c.m.nv(); n++) for(int i = 0; i < d; i++) a[n * d + i] /= w[n]; return a;
}
V dense_solve(D a, V b) { const int n = b.size(); for(int i = 0; i < n; i++) { int p = i; for(int r = i; r < n; r++) if(std::fabs(a[r][i]) > std::fabs(a[p][i])) p = r; std::swap(a[i], a[p]); std::swap(b[i], b[p]); for(int r = 0; r < n; r++) if(r != i && a[r][i] != 0) { double f = a[r][i] / a[i][i]; for(int k = i; k < n; k++) a[r][k] -= f * a[i][k]; b[r] -= f * b[i]; } } for(int i = 0; i < n; i++) b[i] /= a[i][i]; return b; }
// the equations for a given projected gradient, or (coupled) together with it; the residual is affine
V ref_solve(const VCase& c, const std::map<int, double>& f, const V& z, std::function<V(const V&)> res)
{
    const int n = c.m.nv() * nd; V o(n, 0.0), r0 = res(o); D a(n, V(n)); for(int k = 0; k < n; k++) { V u = o; u[k] = 1; V r = res(u); for(int i = 0; i < n; i++) a[i][k] = r[i] - r0[i]; } V b(n); for(int i = 0; i < n; i++) b[i] = -r0[i];
    for(auto& x : f) { a[x.first].assign(n, 0.0); a[x.first][x.first] = 1; b[x.first] = x.second; } return dense_solve(a, b);
}
V ref_coupled(const VCase& c, const std::map<int, double>& f, const V& z) { return ref_solve(c, f, z, [&](const V& u) { return ref(c, u, spread_gradient(c, u, z), z); }); }
// ---- the code
template<typename Q> struct Fun
{
    Sys s; Plato::VectorFunctionVMS<Q> f; Fun(const VCase& c, const char* n) : s(c.m, setup_of(c)), f(s.sm, s.dm, s.pl, n) {}
    V value(const V& u, const V& n, const V& z) { vp::calls(); return host(f.value(dev(u), dev(n), dev(z))); }
};
template<typename Q> void derivatives(const VCase& c, const char* name, const V& u, const V& n, const V& z)
{
    Fun<Q> r(c, name); auto U = dev(u), N = dev(n), Z = dev(z); D ju = dense(r.f.gradient_u(U, N, Z)), jt = dense(r.f.gradient_u_T(U, N, Z)); vp::calls(2); same(jt, transpose(ju, u.size()), "transposed Jacobian", 1e-13); const bool body = c.load == 4 || c.load == 5 || c.load == 7 || c.load == 8;
    derivative([&](const V& y) { return r.value(y, n, z); }, u, transpose(ju, u.size()), "residual by state", 1e-3, 1e-7); derivative([&](const V& y) { return r.value(u, y, z); }, n, dense(r.f.gradient_n_T(U, N, Z)), "residual by nodal state", 1e-3, 1e-7);
    derivative([&](const V& y) { return r.value(u, n, y); }, z, dense(r.f.gradient_z(U, N, Z)), "residual by control", 1e-3, 1e-7); if(!body) derivative([&](const V& y) { VCase q = c; q.m.x = y; Fun<Q> s(q, name); return s.value(u, n, z); }, c.m.x, dense(r.f.gradient_x(U, N, Z)), "residual by coordinates", 1e-3, 1e-7);
    // the same derivatives cell by cell
    auto ws = [&](const Plato::ScalarArray3D& a, const D& want, int rows, int cols, const char* what) { D g(want.size(), V(want[0].size(), 0.0)); vp::check((int)a.extent(0) == c.m.ne(), "%s: %d cells", what, (int)a.extent(0)); for(int e = 0; e < c.m.ne(); e++) for(int p = 0; p < (d + 1) * rows; p++) for(int q = 0; q < (d + 1) * cols; q++) g[c.m.c[e * (d + 1) + q / cols] * cols + q % cols][c.m.c[e * (d + 1) + p / rows] * rows + p % rows] += a(e, p, q); same(g, want, what, 1e-12); };
    const int R = u.size() / c.m.nv(), C = n.size() / c.m.nv(); ws(r.f.gradient_n_workset(U, N, Z), dense(r.f.gradient_n_T(U, N, Z)), R, C, "cell derivatives by nodal state"); ws(r.f.gradient_z_workset(U, N, Z), dense(r.f.gradient_z(U, N, Z)), R, 1, "cell derivatives by control"); ws(r.f.gradient_x_workset(U, N, Z), dense(r.f.gradient_x(U, N, Z)), R, d, "cell derivatives by coordinates");
}
struct VProb
{
    World w; PL pl; std::shared_ptr<Plato::EllipticVMSProblem<P>> p;
    VProb(const VCase& c, const std::map<int, double>& f, int its, int steps) : w(c.m)
    {
        mpi(); lists(w, pl, c); put(pl, "Newton Iteration/Number Iterations", its); put(pl, "Time Stepping/Number Time Steps", steps); put(pl, "Time Stepping/Time Step", 1.0); put(pl, "Linear Solver/Tolerance", 1e-15); put(pl, "Linear Solver/Iterations", 1000);
        put(pl, "Criteria/v/Type", "Scalar Function"); put(pl, "Criteria/v/Linear", true); put(pl, "Criteria/v/Scalar Function Type", "Volume"); pen_list(pl, "Criteria/v", c.pen);
        if(!TEMP) { put(pl, "Criteria/f/Type", "Scalar Function"); put(pl, "Criteria/f/Linear", false); put(pl, "Criteria/f/Scalar Function Type", "Internal Elastic Energy"); pen_list(pl, "f", c.pen); pen_list(pl, "Criteria/f", c.pen); }
        MPI_Comm self = MPI_COMM_SELF; p = std::make_shared<Plato::EllipticVMSProblem<P>>(w.mesh, w.sets, pl, Plato::Comm::Machine(self)); Plato::LocalOrdinalVector q("d", f.size()); Plato::ScalarVector v("v", f.size()); int k = 0; for(auto& a : f) { q(k) = a.first; v(k++) = a.second; } p->setEssentialBoundaryConditions(q, v);
    }
    std::vector<V> solve(const V& z) { vp::calls(); auto s = p->solution(dev(z)).State; std::vector<V> r(s.extent(0)); for(size_t k = 0; k < s.extent(0); k++) for(size_t i = 0; i < s.extent(1); i++) r[k].push_back(s(k, i)); return r; }
};
std::map<int, double> supports(const M& m, int bc) { std::map<int, double> r; for(int v = 0; v < d; v++) for(int i = 0; i < nd; i++) if(i != PD) r[v * nd + i] = bc ? 0.3 * mix(v * nd + i, 40) - 0.1 : 0.0; if(bc >= 2) r[(m.nv() - 1) * nd] = 0.23; return r; }
static const double PS[] = {1.0, 2.5}; const int LD[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 7}; const int NL = TEMP ? 10 : 9;
V state(const M& m, int salt = 1) { return field(m.nv() * nd, -1, 1, salt); } V grads(const M& m, int salt = 2) { return field(m.nv() * d, -1, 1, salt); } V control(const M& m, int salt = 7) { return field(m.nv(), 0.3, 0.95, salt); }
Part part([] {
    static const int NP = vp::thorough() ? 4 : 2; static const std::vector<int> SL = vp::thorough() ? std::vector<int>(LD, LD + NL) : TEMP ? std::vector<int>{0, 2, 8, 7} : std::vector<int>{0, 2, 8}; static const int NS = SL.size();
    vp::section(sec("residual"), 3 * PENS.size() * 2 * NL * 8, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, q.take(3))); c.pen = q.pick(PENS); c.ps = q.pick(PS); c.load = LD[q.take(NL)]; bool ok = colored(c, q.take(8)); if(!ok) { vp::skip(); return; } vp::input(c.str()); V u = state(c.m), n = grads(c.m), z = control(c.m);
        Fun<P> r(c, "Elliptic"); same(r.value(u, n, z), ref(c, u, n, z), "residual"); V u2 = state(c.m, 5), n2 = grads(c.m, 6), z2 = control(c.m, 9); same(r.value(u2, n2, z2), ref(c, u2, n2, z2), "residual, second evaluation"); vp::obs(ref(c, u, n, z)[0]);
    });
    vp::section(sec("residual-derivatives"), 3 * NP * 2 * NL * 3, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, q.take(3))); c.pen = PENS[q.take(NP)]; c.ps = q.pick(PS); c.load = LD[q.take(NL)]; bool ok = colored(c, q.take(3)); if(!ok) { vp::skip(); return; } vp::input("derivatives " + c.str()); derivatives<P>(c, "Elliptic", state(c.m), grads(c.m), control(c.m));
    });
    vp::section(sec("projection"), 3 * PENS.size() * 2 * 8, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, q.take(3))); c.ppen = q.pick(PENS); c.ps = q.pick(PS); bool ok = colored(c, q.take(8)); if(!ok) { vp::skip(); return; } vp::input("projection " + c.str()); V n = grads(c.m), p = field(c.m.nv(), -1, 1, 3), z = control(c.m);
        Fun<typename P::ProjectorT> r(c, "State Gradient Projection"); same(r.value(n, p, z), ref_projection(c, n, p, z), "projection"); derivatives<typename P::ProjectorT>(c, "State Gradient Projection", n, p, z);
    });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(d, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(d).size(), m.ne());
        vp::section(sec(vp::fmt("numbering%d", sh)), A + B - 1, [=](u64 i) {
            Numbered nb = renumber(m, i < A ? i : (i - A + 1) * A); VCase c; c.m = nb.m; c.ps = 2.5; c.load = 8; colored(c, m.ne() > 1 ? 1 : 0); vp::input(c.str()); V u = state(c.m), n = grads(c.m), z = control(c.m), p = field(c.m.nv(), -1, 1, 3);
            Fun<P> r(c, "Elliptic"); same(r.value(u, n, z), ref(c, u, n, z), "residual"); Fun<typename P::ProjectorT> s(c, "State Gradient Projection"); same(s.value(n, p, z), ref_projection(c, n, p, z), "projection");
        });
    }
#if !TEMP
    vp::section(sec("energy"), 3 * PENS.size() * 2 * 8, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, q.take(3))); c.pen = q.pick(PENS); c.ps = q.pick(PS); bool ok = colored(c, q.take(8)); if(!ok) { vp::skip(); return; } vp::input("energy " + c.str()); V u = state(c.m), z = control(c.m);
        Setup st = [&](World& w, PL& p) { lists(w, p, c); put(p, "Criteria/crit/Type", "Scalar Function"); put(p, "Criteria/crit/Linear", false); put(p, "Criteria/crit/Scalar Function Type", "Internal Elastic Energy"); pen_list(p, "Criteria/crit", c.pen); };
        Cri<P> r(c.m, st); same(V(1, r.value({u}, z)), V(1, ref_energy(c, u, z)), "internal elastic energy"); criterion_derivatives<P>(c.m, st, {u}, z, 1e-3, 1e-7);
    });
#endif
    // one iteration solves with no projected gradient, the second with that of the first; every step starts anew
    vp::section(sec("solve"), 3 * 2 * 2 * NS * 3 * 3 * 4, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, q.take(3))); c.pen = PENS[q.take(2)]; c.ppen = q.take(2) ? PENS[0] : PENS[2]; c.ps = 1; c.load = SL[q.take(NS)]; bool ok = colored(c, q.take(3)); const int bc = q.take(3), var = q.take(4), its = var == 3 ? 3 : 1 + var % 2, steps = var < 2 ? 2 : var == 2 ? 4 : 2; if(!ok) { vp::skip(); return; }
        auto f = supports(c.m, bc); V z = control(c.m), z2 = control(c.m, 9); vp::input(vp::fmt("%d iterations, %d steps, supports %d ", its, steps, bc) + c.str()); VProb p(c, f, its, steps);
        for(int rep = 0; rep < 2; rep++)
        {
            const V& y = rep ? z2 : z; auto s = p.solve(y); vp::eqi(s.size(), steps, "states"); V none(c.m.nv() * d, 0.0), pi = none, bad = none, u; D dummy;
            auto with = [&](const V& g) { return ref_solve(c, f, y, [&](const V& v) { return ref(c, v, g, y); }); }; u = with(none); for(int k = 1; k < its; k++) u = with(spread_gradient(c, u, y));
            same(s[0], V(c.m.nv() * nd, 0.0), "initial state"); for(int k = 1; k < steps; k++)
            {
                for(auto& x : f) if(!(std::fabs(s[k][x.first] - x.second) <= 1e-10)) vp::fail("step %d: prescribed dof %d is %.15g, given %.15g", k, x.first, s[k][x.first], x.second);
                if(its == 3) { double sc = std::fmax(big(u), 1e-12), er = 0; for(size_t j = 0; j < u.size(); j++) er = std::fmax(er, std::fabs(u[j] - s[k][j]) / sc); if(!(er <= 1e-7)) vp::known("vms-third-iteration", "with three iterations the projected pressure gradient is not that of the last pressure"); }
                else same(s[k], u, vp::fmt("state of step %d", k).c_str(), 1e-7);
            }
        }
    });
#if !TEMP
    // at the solution of the coupled equations the gradient is the total derivative of the energy
    vp::section(sec("gradient"), (d == 3 ? 1 : 2) * 2 * 3 * 3 * 3 * 2, [](u64 i) {
        static const int L[] = {0, 1, 8}; Dec q(i); VCase c; c.m = orient(shape(d, d == 3 ? 2 : 1 + q.take(2))); /* too few cells: the stabilization vanishes and the coupled equations are singular */ c.pen = PENS[q.take(2)]; c.ppen = PENS[2]; c.ps = 1; c.load = q.pick(L); bool ok = colored(c, q.take(3)); const int bc = q.take(3), steps = 2 + q.take(2); if(!ok || (bc == 0 && c.load == 0)) { vp::skip(); return; }
        auto f = supports(c.m, bc); V z = control(c.m); vp::input(vp::fmt("gradient, %d steps, supports %d ", steps, bc) + c.str()); VProb p(c, f, 2, steps); V u = ref_coupled(c, f, z); std::vector<V> h(steps, u); h[0].assign(u.size(), 0.0); Plato::Solution s(states(h)); const double n = steps - 1; vp::calls(2);
        auto total = [&](const V& y) { return V(1, n * ref_energy(c, ref_coupled(c, f, y), y)); }; same(V(1, p.p->criterionValue(dev(z), s, "f")), total(z), "energy of all steps", 1e-9); V g = host(p.p->criterionGradient(dev(z), s, "f")); derivative(total, z, column(g), "total gradient by control", 1e-3, 1e-6, 1e-8);
        p.p->setGlobalSolution(s); same(host(p.p->criterionGradient(dev(z), "f")), g, "gradient at the stored solution", 1e-8); same(V(1, p.p->criterionValue(dev(z), "f")), total(z), "energy at the stored solution", 1e-9);
        double vol = 0; V gv(c.m.nv(), 0.0); for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); vol += k.vol * c.pen(k.rho); } same(V(1, p.p->criterionValue(dev(z), "v")), V(1, vol), "volume", 1e-12);
        if(c.load != 8) { V gx = host(p.p->criterionGradientX(dev(z), s, "f")); auto tx = [&](const V& y) { VCase r = c; r.m.x = y; return V(1, n * ref_energy(r, ref_coupled(r, f, z), z)); }; double er = 0, sc = 1e-8; for(size_t k = 0; k < c.m.x.size(); k++) { double w = quotient(tx, c.m.x, k, 1e-3)[0]; sc = std::fmax(sc, std::fabs(w)); er = std::fmax(er, std::fabs(w - gx[k])); } vp::check(gx.size() == c.m.x.size(), "%d entries", (int)gx.size()); if(!(er <= 1e-6 * sc)) vp::known("vms-shape-adjoint", "the shape gradient of a stabilized problem is not the derivative of the criterion"); }
        bool t = vp::throws([&] { p.p->criterionValue(dev(z), s, "other"); }); vp::check(t, "an unknown criterion was accepted"); t = vp::throws([&] { p.p->criterionGradient(dev(z), s, "other"); }); vp::check(t, "gradient of an unknown criterion was accepted");
    });
    vp::section(sec("gradient-projection"), (d == 3 ? 1 : 2) * 2 * 3, [](u64 i) {
        Dec q(i); VCase c; c.m = orient(shape(d, d == 3 ? 2 : 1 + q.take(2))); c.pen = PENS[q.take(2)]; c.ppen = PENS[0]; c.load = 1; const int bc = q.take(3); colored(c, 0); auto f = supports(c.m, bc); V z = control(c.m); vp::input(vp::fmt("gradient with penalized projection, supports %d ", bc) + c.str()); VProb p(c, f, 2, 2); V u = ref_coupled(c, f, z); Plato::Solution s(states({V(u.size(), 0.0), u}));
        V g = host(p.p->criterionGradient(dev(z), s, "f")); auto total = [&](const V& y) { return V(1, ref_energy(c, ref_coupled(c, f, y), y)); }; double er = 0, sc = 1e-8; for(size_t k = 0; k < z.size(); k++) { double w = quotient(total, z, k, 1e-3)[0]; sc = std::fmax(sc, std::fabs(w)); er = std::fmax(er, std::fabs(w - g[k])); } if(!(er <= 1e-6 * sc)) vp::known("vms-control-adjoint", "with a penalized projection the gradient of a stabilized problem is not the derivative of the criterion");
    });
#endif
    vp::section(sec("malformed"), 4, [](u64 i) {
        static const char* n[] = {"unknown penalty", "unknown penalty of the projection", "unknown equation", "prescribed dofs and values of different number"}; vp::input(n[i]); vp::obs(n[i]); VCase c; c.m = orient(shape(d, 1)); colored(c, 0);
        bool t = vp::throws([&] { if(i == 0) c.pen.type = "Weird"; if(i == 1) c.ppen.type = "Weird"; if(i == 2) { Fun<P> f(c, "Parabolic"); f.value(state(c.m), grads(c.m), control(c.m)); } else if(i == 1) { Fun<typename P::ProjectorT> f(c, "State Gradient Projection"); } else if(i == 0) { Fun<P> f(c, "Elliptic"); } else { VProb p(c, supports(c.m, 0), 2, 2); p.p->setEssentialBoundaryConditions(Plato::LocalOrdinalVector("d", 3), Plato::ScalarVector("v", 2)); } }); vp::check(t, "%s was accepted", n[i]);
    });
});
} // namespace
