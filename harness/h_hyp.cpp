// Transient mechanics over whole meshes: residual, criteria, derivatives, Newmark rule (VP_PROP 36); time stepping, total gradients and
// call sequences (37). One translation unit per space dimension.
#include "crit.hpp"
#include "bc.hpp"
#include "hyperbolic/HyperbolicMechanics.hpp"
#include "hyperbolic/HyperbolicVectorFunction.hpp"
#include "hyperbolic/HyperbolicScalarFunctionFactory.hpp"
#include "hyperbolic/HyperbolicScalarFunctionFactory_def.hpp"
#include "hyperbolic/Newmark.hpp"
#include "out.hpp"
#if VP_PROP >= 37
#include "hyperbolic/HyperbolicProblem.hpp"
#endif
using namespace vpm; using vp::Dec;
namespace {
typedef Plato::Hyperbolic::Mechanics<DIM> P; const Kind K = MECH;
std::string sec(const char* n) { return vp::fmt("%s-%d", n, DIM); }
static const std::vector<Pen> PP = {{"SIMP", 3, 1e-9}, {"RAMP", 2, 0.01}, {"SIMP", 1, 0.2}};
static const int LD[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 13}; const int NL = 10;
struct HCase : Case { int damp = 0; double time = 0; std::string str() const { return vp::fmt("damping %d time %g ", damp, time) + Case::str(); } }; // damping 0 none, 1 mass, 2 stiffness, 3 both, 4 both, second material only
HCase start(int sh) { HCase c; c.k = K; c.m = orient(shape(DIM, sh)); color(c, 0); return c; }
double density(int b) { return b ? 0.6 : 1.4; } double ray_a(const HCase& c, int b) { return c.damp == 1 || c.damp == 3 || (c.damp == 4 && b) ? 0.3 + 0.4 * b : 0; } double ray_b(const HCase& c, int b) { return c.damp == 2 || c.damp == 3 || (c.damp == 4 && b) ? 0.2 - 0.07 * b : 0; }
void hyp_list(PL& p, const HCase& c)
{
    put(p, "PDE Constraint", "Hyperbolic"); pen_list(p, "Hyperbolic", c.pen); for(int b = 0; b < c.blocks; b++) { const std::string a = vp::fmt("Material Models/mat%d/Isotropic Linear Elastic/", b); put(p, a + "Mass Density", density(b)); if(ray_a(c, b)) put(p, a + "RayleighA", ray_a(c, b)); if(ray_b(c, b)) put(p, a + "RayleighB", ray_b(c, b)); }
    const std::string n = "Natural Boundary Conditions/A/"; if(c.load == 12) { put(p, n + "Type", "Uniform"); put(p, n + "Sides", "top"); std::vector<std::string> t; for(double x : flux(0, DIM)) t.push_back(vp::fmt("%g*(1+2*t)", x)); names(p, n + "Values", t); } if(c.load == 13) { put(p, n + "Type", "Uniform"); put(p, n + "Sides", "top"); put(p, n + "Value", "0.8*(1+2*t)"); put(p, n + "Index", DIM - 1); }
}
Setup hsetup(const HCase& c, const Sides& s) { Setup q = setup(c, s); return [=](World& w, PL& p) { q(w, p); hyp_list(p, c); }; }
V load_of(const HCase& c, const Sides& s, const V& z) { Case e = c; double f = 1; if(c.load > 11) { e.load = c.load == 12 ? 1 : 6; f = 1 + 2 * c.time; } V r = external(e, s, z); for(auto& x : r) x *= f; return r; }
V hinner(const HCase& c, const V& u, const V& v, const V& a, const V& z)
{
    const int d = DIM; V r(c.m.nv() * d, 0.0); for(int e = 0; e < c.m.ne(); e++)
    {
        Cell q = cell(c.m, e, z); int b = c.blocks == 1 ? 0 : c.blk[e]; const double w = q.vol * c.pen(q.rho), ra = ray_a(c, b), rb = ray_b(c, b); V s = kinetics(K, c.mat(b), q, d, u).s, t = kinetics(K, c.mat(b), q, d, v).s; for(size_t i = 0; i < s.size(); i++) s[i] += rb * t[i]; divergence(r, q, d, s, w, d);
        for(int n : q.n) for(int i = 0; i < d; i++) r[n * d + i] += w * density(b) * (value_at(q, a, d, i) + ra * value_at(q, v, d, i)) / (d + 1);
    }
    return r;
}
V href(const HCase& c, const Sides& s, const V& u, const V& v, const V& a, const V& z) { V r = hinner(c, u, v, a, z), f = load_of(c, s, z); for(size_t i = 0; i < r.size(); i++) r[i] -= f[i]; return r; }
struct HRes
{
    Sys s; std::string n = "Hyperbolic"; Plato::Hyperbolic::VectorFunction<P> f; double t;
    HRes(const M& m, const Setup& q, double time) : s(m, q), f(s.sm, s.dm, s.pl, n), t(time) {}
    V value(const V& u, const V& v, const V& a, const V& z) { vp::calls(); return host(f.value(dev(u), dev(v), dev(a), dev(z), 0.1, t)); }
    D g(char k, const V& u, const V& v, const V& a, const V& z) { vp::calls(); auto U = dev(u), W = dev(v), A = dev(a), Z = dev(z); return dense(k == 'u' ? f.gradient_u(U, W, A, Z, 0.1, t) : k == 'v' ? f.gradient_v(U, W, A, Z, 0.1, t) : k == 'a' ? f.gradient_a(U, W, A, Z, 0.1, t) : k == 'z' ? f.gradient_z(U, W, A, Z, 0.1, t) : f.gradient_x(U, W, A, Z, 0.1, t)); }
};
bool body(int load) { return load == 4 || load == 5 || load == 8; }
void hderiv(const M& m, const Setup& q, const HCase& c, const V& u, const V& v, const V& a, const V& z)
{
    HRes r(m, q, c.time); const double tol = 1e-7, h = 1e-3; const size_t n = u.size(); derivative([&](const V& y) { return r.value(y, v, a, z); }, u, transpose(r.g('u', u, v, a, z), n), "residual by displacement", h, tol); derivative([&](const V& y) { return r.value(u, y, a, z); }, v, transpose(r.g('v', u, v, a, z), n), "residual by velocity", h, tol); derivative([&](const V& y) { return r.value(u, v, y, z); }, a, transpose(r.g('a', u, v, a, z), n), "residual by acceleration", h, tol);
    derivative([&](const V& y) { return r.value(u, v, a, y); }, z, r.g('z', u, v, a, z), "residual by control", h, tol); if(!body(c.load)) derivative([&](const V& y) { HRes s(moved(m, y), q, c.time); return s.value(u, v, a, z); }, m.x, r.g('x', u, v, a, z), "residual by coordinates", h, tol);
}
static const std::vector<Crit> CC = {{ENERGY}, {PNORM, 2}, {PNORM, 4}};
double hcrit_value(const Case& c, const Crit& q, const std::vector<V>& u, const V& z) // the initial state does not count; energy: the integral of stress times strain
{
    double r = 0; for(size_t k = 1; k < u.size(); k++) { double x = crit_value(c, q, u[k], z); r += q.t == PNORM ? std::pow(x, q.p) : 2 * x; } return q.t == PNORM ? std::pow(r, 1 / q.p) : r;
}
struct HCri
{
    Sys s; std::shared_ptr<Plato::Hyperbolic::ScalarFunctionBase> f; typedef std::vector<V> H;
    HCri(const M& m, const Setup& q, std::string name = "crit") : s(m, q) { Plato::Hyperbolic::ScalarFunctionFactory<P> k; f = k.create(s.sm, s.dm, s.pl, name); vp::check(f != nullptr, "criterion was not created"); }
    Plato::Solution sol(const H& u, const H& v, const H& a) { return Plato::Solution(states(u), states(v), states(a)); }
    double value(const H& u, const H& v, const H& a, const V& z) { vp::calls(); return f->value(sol(u, v, a), dev(z), 0.1); }
    V g(char k, const H& u, const H& v, const H& a, const V& z, int i = 0) { vp::calls(); auto S = sol(u, v, a); auto Z = dev(z); return host(k == 'u' ? f->gradient_u(S, Z, i, 0.1) : k == 'v' ? f->gradient_v(S, Z, i, 0.1) : k == 'a' ? f->gradient_a(S, Z, i, 0.1) : k == 'z' ? f->gradient_z(S, Z, 0.1) : f->gradient_x(S, Z, 0.1)); }
};
std::vector<V> hist(const Case& c, int n, int salt) { std::vector<V> r; for(int k = 0; k < n; k++) r.push_back(state_of(c, salt + k)); return r; }
#if VP_PROP >= 37
struct Time { int steps; double dt, gamma, beta; std::string str() const { return vp::fmt("%d steps of %g, gamma %g beta %g", steps, dt, gamma, beta); } };
// initial fields: bit 0 displacement of the last component, bit 1 velocity of the first
double init_at(int i, const V& x, int n) { return i ? 0.3 - 0.2 * x[n * DIM + 1] : 0.1 + 0.25 * x[n * DIM]; }
V initial(const M& m, int in, int which) { V r(m.nv() * DIM, 0.0); for(int n = 0; n < m.nv(); n++) { if(!which && (in & 1)) r[n * DIM + DIM - 1] = init_at(0, m.x, n); if(which && (in & 2)) r[n * DIM] = init_at(1, m.x, n); } return r; }
void init_list(PL& p, int in) { if(!in) return; put(p, "Computed Fields/a/Function", "0.1+0.25*x"); put(p, "Computed Fields/b/Function", "0.3-0.2*y"); if(in & 1) put(p, std::string("Initial State/Displacement ") + (DIM == 3 ? "Z" : "Y") + "/Computed Field", "a"); if(in & 2) put(p, "Initial State/Velocity X/Computed Field", "b"); }
std::map<int, double> hfixed(const M& m, int bc, double t) { auto f = fixed(K, m, bc == 3 ? 1 : bc); if(bc == 3) for(auto& a : f) a.second *= 1 + 3 * t; return f; }
struct HProb
{
    World w; PL pl; std::shared_ptr<Plato::HyperbolicProblem<P>> p; Time t; std::vector<V> u, v, a;
    HProb(const M& m, const Setup& s, int bc, const Time& tm) : w(m), t(tm)
    {
        mpi(); s(w, pl); bc_list(K, w, pl, bc == 3 ? 1 : bc); PL& D = pl.sublist("Displacement Boundary Conditions"); D = pl.sublist("Essential Boundary Conditions"); if(bc == 3) for(auto& f : fixed(K, m, 1)) { PL& l = D.sublist(vp::fmt("b%d", f.first)); l.remove("Value"); l.set("Type", std::string("Time Dependent")); l.set("Function", std::string(vp::fmt("%.17g*(1+3*t)", f.second))); }
        put(pl, "Linear Solver/Tolerance", 1e-15); put(pl, "Linear Solver/Iterations", 500); const std::string b = "Time Integration/"; put(pl, b + "Number Time Steps", t.steps); put(pl, b + "Time Step", t.dt); put(pl, b + "Newmark Gamma", t.gamma); put(pl, b + "Newmark Beta", t.beta); MPI_Comm self = MPI_COMM_SELF; p = std::make_shared<Plato::HyperbolicProblem<P>>(w.mesh, w.sets, pl, Plato::Comm::Machine(self));
    }
    void solve(const V& z)
    {
        vp::calls(); auto s = p->solution(dev(z)); auto get = [&](const Plato::ScalarMultiVector& x, std::vector<V>& o) { o.clear(); vp::check((int)x.extent(0) == t.steps, "%d states for %d steps", (int)x.extent(0), t.steps); for(int k = 0; k < t.steps; k++) { V r; for(size_t i = 0; i < x.extent(1); i++) r.push_back(x(k, i)); o.push_back(r); } }; get(s.State, u); get(s.StateDot, v); get(s.StateDotDot, a);
    }
    double value(const V& z, const std::string& n = "crit") { vp::calls(); return p->criterionValue(dev(z), n); } V gz(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradient(dev(z), n)); } V gx(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradientX(dev(z), n)); }
    V all() const { V r; for(auto* h : {&u, &v, &a}) for(auto& x : *h) r.insert(r.end(), x.begin(), x.end()); return r; }
};
void stepping(HCase c, const Sides& s, int bc, int in, const HProb& p, const V& z)
{
    const Time& t = p.t; const double dt = t.dt; same(p.u[0], initial(c.m, in, 0), "initial displacement"); same(p.v[0], initial(c.m, in, 1), "initial velocity"); same(p.a[0], V(p.u[0].size(), 0.0), "initial acceleration");
    for(int k = 1; k < t.steps; k++)
    {
        c.time = k * dt; auto f = hfixed(c.m, bc, c.time); const V &u = p.u[k], &v = p.v[k], &a = p.a[k], &u0 = p.u[k - 1], &v0 = p.v[k - 1], &a0 = p.a[k - 1]; const double uu = std::fmax(big(u), big(u0));
        for(size_t i = 0; i < u.size(); i++)
        {
            const double un = u0[i] + dt * v0[i] + dt * dt * ((0.5 - t.beta) * a0[i] + t.beta * a[i]), vn = v0[i] + dt * ((1 - t.gamma) * a0[i] + t.gamma * a[i]); vp::obs(u[i]);
            if(!(std::fabs(u[i] - un) <= 1e-10 * (uu + dt * (big(v0) + dt * (big(a0) + big(a)))))) vp::fail("step %d: displacement %d is %.12g, the Newmark rule gives %.12g", k, (int)i, u[i], un); if(!(std::fabs(v[i] - vn) <= 1e-10 * (uu / dt + big(v0) + dt * (big(a0) + big(a))))) vp::fail("step %d: velocity %d is %.12g, the Newmark rule gives %.12g", k, (int)i, v[i], vn);
        }
        V in_ = hinner(c, u, v, a, z), ex = load_of(c, s, z); double sc = std::fmax(1e-6, std::fmax(big(in_), big(ex))); { V ia = hinner(c, V(u.size(), 0.0), V(u.size(), 0.0), a, z), iu = hinner(c, u, v, V(u.size(), 0.0), z); sc = std::fmax(sc, std::fmax(big(ia), big(iu))); }
        for(size_t i = 0; i < u.size(); i++) if(f.count(i)) { if(!(std::fabs(u[i] - f[i]) <= 1e-10)) vp::fail("step %d: prescribed dof %d is %.15g, given %.15g", k, (int)i, u[i], f[i]); } else if(!(std::fabs(in_[i] - ex[i]) <= 1e-8 * sc)) vp::fail("step %d: dof %d is out of balance by %.3g (scale %.3g)", k, (int)i, in_[i] - ex[i], sc);
    }
    vp::core().cur_checks += p.u.size() * p.u[0].size() * 3;
}
static const std::vector<Time> TT = {{3, 0.1, 0.5, 0.25}, {4, 0.5, 0.6, 0.4}, {2, 1.5, 0.5, 0.25}, {1, 0.1, 0.5, 0.25}};
const char* OPS[] = {"solve a", "solve b", "value f", "gradient f", "shape gradient f", "value g", "gradient g"}; const int NOPS = 7;
#endif
Part part([] {
#if VP_PROP == 36
    vp::section(sec("value"), 3 * NL * PP.size() * 16 * 5 * 2, [](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); c.load = LD[q.take(NL)]; c.pen = q.pick(PP); bool ok = color(c, q.take(16)); c.damp = q.take(5); int st = q.take(2); if(!ok || (c.damp == 4 && c.blocks == 1)) { vp::skip(); return; } const int n = c.m.nv() * DIM; c.time = st ? 0.75 : 0; V u = state_of(c, st), v = field(n, -2, 2, 30 + st), a = field(n, -1, 3, 60 + st), z = control_of(c, st ? 3 : 7);
        vp::input(c.str()); Sides s = default_sides(c.m); HRes r(c.m, hsetup(c, s), c.time); same(r.value(u, v, a, z), href(c, s, u, v, a, z), "residual");
    });
    vp::section(sec("deriv"), 3 * NL * PP.size() * 3 * 5, [](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); c.load = LD[q.take(NL)]; c.pen = q.pick(PP); bool ok = color(c, q.take(3)); c.damp = q.take(5); if(!ok || (c.damp == 4 && c.blocks == 1) || (!vp::thorough() && c.m.ne() == 3 && (c.load > 1 && c.load < 12))) { vp::skip(); return; } c.time = 0.75; vp::input(c.str()); Sides s = default_sides(c.m); const int n = c.m.nv() * DIM; hderiv(c.m, hsetup(c, s), c, state_of(c), field(n, -2, 2, 31), field(n, -1, 3, 61), control_of(c));
    });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 40000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) {
            HCase c = start(sh); Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; c.load = 12; c.damp = 3; c.time = 0.75; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str()); Sides s = default_sides(m); for(auto* l : {&s.a, &s.b}) for(auto& f : *l) for(auto& n : f) n = nb.node[n];
            const int n = c.m.nv() * DIM; V u = state_of(c), v = field(n, -2, 2, 31), a = field(n, -1, 3, 61), z = control_of(c); HRes r(c.m, hsetup(c, s), c.time); same(r.value(u, v, a, z), href(c, s, u, v, a, z), "residual"); if(sh == 0) hderiv(c.m, hsetup(c, s), c, u, v, a, z);
        });
    }
    vp::section(sec("criterion"), 3 * CC.size() * PP.size() * 16 * 3, [](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); Crit t = q.pick(CC); c.pen = q.pick(PP); bool ok = color(c, q.take(16)); int n = q.take(3) + 2; if(!ok) { vp::skip(); return; } auto u = hist(c, n, 0), v = hist(c, n, 50), a = hist(c, n, 70); V z = control_of(c); vp::input(t.str() + vp::fmt(", %d steps, ", n) + c.str());
        HCri r(c.m, [&](World& w, PL& p) { hsetup(c, default_sides(c.m))(w, p); crit_list(p, K, DIM, t, c.pen, "crit"); }); same(V(1, r.value(u, v, a, z)), V(1, hcrit_value(c, t, u, z)), "criterion");
    });
    vp::section(sec("criterion-deriv"), 3 * CC.size() * PP.size() * 3 * 3, [](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); Crit t = q.pick(CC); c.pen = q.pick(PP); bool ok = color(c, q.take(3)); int n = q.take(3) + 2; if(!ok) { vp::skip(); return; } auto u = hist(c, n, 0), v = hist(c, n, 50), a = hist(c, n, 70); V z = control_of(c); vp::input(t.str() + vp::fmt(", %d steps, ", n) + c.str());
        Setup s = [&](World& w, PL& p) { hsetup(c, default_sides(c.m))(w, p); crit_list(p, K, DIM, t, c.pen, "crit"); }; HCri r(c.m, s); const double h = 1e-3, tol = 1e-6;
        for(int k = 1; k < n; k++) { derivative([&](const V& y) { auto b = u; b[k] = y; return V(1, r.value(b, v, a, z)); }, u[k], column(r.g('u', u, v, a, z, k)), "criterion by displacement", h, tol); derivative([&](const V& y) { auto b = v; b[k] = y; return V(1, r.value(u, b, a, z)); }, v[k], column(r.g('v', u, v, a, z, k)), "criterion by velocity", h, tol); derivative([&](const V& y) { auto b = a; b[k] = y; return V(1, r.value(u, v, b, z)); }, a[k], column(r.g('a', u, v, a, z, k)), "criterion by acceleration", h, tol); }
        derivative([&](const V& y) { return V(1, r.value(u, v, a, y)); }, z, column(r.g('z', u, v, a, z)), "criterion by control", h, tol); derivative([&](const V& y) { HCri b(moved(c.m, y), s); return V(1, b.value(u, v, a, z)); }, c.m.x, column(r.g('x', u, v, a, z)), "criterion by coordinates", h, tol);
    });
    vp::section(sec("malformed"), 9, [](u64 i) {
        static const char* n[] = {"unknown penalty function", "unknown material", "unknown element block", "unknown problem", "no elastic constants", "unknown criterion", "unknown type of criterion", "unknown penalty function of a criterion", "natural condition on an unknown side set"}; vp::input(n[i]); vp::obs(n[i]); HCase c = start(1); Sides s = default_sides(c.m);
        Setup q = [&](World& w, PL& p) { hsetup(c, s)(w, p); crit_list(p, K, DIM, CC[0], c.pen, "crit"); PL& mt = p.sublist("Material Models").sublist("mat0"); if(i == 0) put(p, "Hyperbolic/Penalty Function/Type", "Cubic"); if(i == 1) put(p, "Spatial Model/Domains/blk0dom/Material Model", "nothing"); if(i == 2) put(p, "Spatial Model/Domains/blk0dom/Element Block", "nothing"); if(i == 4) mt.sublist("Isotropic Linear Elastic").remove("Youngs Modulus");
            if(i == 5) put(p, "Criteria/crit/Scalar Function Type", "Happiness"); if(i == 6) put(p, "Criteria/crit/Type", "Guess"); if(i == 7) put(p, "Criteria/crit/Penalty Function/Type", "Cubic"); if(i == 8) { put(p, "Natural Boundary Conditions/A/Type", "Uniform"); put(p, "Natural Boundary Conditions/A/Sides", "nowhere"); arr(p, "Natural Boundary Conditions/A/Values", V(DIM, 1.0)); } };
        const V u = state_of(c), z = control_of(c); bool t = vp::throws([&] { if(i == 3) { Sys y(c.m, q); std::string nm = "Parametric"; Plato::Hyperbolic::VectorFunction<P> f(y.sm, y.dm, y.pl, nm); } else if(i >= 5 && i <= 7) { HCri r(c.m, q); r.value({u, u}, {u, u}, {u, u}, z); } else { HRes r(c.m, q, 0); r.value(u, u, u, z); } }); vp::check(t, "%s was accepted", n[i]);
    });
    if(DIM == 2) vp::section("newmark", 3 * 3 * 3 * 729, [](u64 i) {
        static const double GA[] = {0.5, 0.75, 1.0}, BE[] = {0.25, 0.4, 0.5}, DT[] = {0.01, 0.3, 7.0}, X[] = {-1.5, 0.0, 2.25}; Dec q(i); double g = q.pick(GA), b = q.pick(BE), dt = q.pick(DT), x[6]; for(auto& y : x) y = q.pick(X); PL p; p.set("Newmark Gamma", g); p.set("Newmark Beta", b); vp::input(vp::fmt("gamma %g beta %g dt %g ", g, b, dt) + vp::vec_str(V(x, x + 6)));
        Plato::NewmarkIntegrator<P> t(p); auto ve = [&](int k) { return dev({0.0, x[k]}); }; vp::calls(10); V rv = host(t.v_value(ve(0), ve(1), ve(2), ve(3), ve(4), ve(5), dt)), ra = host(t.a_value(ve(0), ve(1), ve(2), ve(3), ve(4), ve(5), dt)); vp::eqi(rv.size(), 2, "length"); vp::eqi(ra.size(), 2, "length"); vp::eq(rv[0], 0, "velocity at rest"); vp::eq(ra[0], 0, "acceleration at rest");
        const double as = (x[0] - x[1] - dt * x[3] - dt * dt * (0.5 - b) * x[5]) / (b * dt * dt), vs = x[3] + dt * ((1 - g) * x[5] + g * as), S = 1e-11 * (1 + std::fabs(as)); auto near = [&](double a, double w, const char* n, double sc) { vp::core().cur_checks++; if(!(std::fabs(a - w) <= sc)) vp::fail("%s: %.15g, expected %.15g", n, a, w); };
        near(ra[1], x[4] - as, "acceleration equation", S); near(rv[1], x[2] - vs, "velocity equation", S * (1 + dt)); vp::obs(rv[1]); auto de = [&](double a, double w, const char* n) { near(a, w, n, 1e-12 * (1 + std::fabs(w))); };
        de(t.a_grad_u(dt), -1 / (b * dt * dt), "a by u"); de(t.a_grad_u_prev(dt), 1 / (b * dt * dt), "a by previous u"); de(t.a_grad_v_prev(dt), 1 / (b * dt), "a by previous v"); de(t.a_grad_a_prev(dt), (0.5 - b) / b, "a by previous a"); de(t.v_grad_u(dt), -g / (b * dt), "v by u"); de(t.v_grad_u_prev(dt), g / (b * dt), "v by previous u"); de(t.v_grad_v_prev(dt), g / b - 1, "v by previous v"); de(t.v_grad_a_prev(dt), -dt * (1 - g) + g * dt * (0.5 - b) / b, "v by previous a");
    });
#elif VP_PROP == 38
    const auto FN = field_names(K, true); const int NS = 1 << FN.size();
    auto want = [](const HCase& c, const V& u, const V& v, const V& z, const std::vector<std::string>& n) { // stress of the damped material: elastic and viscous
        Fields f; for(auto& x : n) for(int e = 0; e < c.m.ne(); e++) { Cell q = cell(c.m, e, z); const int b = c.blocks == 1 ? 0 : c.blk[e]; Gen g = kinetics(K, c.mat(b), q, DIM, u), h = kinetics(K, c.mat(b), q, DIM, v); V s = g.s; for(size_t k = 0; k < s.size(); k++) s[k] = c.pen(q.rho) * (s[k] + ray_b(c, b) * h.s[k]); f[x].push_back(x == "strain" ? g.e : x == "stress" ? s : h.e); }
        return f;
    };
    auto valid = [](const HCase& c, const std::vector<std::string>& n) { return !(c.damp == 4 && c.blocks == 1) && !((c.damp == 0 || c.damp == 4) && std::count(n.begin(), n.end(), "velgrad")); }; // undamped materials have no velocity gradient to show
    vp::section("hyperbolic-" + sec("fields"), 3 * PP.size() * 8 * 5 * NS, [=](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); c.pen = q.pick(PP); bool ok = color(c, q.take(8)); c.damp = q.take(5); auto n = subset(FN, q.take(NS)); c.load = 1; if(!ok || !valid(c, n)) { vp::skip(); return; } std::string t; for(auto& x : n) t += " " + x; vp::input("fields" + t + " of " + c.str()); const int N = c.m.nv() * DIM;
        Sides s = default_sides(c.m); Setup st = hsetup(c, s); HRes r(c.m, [&](World& w, PL& l) { st(w, l); names(l, "Hyperbolic/Plottable", n); }, 0); V u = state_of(c, 1), u2 = state_of(c, 4), v = field(N, -2, 2, 30), v2 = field(N, -2, 2, 33), a = field(N, -2, 2, 35), z = control_of(c), z2 = control_of(c, 9);
        r.value(u, v, a, z); check_fields(r.s.dm, want(c, u, v, z, n), c.m.ne(), "after one evaluation"); r.value(u2, v2, a, z2); check_fields(r.s.dm, want(c, u2, v2, z2, n), c.m.ne(), "after a second evaluation"); for(char k : {'u', 'v', 'a', 'z', 'x'}) r.g(k, u2, v2, a, z2); check_fields(r.s.dm, want(c, u2, v2, z2, n), c.m.ne(), "after the derivatives");
    });
    vp::section("hyperbolic-" + sec("solved"), 3 * TT.size() * 3 * 3 * 5 * NS, [=](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); Time t = q.pick(TT); int bc = q.take(3); bool ok = color(c, q.take(3)); c.damp = q.take(5); auto n = subset(FN, q.take(NS)); c.load = 12; if(!ok || !valid(c, n) || (!vp::thorough() && c.m.ne() == 3 && bc)) { vp::skip(); return; } std::string f; for(auto& x : n) f += " " + x; vp::input("fields" + f + " of " + c.str() + " " + t.str()); Sides s = default_sides(c.m); V z = control_of(c), z2 = control_of(c, 9);
        HProb p(c.m, [&](World& w, PL& l) { hsetup(c, s)(w, l); init_list(l, 3); names(l, "Hyperbolic/Plottable", n); }, bc, t); auto& dm = p.p->getDataMap();
        auto saved = [&](const V& y, const char* w) { vp::eqi(dm.stateDataMaps.size(), t.steps, w); for(int k = 0; k < t.steps; k++) check_fields(dm.getState(k), want(c, p.u[k], p.v[k], y, n), c.m.ne(), vp::fmt("%s %d", w, k).c_str()); };
        p.solve(z); saved(z, "saved state"); p.solve(z2); saved(z2, "saved state of the second solve"); p.solve(z); saved(z, "saved state of the third solve");
    });
#else
    vp::section(sec("solve"), 3 * NL * TT.size() * 4 * 3 * 4 * 5, [](u64 i) {
        Dec q(i); HCase c = start(q.take(3)); c.load = LD[q.take(NL)]; Time t = q.pick(TT); int bc = q.take(4); bool ok = color(c, q.take(3)); int in = q.take(4); c.damp = q.take(5); if(!ok || (c.damp == 4 && c.blocks == 1) || (!vp::thorough() && ((c.damp == 1 || c.damp == 2) || (c.m.ne() == 3 && in != 3)))) { vp::skip(); return; } c.pen = PP[i % PP.size()]; V z = control_of(c); vp::input(t.str() + vp::fmt(", constraints %d, initial state %d, ", bc, in) + c.str()); Sides s = default_sides(c.m);
        HProb p(c.m, [&](World& w, PL& l) { hsetup(c, s)(w, l); init_list(l, in); }, bc, t); p.solve(z); stepping(c, s, bc, in, p, z);
    });
    vp::section(sec("gradient"), CC.size() * 3 * TT.size() * 4 * 2 * 2 * 2, [](u64 i) {
        Dec q(i); Crit ct = q.pick(CC); HCase c = start(q.take(3)); Time t = q.pick(TT); int bc = q.take(4); bool ok = color(c, q.take(2)); c.damp = q.take(2) ? 3 : 0; c.load = q.take(2) ? 12 : 2; if(!ok || t.steps == 1 || (!vp::thorough() && c.m.ne() == 3)) { vp::skip(); return; } V z = control_of(c); vp::input(ct.str() + ", " + t.str() + vp::fmt(", constraints %d, ", bc) + c.str()); Sides s = default_sides(c.m);
        Setup all = [=](World& w, PL& l) { hsetup(c, s)(w, l); put(l, "Computed Fields/a/Function", "0.4"); put(l, "Initial State/Velocity Y/Computed Field", "a"); crit_list(l, K, DIM, ct, c.pen, "crit"); }; HProb p(c.m, all, bc, t); p.solve(z); const double val = hcrit_value(c, ct, p.u, z); same(V(1, p.value(z)), V(1, val), "criterion at the solution", 1e-9);
        const double fl = std::fmax(1e-6, std::fabs(val)); derivative([&](const V& y) { HProb r(c.m, all, bc, t); r.solve(y); return V(1, r.value(y)); }, z, column(p.gz(z)), "total gradient by control", 1e-3, 1e-5, fl); derivative([&](const V& y) { HProb r(moved(c.m, y), all, bc, t); r.solve(z); return V(1, r.value(z)); }, c.m.x, column(p.gx(z)), "total gradient by coordinates", 1e-3, 1e-5, fl);
    });
    const int depth = vp::thorough() ? 4 : 3; // every sequence of calls up to the bound: each answer is that of a fresh problem solved for the last control
    vp::section(sec("calls"), vp::ipow(NOPS, depth), [depth](u64 i) {
        HCase c = start(1); c.load = 12; c.damp = 3; color(c, 1); Sides s = default_sides(c.m); V Z[2] = {control_of(c, 7), control_of(c, 9)}; const Time t = TT[0]; Setup all = [=](World& w, PL& l) { hsetup(c, s)(w, l); init_list(l, 3); crit_list(l, K, DIM, CC[0], c.pen, "f"); crit_list(l, K, DIM, CC[2], c.pen, "g"); };
        auto run = [&](HProb& p, int op, int zi) { V z = Z[zi]; switch(op) { case 0: case 1: p.solve(Z[op]); return p.all(); case 2: return V(1, p.value(z, "f")); case 3: return p.gz(z, "f"); case 4: return p.gx(z, "f"); case 5: return V(1, p.value(z, "g")); default: return p.gz(z, "g"); } };
        static std::map<int, V> fresh; if(fresh.empty()) for(int zi = 0; zi < 2; zi++) for(int op = 0; op < NOPS; op++) { HProb p(c.m, all, 3, t); V first = run(p, zi, 0); if(op >= 2) fresh[zi * NOPS + op] = run(p, op, zi); else { fresh[zi] = first; fresh[NOPS + zi] = first; } }
        HProb p(c.m, all, 3, t); Dec q(i); int zi = 0; std::string seq = "solve a"; std::vector<int> ops; for(int k = 0; k < depth; k++) { ops.push_back(q.take(NOPS)); seq += std::string(", ") + OPS[ops.back()]; } vp::input(seq + " " + c.str()); run(p, 0, 0); for(int op : ops) { if(op < 2) zi = op; same(run(p, op, zi), op < 2 ? fresh[op] : fresh[zi * NOPS + op], OPS[op], 1e-8); }
    });
    vp::section(sec("malformed"), 6, [](u64 i) {
        static const char* n[] = {"value of an unknown criterion", "gradient of an unknown criterion", "shape gradient of an unknown criterion", "initial state of an unknown unknown", "initial state from an unknown field", "initial state without computed fields"}; vp::input(n[i]); vp::obs(n[i]); HCase c = start(1); Sides s = default_sides(c.m); V z = control_of(c);
        bool t = vp::throws([&] { HProb p(c.m, [&](World& w, PL& l) { hsetup(c, s)(w, l); crit_list(l, K, DIM, CC[0], c.pen, "crit"); if(i != 5) put(l, "Computed Fields/a/Function", "1"); if(i == 3) put(l, "Initial State/Pressure/Computed Field", "a"); if(i == 4) put(l, "Initial State/Velocity X/Computed Field", "b"); if(i == 5) put(l, "Initial State/Velocity X/Computed Field", "a"); }, 0, TT[0]); p.solve(z); if(i == 0) p.value(z, "other"); if(i == 1) p.gz(z, "other"); if(i == 2) p.gx(z, "other"); }); vp::check(t, "%s was accepted", n[i]);
    });
#endif
});
} // namespace
