// Transient heat conduction and transient thermomechanics over whole meshes: residual, criteria, derivatives (VP_PROP 34), time
// stepping, total gradients and call sequences (35). One translation unit per physics and space dimension.
#include "crit.hpp"
#include "bc.hpp"
#include "parabolic/VectorFunction.hpp"
#include "parabolic/ScalarFunctionBase.hpp"
#include "parabolic/PhysicsScalarFunction.hpp"
#include "parabolic/ScalarFunctionBaseFactory.hpp"
#include "parabolic/ScalarFunctionBaseFactory_def.hpp"
#include "parabolic/PhysicsScalarFunction.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
#include "out.hpp"
#if VP_PROP >= 35
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include "parabolic/Problem.hpp"
#endif
using namespace vpm; using vp::Dec;
namespace {
typedef Plato::PHYS<DIM> P; const Kind K = KIND;
std::string sec(const char* n) { return vp::fmt("%s-%s%d", n, kind_name(K), DIM); }
static const std::vector<Pen> PP = {{"SIMP", 3, 1e-9}, {"RAMP", 2, 0.01}, {"SIMP", 1, 0.2}};
static const int LT[] = {0, 1, 6, 9, 10}, LM[] = {0, 1, 2, 3, 6, 9, 10, 11}; const int NL = K == THERMAL ? 5 : 8;
int load_no(int i) { return K == THERMAL ? LT[i] : LM[i]; }
// heat content of material b
double density(int b, double T, int var) { double r = b ? 0.6 : 1.4; return var ? r * (1 + 0.1 * T) : r; }
double capacity(int b, double T, int var) { double r = b ? 1.7 : 0.9; return var ? r * (1 - 0.2 * T + 0.05 * T * T) : r; }
Case start(int sh) { Case c; c.k = K; c.unscaled = true; c.m = orient(shape(DIM, sh)); color(c, 0); return c; }
void par_list(PL& p, const Case& c)
{
    put(p, "PDE Constraint", "Parabolic"); pen_list(p, "Parabolic", c.pen);
    for(int b = 0; b < c.blocks; b++)
    {
        const std::string a = vp::fmt("Material Models/mat%d/Thermal Mass/", b); if(!c.var) { put(p, a + "Mass Density", density(b, 0, 0)); put(p, a + "Specific Heat", capacity(b, 0, 0)); continue; }
        put(p, a + "Temperature Dependent", true); double r = density(b, 0, 0), h = capacity(b, 0, 0); put(p, a + "Mass Density/c0", r); put(p, a + "Mass Density/c1", 0.1 * r); put(p, a + "Specific Heat/c0", h); put(p, a + "Specific Heat/c1", -0.2 * h); put(p, a + "Specific Heat/c2", 0.05 * h);
    }
}
Setup psetup(const Case& c, const Sides& s) { Setup q = setup(c, s); return [=](World& w, PL& p) { q(w, p); par_list(p, c); }; }
V preference(const Case& c, const Sides& s, const V& u, const V& v, const V& z)
{
    V r = reference(c, s, u, z); const int nd = c.nd();
    for(int e = 0; e < c.m.ne(); e++) { Cell q = cell(c.m, e, z); int b = c.blocks == 1 ? 0 : c.blk[e]; double T = value_at(q, u, nd, nd - 1), R = value_at(q, v, nd, nd - 1), f = q.vol * c.pen(q.rho) * density(b, T, c.var) * capacity(b, T, c.var) * R / (DIM + 1); for(int n : q.n) r[n * nd + nd - 1] += f; }
    return r;
}
struct PRes
{
    Sys s; std::string n = "Parabolic"; Plato::Parabolic::VectorFunction<P> f;
    PRes(const M& m, const Setup& q) : s(m, q), f(s.sm, s.dm, s.pl, n) {}
    V value(const V& u, const V& v, const V& z) { vp::calls(); return host(f.value(dev(u), dev(v), dev(z), 0.1)); }
    D gu(const V& u, const V& v, const V& z) { vp::calls(); return dense(f.gradient_u(dev(u), dev(v), dev(z), 0.1)); } D gv(const V& u, const V& v, const V& z) { vp::calls(); return dense(f.gradient_v(dev(u), dev(v), dev(z), 0.1)); }
    D gz(const V& u, const V& v, const V& z) { vp::calls(); return dense(f.gradient_z(dev(u), dev(v), dev(z), 0.1)); } D gx(const V& u, const V& v, const V& z) { vp::calls(); return dense(f.gradient_x(dev(u), dev(v), dev(z), 0.1)); }
};
void pderiv(const M& m, const Setup& q, const V& u, const V& v, const V& z)
{
    PRes r(m, q); const double tol = 1e-7; derivative([&](const V& y) { return r.value(y, v, z); }, u, transpose(r.gu(u, v, z), u.size()), "residual by state", 1e-3, tol); derivative([&](const V& y) { return r.value(u, y, z); }, v, transpose(r.gv(u, v, z), u.size()), "residual by rate", 1e-3, tol);
    derivative([&](const V& y) { return r.value(u, v, y); }, z, r.gz(u, v, z), "residual by control", 1e-3, tol); derivative([&](const V& y) { PRes s(moved(m, y), q); return s.value(u, v, z); }, m.x, r.gx(u, v, z), "residual by coordinates", 1e-3, tol);
}
const int NC = K == THERMAL ? 2 : 1; const char* crit_label(int t) { return K == TM ? "Internal Thermoelastic Energy" : t ? "Temperature Average" : "Internal Thermal Energy"; }
void pcrit_list(PL& p, int t, const Pen& pen, const std::string& n = "crit") { put(p, "Criteria/" + n + "/Type", "Scalar Function"); put(p, "Criteria/" + n + "/Scalar Function Type", crit_label(t)); pen_list(p, "Criteria/" + n, pen); }
double pcrit_value(const Case& c, int t, const std::vector<V>& u, const V& z) // the initial state does not count
{
    double r = 0; for(size_t k = 1; k < u.size(); k++) if(t == 0) r += crit_value(c, Crit{ENERGY}, u[k], z); else for(int e = 0; e < c.m.ne(); e++) { Cell q = cell(c.m, e, z); r += q.vol * c.pen(q.rho) * value_at(q, u[k], c.nd(), c.nd() - 1); } return r;
}
struct PCri
{
    Sys s; std::shared_ptr<Plato::Parabolic::ScalarFunctionBase> f; typedef std::vector<V> H;
    PCri(const M& m, const Setup& q, std::string name = "crit") : s(m, q) { Plato::Parabolic::ScalarFunctionBaseFactory<P> k; f = k.create(s.sm, s.dm, s.pl, name); vp::check(f != nullptr, "criterion was not created"); }
    Plato::Solution sol(const H& u, const H& v) { return Plato::Solution(states(u), states(v)); }
    double value(const H& u, const H& v, const V& z) { vp::calls(); return f->value(sol(u, v), dev(z), 0.1); }
    V gu(const H& u, const H& v, const V& z, int k) { vp::calls(); return host(f->gradient_u(sol(u, v), dev(z), k, 0.1)); } V gv(const H& u, const H& v, const V& z, int k) { vp::calls(); return host(f->gradient_v(sol(u, v), dev(z), k, 0.1)); }
    V gz(const H& u, const H& v, const V& z) { vp::calls(); return host(f->gradient_z(sol(u, v), dev(z), 0.1)); } V gx(const H& u, const H& v, const V& z) { vp::calls(); return host(f->gradient_x(sol(u, v), dev(z), 0.1)); }
};
std::vector<V> hist(const Case& c, int n, int salt) { std::vector<V> r; for(int k = 0; k < n; k++) r.push_back(state_of(c, salt + k)); return r; }
#if VP_PROP >= 35
struct Time { int steps; double dt, alpha; std::string str() const { return vp::fmt("%d steps of %g, alpha %g", steps, dt, alpha); } };
// initial fields of the last unknown (bit 0) and of the first one (bit 1, thermomechanics)
std::string init_fn(int i) { return i ? "0.3-0.2*y" : "0.5+0.25*x"; } double init_at(int i, const V& x, int n) { return i ? 0.3 - 0.2 * x[n * DIM + 1] : 0.5 + 0.25 * x[n * DIM]; }
V initial(const M& m, int in) { const int nd = dofs(K, DIM); V r(m.nv() * nd, 0.0); for(int n = 0; n < m.nv(); n++) { if(in & 1) r[n * nd + nd - 1] = init_at(0, m.x, n); if(in & 2) r[n * nd] = init_at(1, m.x, n); } return r; }
void init_list(PL& p, int in) { if(!in) return; put(p, "Computed Fields/a/Function", init_fn(0)); put(p, "Computed Fields/b/Function", init_fn(1)); if(in & 1) put(p, "Initial State/Temperature/Computed Field", "a"); if(in & 2) put(p, "Initial State/Displacement X/Computed Field", "b"); }
struct PProb
{
    World w; PL pl; std::shared_ptr<Plato::Parabolic::Problem<P>> p; Time t; std::vector<V> u, v;
    PProb(const M& m, const Setup& s, int bc, const Time& a, int newton = 1, double rtol = 0) : w(m), t(a)
    {
        mpi(); s(w, pl); bc_list(K, w, pl, bc); put(pl, "Linear Solver/Tolerance", 1e-15); put(pl, "Linear Solver/Iterations", 500); put(pl, "Time Integration/Number Time Steps", t.steps); put(pl, "Time Integration/Time Step", t.dt); put(pl, "Time Integration/Trapezoid Alpha", t.alpha);
        if(newton > 1) { put(pl, "Newton Iteration/Maximum Iterations", newton); put(pl, "Newton Iteration/Increment Tolerance", 1e-13); if(rtol > 0) put(pl, "Newton Iteration/Residual Tolerance", rtol); } MPI_Comm self = MPI_COMM_SELF; p = std::make_shared<Plato::Parabolic::Problem<P>>(w.mesh, w.sets, pl, Plato::Comm::Machine(self));
    }
    void solve(const V& z) { vp::calls(); auto s = p->solution(dev(z)); u.clear(); v.clear(); vp::check((int)s.State.extent(0) == t.steps && (int)s.StateDot.extent(0) == t.steps, "%d states and %d rates for %d steps", (int)s.State.extent(0), (int)s.StateDot.extent(0), t.steps); for(int k = 0; k < t.steps; k++) { V a, b; for(size_t i = 0; i < s.State.extent(1); i++) { a.push_back(s.State(k, i)); b.push_back(s.StateDot(k, i)); } u.push_back(a); v.push_back(b); } }
    double value(const V& z, const std::string& n = "crit") { vp::calls(); return p->criterionValue(dev(z), n); } V gz(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradient(dev(z), n)); } V gx(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradientX(dev(z), n)); }
    V all() const { V r; for(auto* h : {&u, &v}) for(auto& a : *h) r.insert(r.end(), a.begin(), a.end()); return r; }
};
void stepping(const Case& c, const Sides& s, int bc, int in, const PProb& p, const V& z)
{
    auto f = fixed(K, c.m, bc); same(p.u[0], initial(c.m, in), "initial state"); same(p.v[0], V(p.u[0].size(), 0.0), "initial rate"); const Time& t = p.t;
    for(int k = 1; k < t.steps; k++)
    {
        V want; double vs = 0; for(size_t i = 0; i < p.u[k].size(); i++) { want.push_back((p.u[k][i] - p.u[k - 1][i] - t.dt * (1 - t.alpha) * p.v[k - 1][i]) / (t.alpha * t.dt)); vs = std::fmax(vs, (std::fabs(p.u[k][i]) + std::fabs(p.u[k - 1][i])) / (t.alpha * t.dt)); }
        for(size_t i = 0; i < want.size(); i++) if(!(std::fabs(p.v[k][i] - want[i]) <= 1e-9 * vs + 1e-10)) vp::fail("step %d: rate %d is %.12g, the trapezoidal rule gives %.12g", k, (int)i, p.v[k][i], want[i]);
        V r = preference(c, s, p.u[k], p.v[k], z); double sc = 1e-6; { V a = internal(c, p.u[k], z), b = external(c, s, z); sc = std::fmax(sc, std::fmax(big(a), big(b))); for(size_t i = 0; i < r.size(); i++) sc = std::fmax(sc, std::fabs(r[i] - a[i] + b[i])); }
        for(size_t i = 0; i < r.size(); i++) { vp::obs(p.u[k][i]); if(f.count(i)) { if(!(std::fabs(p.u[k][i] - f[i]) <= 1e-10)) vp::fail("step %d: prescribed dof %d is %.15g, given %.15g", k, (int)i, p.u[k][i], f[i]); } else if(!(std::fabs(r[i]) <= 1e-8 * sc)) vp::fail("step %d: dof %d is out of balance by %.3g (scale %.3g)", k, (int)i, r[i], sc); }
    }
    vp::core().cur_checks += p.u.size() * p.u[0].size() * 2;
}
static const std::vector<Time> TT = {{3, 0.1, 0.5}, {3, 0.4, 1.0}, {4, 0.2, 0.75}, {2, 1.5, 0.5}, {1, 0.1, 0.5}};
const char* OPS[] = {"solve a", "solve b", "value", "gradient", "shape gradient", "value v", "gradient v"}; const int NOPS = 7;
#endif
Part part([] {
#if VP_PROP == 34
    vp::section(sec("value"), 3 * NL * PP.size() * 16 * 2 * 3, [](u64 i) {
        Dec q(i); Case c = start(q.take(3)); c.load = load_no(q.take(NL)); c.pen = q.pick(PP); bool ok = color(c, q.take(16)); c.var = q.take(2); int st = q.take(3); if(!ok) { vp::skip(); return; } const int n = c.m.nv() * c.nd();
        V u = state_of(c, st), v = st == 1 ? V(n, 0.0) : field(n, -2, 2, 30 + st), z = control_of(c, st == 2 ? 3 : 7); vp::input(c.str() + " state " + vp::vec_str(u) + " rate " + vp::vec_str(v)); Sides s = default_sides(c.m); PRes r(c.m, psetup(c, s)); same(r.value(u, v, z), preference(c, s, u, v, z), "residual");
    });
    vp::section(sec("deriv"), 3 * NL * PP.size() * 3 * 2, [](u64 i) {
        Dec q(i); Case c = start(q.take(3)); c.load = load_no(q.take(NL)); c.pen = q.pick(PP); bool ok = color(c, q.take(3)); c.var = q.take(2); if(!ok || (!vp::thorough() && DIM == 3 && c.m.ne() == 3 && c.load > 1 && c.load != 10)) { vp::skip(); return; } vp::input(c.str()); Sides s = default_sides(c.m); pderiv(c.m, psetup(c, s), state_of(c), field(c.m.nv() * c.nd(), -2, 2, 31), control_of(c));
    });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 40000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) {
            Case c = start(sh); Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; c.load = 10; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str()); Sides s = default_sides(m); for(auto* l : {&s.a, &s.b}) for(auto& f : *l) for(auto& n : f) n = nb.node[n];
            V u = state_of(c), v = field(c.m.nv() * c.nd(), -2, 2, 31), z = control_of(c); PRes r(c.m, psetup(c, s)); same(r.value(u, v, z), preference(c, s, u, v, z), "residual"); if(sh == 0) pderiv(c.m, psetup(c, s), u, v, z);
        });
    }
    vp::section(sec("criterion"), 3 * NC * PP.size() * 16 * 2 * 4, [](u64 i) {
        Dec q(i); Case c = start(q.take(3)); int t = q.take(NC); c.pen = q.pick(PP); bool ok = color(c, q.take(16)); c.var = q.take(2); int n = q.take(4) + 1; if(!ok) { vp::skip(); return; } auto u = hist(c, n, 0), v = hist(c, n, 50); V z = control_of(c); vp::input(vp::fmt("%s, %d steps, ", crit_label(t), n) + c.str());
        PCri r(c.m, [&](World& w, PL& p) { psetup(c, default_sides(c.m))(w, p); pcrit_list(p, t, c.pen); }); same(V(1, r.value(u, v, z)), V(1, pcrit_value(c, t, u, z)), "criterion");
    });
    vp::section(sec("criterion-deriv"), 3 * NC * PP.size() * 3 * 2 * 3, [](u64 i) {
        Dec q(i); Case c = start(q.take(3)); int t = q.take(NC); c.pen = q.pick(PP); bool ok = color(c, q.take(3)); c.var = q.take(2); int n = q.take(3) + 1; if(!ok) { vp::skip(); return; } auto u = hist(c, n, 0), v = hist(c, n, 50); V z = control_of(c); vp::input(vp::fmt("%s, %d steps, ", crit_label(t), n) + c.str());
        Setup s = [&](World& w, PL& p) { psetup(c, default_sides(c.m))(w, p); pcrit_list(p, t, c.pen); }; PCri r(c.m, s);
        for(int k = 1; k < n; k++) { derivative([&](const V& y) { auto a = u; a[k] = y; return V(1, r.value(a, v, z)); }, u[k], column(r.gu(u, v, z, k)), "criterion by state"); derivative([&](const V& y) { auto a = v; a[k] = y; return V(1, r.value(u, a, z)); }, v[k], column(r.gv(u, v, z, k)), "criterion by rate"); }
        derivative([&](const V& y) { return V(1, r.value(u, v, y)); }, z, column(r.gz(u, v, z)), "criterion by control"); derivative([&](const V& y) { PCri a(moved(c.m, y), s); return V(1, a.value(u, v, z)); }, c.m.x, column(r.gx(u, v, z)), "criterion by coordinates");
    });
    vp::section(sec("malformed"), 9, [](u64 i) {
        static const char* n[] = {"unknown penalty function", "unknown material", "unknown element block", "no thermal mass", "no conductivity", "unknown criterion", "unknown type of criterion", "unknown penalty function of a criterion", "natural condition on an unknown side set"}; vp::input(n[i]); vp::obs(n[i]); Case c = start(1); Sides s = default_sides(c.m);
        Setup q = [&](World& w, PL& p) { psetup(c, s)(w, p); pcrit_list(p, 0, c.pen); PL& mt = p.sublist("Material Models").sublist("mat0"); if(i == 0) put(p, "Parabolic/Penalty Function/Type", "Cubic"); if(i == 1) put(p, "Spatial Model/Domains/blk0dom/Material Model", "nothing"); if(i == 2) put(p, "Spatial Model/Domains/blk0dom/Element Block", "nothing"); if(i == 3) mt.remove("Thermal Mass");
            if(i == 4) mt.sublist(K == TM ? "Thermoelastic" : "Thermal Conduction").remove("Thermal Conductivity"); if(i == 5) put(p, "Criteria/crit/Scalar Function Type", "Happiness"); if(i == 6) put(p, "Criteria/crit/Type", "Guess"); if(i == 7) put(p, "Criteria/crit/Penalty Function/Type", "Cubic"); if(i == 8) { const std::string a = std::string(mech_bc(K)) + "/A/"; put(p, a + "Type", "Uniform"); put(p, a + "Sides", "nowhere"); arr(p, a + "Values", V(mech_dofs(K, DIM), 1.0)); } };
        const V u = state_of(c), z = control_of(c); bool t = vp::throws([&] { if(i >= 5 && i <= 7) { PCri r(c.m, q); r.value({u, u}, {u, u}, z); } else { PRes r(c.m, q); r.value(u, u, z); } }); vp::check(t, "%s was accepted", n[i]);
    });
    // the trapezoidal rule itself: v = ((u - u0)/dt - (1 - alpha) v0)/alpha, and its derivatives
    if(DIM == 2 && K == THERMAL) vp::section("trapezoid", 4 * 4 * 81, [](u64 i) {
        static const double AL[] = {0.25, 0.5, 0.75, 1.0}, DT[] = {0.01, 0.3, 1.0, 7.0}, X[] = {-1.5, 0.0, 2.25}; Dec q(i); double a = q.pick(AL), dt = q.pick(DT), u = q.pick(X), u0 = q.pick(X), v = q.pick(X), v0 = q.pick(X); PL p; const bool def = a == 0.5 && dt == 1.0; if(!def) p.set("Trapezoid Alpha", a); vp::input(vp::fmt("alpha %g dt %g u %g u0 %g v %g v0 %g", a, dt, u, u0, v, v0));
        Plato::Parabolic::TrapezoidIntegrator<P> t(p); vp::calls(4); V w = host(t.v_value(dev({u, 1}), dev({u0, 1}), dev({v, 0}), dev({v0, 0}), dt)); vp::eqi(w.size(), 2, "length"); vp::eq(w[0], v - ((u - u0) / dt - (1 - a) * v0) / a, "rate equation", 1e-12); vp::eq(w[1], 0, "rate equation at rest"); vp::eq(t.v_grad_u(dt), -1 / (a * dt), "by state"); vp::eq(t.v_grad_u_prev(dt), 1 / (a * dt), "by the previous state"); vp::eq(t.v_grad_v_prev(dt), (1 - a) / a, "by the previous rate"); vp::obs(w[0]);
    });
#elif VP_PROP == 38
    const auto FN = field_names(K, false, true); const int NS = 1 << FN.size();
    vp::section("parabolic-" + sec("fields"), 3 * PP.size() * 8 * 2 * NS, [=](u64 i) {
        Dec q(i); Case c = start(q.take(3)); c.pen = q.pick(PP); bool ok = color(c, q.take(8)); c.var = q.take(2); auto n = subset(FN, q.take(NS)); c.load = 1; if(!ok) { vp::skip(); return; } std::string t; for(auto& x : n) t += " " + x; vp::input("fields" + t + " of " + c.str()); const int N = c.m.nv() * c.nd();
        Sides s = default_sides(c.m); Setup st = psetup(c, s); PRes r(c.m, [&](World& w, PL& l) { st(w, l); names(l, "Parabolic/Plottable", n); }); V u = state_of(c, 1), u2 = state_of(c, 4), v = field(N, -2, 2, 30), z = control_of(c), z2 = control_of(c, 9);
        r.value(u, v, z); check_fields(r.s.dm, fields_of(c, u, z, n), c.m.ne(), "after one evaluation"); r.value(u2, v, z2); check_fields(r.s.dm, fields_of(c, u2, z2, n), c.m.ne(), "after a second evaluation"); r.gu(u2, v, z2); r.gv(u2, v, z2); r.gz(u2, v, z2); check_fields(r.s.dm, fields_of(c, u2, z2, n), c.m.ne(), "after the derivatives");
    });
    vp::section("parabolic-" + sec("solved"), 3 * TT.size() * 3 * 3 * NS, [=](u64 i) {
        Dec q(i); Case c = start(q.take(3)); Time t = q.pick(TT); int bc = q.take(3); bool ok = color(c, q.take(3)); auto n = subset(FN, q.take(NS)); c.load = 1; if(!ok) { vp::skip(); return; } std::string f; for(auto& x : n) f += " " + x; vp::input("fields" + f + " of " + c.str() + " " + t.str()); Sides s = default_sides(c.m); V z = control_of(c), z2 = control_of(c, 9);
        PProb p(c.m, [&](World& w, PL& l) { psetup(c, s)(w, l); init_list(l, 1); names(l, "Parabolic/Plottable", n); pcrit_list(l, 0, c.pen); }, bc, t); auto& dm = p.p->getDataMap();
        auto saved = [&](const V& y, const char* w) { vp::eqi(dm.stateDataMaps.size(), t.steps, w); for(int k = 0; k < t.steps; k++) check_fields(dm.getState(k), fields_of(c, p.u[k], y, n), c.m.ne(), vp::fmt("%s %d", w, k).c_str()); };
        p.solve(z); saved(z, "saved state"); p.value(z); p.gz(z); saved(z, "saved state after the gradient"); p.solve(z2); saved(z2, "saved state of the second solve");
    });
#else
    const int NI = K == TM ? 4 : 2;
    vp::section(sec("solve"), 3 * NL * TT.size() * 3 * 3 * NI, [=](u64 i) {
        Dec q(i); Case c = start(q.take(3)); c.load = load_no(q.take(NL)); Time t = q.pick(TT); int bc = q.take(3); bool ok = color(c, q.take(3)); int in = q.take(NI); if(!ok || (!vp::thorough() && K == TM && c.m.ne() == 3 && (in == 1 || in == 2))) { vp::skip(); return; } c.pen = PP[i % PP.size()]; V z = control_of(c); vp::input(t.str() + vp::fmt(", constraints %d, initial state %d, ", bc, in) + c.str()); Sides s = default_sides(c.m);
        PProb p(c.m, [&](World& w, PL& l) { psetup(c, s)(w, l); init_list(l, in); }, bc, t); p.solve(z); stepping(c, s, bc, in, p, z);
    });
    vp::section(sec("newton"), 3 * TT.size() * 3 * 3 * 2 * 3, [=](u64 i) { // temperature dependent materials and several Newton iterations
        Dec q(i); Case c = start(q.take(3)); Time t = q.pick(TT); int bc = q.take(3); bool ok = color(c, q.take(3)); c.var = q.take(2); int in = K == TM ? 3 : 1, rt = q.take(3); if(rt == 2) in = 0; if(!ok) { vp::skip(); return; } c.load = rt == 2 ? 0 : 1; V z = control_of(c); vp::input(t.str() + vp::fmt(", Newton (variant %d), constraints %d, ", rt, bc) + c.str()); Sides s = default_sides(c.m);
        PProb p(c.m, [&](World& w, PL& l) { psetup(c, s)(w, l); init_list(l, in); }, bc, t, 20, rt ? 1e-11 : 0); p.solve(z); stepping(c, s, bc, in, p, z);
    });
    vp::section(sec("gradient"), NC * 3 * TT.size() * 3 * 2 * 2, [=](u64 i) {
        Dec q(i); int ct = q.take(NC); Case c = start(q.take(3)); Time t = q.pick(TT); int bc = q.take(3); bool ok = color(c, q.take(2)); c.var = q.take(2); if(!ok || (!vp::thorough() && (c.m.ne() == 3 || (c.var && t.dt == 0.2)))) { vp::skip(); return; } c.load = 1; const int nw = c.var ? 20 : 1; V z = control_of(c); vp::input(std::string(crit_label(ct)) + ", " + t.str() + vp::fmt(", constraints %d, ", bc) + c.str()); Sides s = default_sides(c.m);
        Setup all = [=](World& w, PL& l) { psetup(c, s)(w, l); put(l, "Computed Fields/a/Function", "0.4"); put(l, "Initial State/Temperature/Computed Field", "a"); pcrit_list(l, ct, c.pen); }; PProb p(c.m, all, bc, t, nw); p.solve(z); const double val = pcrit_value(c, ct, p.u, z); same(V(1, p.value(z)), V(1, val), "criterion at the solution", 1e-9);
        const double fl = std::fmax(1e-6, std::fabs(val)); derivative([&](const V& y) { PProb r(c.m, all, bc, t, nw); r.solve(y); return V(1, r.value(y)); }, z, column(p.gz(z)), "total gradient by control", 1e-3, 1e-5, fl); derivative([&](const V& y) { PProb r(moved(c.m, y), all, bc, t, nw); r.solve(z); return V(1, r.value(z)); }, c.m.x, column(p.gx(z)), "total gradient by coordinates", 1e-3, 1e-5, fl);
    });
    // every sequence of calls up to the bound: each answer is that of a fresh problem solved for the last control
    const int depth = vp::thorough() ? 4 : 3;
    vp::section(sec("calls"), vp::ipow(NOPS, depth), [depth](u64 i) {
        Case c = start(1); c.load = 1; color(c, 1); Sides s = default_sides(c.m); V Z[2] = {control_of(c, 7), control_of(c, 9)}; const Time t = TT[0]; Setup all = [=](World& w, PL& l) { psetup(c, s)(w, l); init_list(l, 1); pcrit_list(l, NC - 1, c.pen, "f"); put(l, "Criteria/v/Type", "Scalar Function"); put(l, "Criteria/v/Linear", true); put(l, "Criteria/v/Scalar Function Type", "Volume"); pen_list(l, "Criteria/v", Pen{"SIMP", 1, 0}); };
        auto run = [&](PProb& p, int op, int zi) { V z = Z[zi]; switch(op) { case 0: case 1: p.solve(Z[op]); return p.all(); case 2: return V(1, p.value(z, "f")); case 3: return p.gz(z, "f"); case 4: return p.gx(z, "f"); case 5: return V(1, p.value(z, "v")); default: return p.gz(z, "v"); } };
        static std::map<int, V> fresh; if(fresh.empty()) for(int zi = 0; zi < 2; zi++) for(int op = 0; op < NOPS; op++) { PProb p(c.m, all, 1, t); run(p, zi, 0); fresh[zi * NOPS + op] = op < 2 ? V() : run(p, op, zi); if(op == zi) fresh[zi * NOPS + op] = p.all(); } for(int zi = 0; zi < 2; zi++) fresh[zi * NOPS + 1 - zi] = fresh[(1 - zi) * NOPS + 1 - zi];
        PProb p(c.m, all, 1, t); Dec q(i); int zi = 0; std::string seq = "solve a"; std::vector<int> ops; for(int k = 0; k < depth; k++) { ops.push_back(q.take(NOPS)); seq += std::string(", ") + OPS[ops.back()]; } vp::input(seq + " " + c.str()); run(p, 0, 0); for(int op : ops) { if(op < 2) zi = op; same(run(p, op, zi), fresh[zi * NOPS + op], OPS[op], 1e-8); }
    });
    vp::section(sec("malformed"), 6, [](u64 i) {
        static const char* n[] = {"value of an unknown criterion", "gradient of an unknown criterion", "shape gradient of an unknown criterion", "initial state of an unknown unknown", "initial state from an unknown field", "initial state without computed fields"}; vp::input(n[i]); vp::obs(n[i]); Case c = start(1); Sides s = default_sides(c.m); V z = control_of(c);
        bool t = vp::throws([&] { PProb p(c.m, [&](World& w, PL& l) { psetup(c, s)(w, l); pcrit_list(l, 0, c.pen); if(i != 5) put(l, "Computed Fields/a/Function", "1"); if(i == 3) put(l, "Initial State/Pressure/Computed Field", "a"); if(i == 4) put(l, "Initial State/Temperature/Computed Field", "b"); if(i == 5) put(l, "Initial State/Temperature/Computed Field", "a"); }, 0, TT[0]); p.solve(z); if(i == 0) p.value(z, "other"); if(i == 1) p.gz(z, "other"); if(i == 2) p.gx(z, "other"); }); vp::check(t, "%s was accepted", n[i]);
    });
#endif
});
} // namespace
