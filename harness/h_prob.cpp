// Whole static problems: solve, criteria at the solution, total gradients, and every short sequence of calls. One translation unit per
// physics and space dimension. VP_PROP 31: solution, values, gradients, call sequences; 32: essential boundary conditions; 38: output fields.
#include "crit.hpp"
#include "bc.hpp"
#include "EssentialBCs.hpp"
#include "out.hpp"
#if VP_PROP != 32
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include "elliptic/Problem.hpp"
#endif
#include <mpi.h>
using namespace vpm; using vp::Dec;
namespace {
typedef Plato::PHYS<DIM> P; const Kind K = KIND;
std::string sec(const char* n) { return vp::fmt("%s-%s%d", n, kind_name(K), DIM); }
#if VP_PROP != 32
struct Prob
{
    World w; PL pl; std::shared_ptr<Plato::Elliptic::Problem<P>> p;
    Prob(const M& m, const Setup& s, int bc) : w(m)
    {
        mpi(); s(w, pl); bc_list(K, w, pl, bc); put(pl, "Linear Solver/Tolerance", 1e-15); put(pl, "Linear Solver/Iterations", 500); MPI_Comm self = MPI_COMM_SELF; p = std::make_shared<Plato::Elliptic::Problem<P>>(w.mesh, w.sets, pl, Plato::Comm::Machine(self));
        if(bc < 3) p->readEssentialBoundaryConditions(pl); else { auto f = fixed(K, m, bc); Plato::LocalOrdinalVector d("d", f.size()); Plato::ScalarVector v("v", f.size()); int k = 0; for(auto& a : f) { d(k) = a.first; v(k++) = a.second; } p->setEssentialBoundaryConditions(d, v); }
    }
    V solve(const V& z) { vp::calls(); auto s = p->solution(dev(z)); V r; vp::check(s.State.extent(0) == 1, "%d states", (int)s.State.extent(0)); for(size_t i = 0; i < s.State.extent(1); i++) r.push_back(s.State(0, i)); return r; }
    double value(const V& z, const std::string& n = "crit") { vp::calls(); return p->criterionValue(dev(z), n); }
    V gz(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradient(dev(z), n)); }
    V gx(const V& z, const std::string& n = "crit") { vp::calls(); return host(p->criterionGradientX(dev(z), n)); }
};
void equilibrium(const Case& c, const Sides& s, int bc, const V& u, const V& z)
{
    auto f = fixed(K, c.m, bc); V r = reference(c, s, u, z); Case fr = c; V in = internal(c, u, z), ex = external(c, s, z); double sc = std::fmax(big(in), big(ex));
    for(size_t i = 0; i < u.size(); i++) { vp::obs(u[i]); if(f.count(i)) { if(!(std::fabs(u[i] - f[i]) <= 1e-11)) vp::fail("prescribed dof %d is %.15g, given %.15g", (int)i, u[i], f[i]); } else if(!(std::fabs(r[i]) <= 1e-9 * sc)) vp::fail("dof %d is not in equilibrium: force %.3g (scale %.3g)", (int)i, r[i], sc); } vp::core().cur_checks += u.size();
}
const char* OPS[] = {"solve a", "solve b", "value f", "value g", "gradient f", "gradient g", "shape gradient f", "value v", "gradient v", "shape gradient v"}; const int NOPS = 10;
#endif
Part part([] {
#if VP_PROP == 31
    const auto& C = crits(K); const u64 nc = C.size();
    vp::section(sec("solve"), 3 * NLOADS * PENS.size() * (vp::thorough() ? 16 : 3) * 4 * 2, [](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.load = q.take(NLOADS); c.pen = q.pick(PENS); bool ok = color(c, q.take(vp::thorough() ? 16 : 3)); int bc = q.take(4); const bool nw = q.take(2); if(!c.valid() || !ok) { vp::skip(); return; } V z = control_of(c); vp::input(vp::fmt("constraints %d %s ", bc, nw ? "three Newton iterations" : "") + c.str()); Sides s = default_sides(c.m); Setup st = setup(c, s);
        Prob p(c.m, [&](World& w, PL& l) { st(w, l); if(nw) { put(l, "Newton Iteration/Maximum Iterations", 3); put(l, "Newton Iteration/Increment Tolerance", 1e-12); put(l, "Newton Iteration/Residual Tolerance", 1e-12); } }, bc); equilibrium(c, s, bc, p.solve(z), z);
    });
    vp::section(sec("gradient"), nc * 3 * 3 * 4 * (vp::thorough() ? 4 : 1), [&C, nc](u64 i) {
        static const int L[] = {1, 2, 8, 7}; Dec q(i); Case c; c.k = K; Crit t = C[q.take(nc)]; c.m = orient(shape(DIM, q.take(3))); color(c, q.take(3) == 1 && c.m.ne() > 1 ? 1 : 0); int bc = q.take(4); c.load = vp::thorough() ? q.pick(L) : c.k == THERMAL ? 1 : L[bc % 2]; Dec q2(i); q2.take(nc); q2.take(3); int pn = q2.take(3); c.pen = PENS[pn]; if(!crit_valid(c, t) || !c.valid()) { vp::skip(); return; }
        V z = control_of(c); vp::input(t.str() + vp::fmt(" constraints %d ", bc) + c.str() + " control " + vp::vec_str(z)); Sides s = default_sides(c.m); Setup st = setup(c, s);  Setup all = [=](World& w, PL& l) { st(w, l); crit_list(l, c.k, c.m.d, t, c.pen, "crit"); };
        Prob p(c.m, all, bc); V u = p.solve(z); if(t.t != EFFECTIVE) equilibrium(c, s, bc, u, z); same(V(1, p.value(z)), V(1, crit_value(c, t, u, z)), "criterion at the solution", t.t == AUGQ_TED ? 1e-4 : 1e-9); double mg = 1; crit_value(c, t, u, z, {}, 0, &mg); if(mg < 0.03) return;
        const bool body = c.load == 4 || c.load == 5 || c.load == 7 || c.load == 8, mass = t.t == AUG || t.t == AUGGEN; const double h = t.t == AUGQ_TED ? 1e-4 : 1e-3, tol = t.t == AUGQ_TED ? 2e-3 : 1e-5; const double fl = std::fmax(1e-8, std::fabs(p.value(z))); V gz = p.gz(z), gx; if(!body && !mass) gx = p.gx(z);
        derivative([&](const V& y) { Prob r(c.m, all, bc); r.solve(y); return V(1, r.value(y)); }, z, column(gz), "total gradient by control", h, tol, fl); if(!body && !mass) derivative([&](const V& y) { Prob r(moved(c.m, y), all, bc); r.solve(z); return V(1, r.value(z)); }, c.m.x, column(gx), "total gradient by coordinates", h, tol, fl);
    });
    vp::section(sec("selfadjoint"), 3 * PENS.size() * 2, [](u64 i) {
        if(K != MECH) { vp::skip(); return; } Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.pen = q.pick(PENS); c.load = q.take(2) ? 2 : 1; color(c, c.m.ne() > 1 ? 1 : 0); V z = control_of(c); vp::input("self-adjoint " + c.str()); Sides s = default_sides(c.m); Setup st = setup(c, s); auto mk = [&](bool sa) { return [=](World& w, PL& l) { st(w, l); crit_list(l, c.k, c.m.d, Crit{ENERGY}, c.pen, "crit"); if(sa) put(l, "Self-Adjoint", true); }; };
        Prob a(c.m, mk(true), 0), b(c.m, mk(false), 0); a.solve(z); b.solve(z); same(a.gz(z), b.gz(z), "self-adjoint gradient by control", 1e-8);
    });
    // every sequence of calls up to the bound: each answer is that of a fresh problem solved for the last control
    const int depth = vp::thorough() ? 4 : 3;
    vp::section(sec("calls"), vp::ipow(NOPS, depth), [depth](u64 i) {
        Case c; c.k = K; c.m = orient(shape(DIM, 1)); c.load = 1; color(c, 1); Sides s = default_sides(c.m); Setup st = setup(c, s); Crit f = crits(K)[0], g = crits(K)[1]; if(K == TM) g = Crit{VOLUME}; V Z[2] = {control_of(c, 7), control_of(c, 9)};
        Setup all = [=](World& w, PL& l) { st(w, l); crit_list(l, c.k, c.m.d, f, c.pen, "f"); crit_list(l, c.k, c.m.d, g, c.pen, "g"); put(l, "Criteria/v/Type", "Scalar Function"); put(l, "Criteria/v/Linear", true); put(l, "Criteria/v/Scalar Function Type", "Volume"); pen_list(l, "Criteria/v", Pen{"SIMP", 1, 0}); };
        auto run = [&](Prob& p, int op, int zi) { V z = Z[zi]; switch(op) { case 0: return p.solve(Z[0]); case 1: return p.solve(Z[1]); case 2: return V(1, p.value(z, "f")); case 3: return V(1, p.value(z, "g")); case 4: return p.gz(z, "f"); case 5: return p.gz(z, "g"); case 6: return p.gx(z, "f"); case 7: return V(1, p.value(z, "v")); case 8: return p.gz(z, "v"); default: return p.gx(z, "v"); } };
        static std::map<int, V> fresh; if(fresh.empty()) for(int zi = 0; zi < 2; zi++) for(int op = 0; op < NOPS; op++) { Prob p(c.m, all, 1); run(p, zi, 0); fresh[zi * NOPS + op] = run(p, op, zi); }
        Prob p(c.m, all, 1); Dec q(i); int zi = 0; std::string seq = "solve a"; std::vector<int> ops; for(int k = 0; k < depth; k++) { ops.push_back(q.take(NOPS)); seq += std::string(", ") + OPS[ops.back()]; } vp::input(seq + " " + c.str()); run(p, 0, 0); for(int op : ops) { if(op < 2) zi = op; same(run(p, op, zi), fresh[zi * NOPS + op], OPS[op], 1e-8); }
    });
    vp::section(sec("unknown"), 5, [](u64 i) {
        Case c; c.k = K; c.m = orient(shape(DIM, 1)); c.load = 1; color(c, 0); Sides s = default_sides(c.m); Setup st = setup(c, s); static const char* n[] = {"value of an unknown criterion", "gradient of an unknown criterion", "shape gradient of an unknown criterion", "essential conditions of different lengths", "no essential conditions"}; vp::input(n[i]); vp::obs(n[i]);
        Prob p(c.m, [=](World& w, PL& l) { st(w, l); crit_list(l, c.k, c.m.d, crits(K)[0], c.pen, "crit"); }, 0); V z = control_of(c); p.solve(z); bool t = vp::throws([&] { if(i == 0) p.value(z, "other"); if(i == 1) p.gz(z, "other"); if(i == 2) p.gx(z, "other"); if(i == 3) p.p->setEssentialBoundaryConditions(Plato::LocalOrdinalVector("d", 2), Plato::ScalarVector("v", 3)); if(i == 4) { PL e; p.p->readEssentialBoundaryConditions(e); } }); vp::check(t, "%s was accepted", n[i]);
    });
#elif VP_PROP == 38
    const auto FN = field_names(K); const int NS = 1 << FN.size();
    // the fields asked for, every subset of them, after every evaluation
    vp::section(sec("fields"), 3 * PENS.size() * 8 * 2 * NS, [=](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.pen = q.pick(PENS); bool ok = color(c, q.take(8)); c.var = q.take(2); auto n = subset(FN, q.take(NS)); c.load = 1; if(!c.valid() || !ok || (c.var && K != THERMAL && K != TM)) { vp::skip(); return; } std::string t; for(auto& x : n) t += " " + x; vp::input("fields" + t + " of " + c.str());
        Sides s = default_sides(c.m); Setup st = setup(c, s); Res<P> r(c.m, [&](World& w, PL& l) { st(w, l); auto m = n; m.push_back("nothing"); names(l, "Elliptic/Plottable", m); }); V u = state_of(c, 1), u2 = state_of(c, 4), z = control_of(c), z2 = control_of(c, 9);
        r.value(u, z); check_fields(r.s.dm, fields_of(c, u, z, n), c.m.ne(), "after one evaluation"); r.value(u2, z2); check_fields(r.s.dm, fields_of(c, u2, z2, n), c.m.ne(), "after a second evaluation"); r.value(u, z2); check_fields(r.s.dm, fields_of(c, u, z2, n), c.m.ne(), "after a third evaluation");
        r.u(u, z2); r.z(u, z2); r.x(u, z2); check_fields(r.s.dm, fields_of(c, u, z2, n), c.m.ne(), "after the derivatives");
    });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne());
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), A + B - 1, [=](u64 i) {
            Numbered nb = renumber(m, i < A ? i : (i - A + 1) * A); Case c; c.k = K; c.m = nb.m; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str()); Sides s = default_sides(c.m); Setup st = setup(c, s); Res<P> r(c.m, [&](World& w, PL& l) { st(w, l); names(l, "Elliptic/Plottable", FN); }); V u = state_of(c, 1), z = control_of(c); r.value(u, z); check_fields(r.s.dm, fields_of(c, u, z, FN), c.m.ne(), "after one evaluation");
        });
    }
    // a solved problem: the saved state holds the fields of the solution, whatever is asked of the problem afterwards
    vp::section(sec("solved"), 3 * 3 * 4 * 3 * NS * 2, [=](u64 i) {
        static const int L[] = {1, 4, 8}; Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.pen = PENS[q.take(2)]; bool ok = color(c, q.take(3)); int bc = q.take(4); c.load = q.pick(L); int code = q.take(NS); auto n = subset(FN, code); const bool nw = q.take(2); if(!c.valid() || !ok || (!vp::thorough() && bc > 1 && code % 3)) { vp::skip(); return; } std::string t; for(auto& x : n) t += " " + x; vp::input(vp::fmt("constraints %d%s fields", bc, nw ? " Newton" : "") + t + " of " + c.str());
        Sides s = default_sides(c.m); Setup st = setup(c, s); Crit cr{ENERGY}; Prob p(c.m, [&](World& w, PL& l) { st(w, l); names(l, "Elliptic/Plottable", n); crit_list(l, K, DIM, cr, c.pen, "crit"); if(nw) { put(l, "Newton Iteration/Maximum Iterations", 3); put(l, "Newton Iteration/Increment Tolerance", 1e-12); } }, bc); V z = control_of(c), z2 = control_of(c, 9), u = p.solve(z); auto& dm = p.p->getDataMap();
        vp::eqi(dm.stateDataMaps.size(), 1, "saved states"); check_fields(dm.getState(0), fields_of(c, u, z, n), c.m.ne(), "saved state"); p.value(z); p.gz(z); vp::eqi(dm.stateDataMaps.size(), 1, "saved states"); check_fields(dm.getState(0), fields_of(c, u, z, n), c.m.ne(), "saved state after the gradient");
        V u2 = p.solve(z2); vp::eqi(dm.stateDataMaps.size(), 1, "saved states after a second solve"); check_fields(dm.getState(0), fields_of(c, u2, z2, n), c.m.ne(), "saved state of the second solve");
    });
    // what every cell contributes to a criterion
    vp::section(sec("contributions"), 3 * PENS.size() * 8 * 2, [=](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.pen = q.pick(PENS); bool ok = color(c, q.take(8)); const bool geo = q.take(2); Crit cr{ENERGY}; c.load = 1; if(!c.valid() || !ok || !crit_valid(c, cr) || c.pen.type == "NoPenalty") { vp::skip(); return; } vp::input((geo ? "volume of " : "energy of ") + c.str()); Sides s = default_sides(c.m); Setup st = setup(c, s);
        Prob p(c.m, [&](World& w, PL& l) { st(w, l); crit_list(l, K, DIM, cr, c.pen, "crit"); put(l, "Criteria/v/Type", "Scalar Function"); put(l, "Criteria/v/Linear", true); put(l, "Criteria/v/Scalar Function Type", "Volume"); pen_list(l, "Criteria/v", c.pen); }, 1); V z = control_of(c), z2 = control_of(c, 9);
        auto want = [&](const V& u, const V& y) { Fields f; for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, y); Case one = c; one.m.c.assign(c.m.c.begin() + e * (DIM + 1), c.m.c.begin() + (e + 1) * (DIM + 1)); one.blk = {c.blk[e]}; f[geo ? "v" : "crit"].push_back(V(1, geo ? k.vol * c.pen(k.rho) : crit_value(one, cr, u, y))); } return f; };
        for(int k = 0; k < 3; k++) { const V& y = k == 1 ? z2 : z; V u = p.solve(y); p.value(y, geo ? "v" : "crit"); check_fields(p.p->getDataMap().getState(), want(u, y), c.m.ne(), vp::fmt("evaluation %d", k).c_str()); }
    });
    // fields of the energy criterion
    if(K == MECH || K == EM) vp::section(sec("criterion"), 3 * PENS.size() * 8 * 8, [=](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.pen = q.pick(PENS); bool ok = color(c, q.take(8)); std::vector<std::string> all = {"strain", "stress"}; if(K == EM) all.push_back("edisp"); auto n = subset(all, q.take(8)); Crit cr{ENERGY}; if(!c.valid() || !ok || !crit_valid(c, cr)) { vp::skip(); return; } std::string t; for(auto& x : n) t += " " + x; vp::input("fields" + t + " of " + c.str());
        Sides s = default_sides(c.m); Setup st = setup(c, s); Cri<P> r(c.m, [&](World& w, PL& l) { st(w, l); names(l, "Plottable", n); crit_list(l, K, DIM, cr, c.pen, "crit"); }); V u = state_of(c, 1), z = control_of(c); r.value({u}, z); check_fields(r.s.dm, fields_of(c, u, z, n), c.m.ne(), "after one evaluation");
    });
    // the stress a constraint compares with its limit
    if(K == MECH) vp::section(sec("constraint"), 4 * 3 * 8 * 3, [=](u64 i) {
        static const CT T[] = {AUG, AUGGEN, AUGQ_VM, AUGQ_TED}; static const char* N[] = {"Vonmises", "Vonmises", "VonMises", "TensileEnergyDensity"}; Dec q(i); Case c; c.k = K; const int t = q.take(4); Crit cr{T[t]}; c.m = orient(shape(DIM, q.take(3))); bool ok = color(c, q.take(8)); const int su = q.take(3); if(!c.valid() || !ok || !crit_valid(c, cr)) { vp::skip(); return; } vp::input(vp::fmt("%s, state %d, of ", N[t], su) + c.str());
        Sides s = default_sides(c.m); Setup st = setup(c, s); Cri<P> r(c.m, [&](World& w, PL& l) { st(w, l); crit_list(l, K, DIM, cr, c.pen, "crit"); });
        auto want = [&](const V& u, const V& z) { Fields f; AugPar a = aug_par(cr.t, 0); for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); Mat mt = c.mat_of(e); Gen g = kinetics(c.k, mt, k, DIM, u); f[N[t]].push_back(V(1, penal("SIMP", k.rho, a.simp, a.ersatz) * (cr.t == AUGQ_TED ? tensile(DIM, mt, g.e) : mises(DIM, g.s)))); } return f; };
        const double tol = cr.t == AUGQ_TED ? 1e-6 : 1e-9; /* eigenvalues are iterated to a tolerance */ V u = state_of(c, 1 + su), u2 = state_of(c, 4 + su), z = control_of(c), z2 = control_of(c, 9); r.value({u}, z); check_fields(r.s.dm, want(u, z), c.m.ne(), "after one evaluation", tol); r.value({u2}, z2); check_fields(r.s.dm, want(u2, z2), c.m.ne(), "after a second evaluation", tol); r.value({u}, z2); check_fields(r.s.dm, want(u, z2), c.m.ne(), "after a third evaluation", tol);
    });
#elif VP_PROP == 32
    // up to three conditions, each on any node set, component and kind, at several times
    typedef Plato::EssentialBCs<typename P::SimplexT> BC; struct One { u64 bits; int dof, kind; };
    static const char* KN[] = {"zero", "value", "function", "time-dependent value", "time-dependent function"}; const int NK = 5; const u64 nd = dofs(K, DIM), sets = (1u << (DIM + 1)) - 1;
    auto run = [=](const std::vector<One>& a, double time, int scale) {
        M m = orient(shape(DIM, 0)); World w(m); PL p; std::vector<std::pair<int, double>> want; std::string in; std::map<Plato::OrdinalType, Plato::Scalar> sf; if(scale) sf[scale - 1] = 4.0;
        for(size_t k = 0; k < a.size(); k++)
        {
            std::vector<int> n; for(int v = DIM; v >= 0; v--) if(a[k].bits >> v & 1) n.push_back(v); w.nodes(vp::fmt("set%d", (int)k), n); std::string b = vp::fmt("c%d/", (int)k); put(p, b + "Type", a[k].kind == 0 ? "Zero Value" : a[k].kind < 3 ? "Fixed Value" : "Time Dependent"); put(p, b + "Sides", vp::fmt("set%d", (int)k)); if(a[k].dof) put(p, b + "Index", a[k].dof);
            double val = a[k].kind == 0 ? 0 : a[k].kind == 1 || a[k].kind == 3 ? 1.5 + k : (2.0 + k) * time - 0.25; if(a[k].kind == 1 || a[k].kind == 3) put(p, b + "Value", 1.5 + k); if(a[k].kind == 2 || a[k].kind == 4) put(p, b + "Function", vp::fmt("%d*t-0.25", (int)(2 + k))); if(scale && a[k].dof == scale - 1) val /= 4; for(int v : n) want.push_back({v * nd + a[k].dof, val}); in += vp::fmt("%s of component %d at nodes %llx; ", KN[a[k].kind], a[k].dof, a[k].bits);
        }
        vp::input(in + vp::fmt("time %g scale %d", time, scale)); Plato::LocalOrdinalVector d("d", 2); Plato::ScalarVector v("v", 1); if(scale) { BC b(p, w.sets, sf); b.get(d, v, time); } else { BC b(p, w.sets); b.get(d, v, time); } vp::calls(2);
        vp::check(d.extent(0) == want.size() && v.extent(0) == want.size(), "%d dofs and %d values, expected %d", (int)d.extent(0), (int)v.extent(0), (int)want.size()); std::vector<std::pair<int, double>> got; for(size_t i = 0; i < want.size(); i++) got.push_back({d(i), v(i)});
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); for(size_t i = 0; i < want.size(); i++) { vp::eqi(got[i].first, want[i].first, "prescribed dof"); vp::eq(got[i].second, want[i].second, "prescribed value"); vp::obs(got[i].second); }
    };
    static const double TT[] = {0.0, 0.5, 3.0};
    vp::section(sec("one"), sets * nd * NK * 3 * (nd + 1), [=](u64 i) { Dec q(i); One a; a.bits = q.take(sets) + 1; a.dof = q.take(nd); a.kind = q.take(NK); double t = q.pick(TT); run({a}, t, q.take(nd + 1)); });
    vp::section(sec("two"), sets * nd * NK * sets * nd * NK, [=](u64 i) { Dec q(i); One a, b; a.bits = q.take(sets) + 1; a.dof = q.take(nd); a.kind = q.take(NK); b.bits = q.take(sets) + 1; b.dof = q.take(nd); b.kind = q.take(NK); run({a, b}, 0.5, 0); });
    vp::section(sec("empty"), 2, [=](u64 i) { if(i) run({{0, 0, 1}, {3, 0, 1}}, 0, 0); else run({}, 0, 0); });
    vp::section(sec("malformed"), 9, [=](u64 i) {
        static const char* n[] = {"no type", "unknown type", "no sides", "unknown sides", "no value", "both value and function", "an index that is no degree of freedom", "a negative index", "not a list"}; vp::input(n[i]); vp::obs(n[i]);
        bool t = vp::throws([&] { M m = orient(shape(DIM, 0)); World w(m); PL p; w.nodes("s", {0, DIM}); if(i == 8) p.set("A", 1.0); else { if(i != 0) put(p, "A/Type", i == 1 ? "Weird Value" : "Fixed Value"); if(i != 2) put(p, "A/Sides", i == 3 ? "x" : "s"); if(i != 4) put(p, "A/Value", 1.0); if(i == 5) put(p, "A/Function", "t"); if(i == 6) put(p, "A/Index", (int)nd); if(i == 7) put(p, "A/Index", -1); } BC b(p, w.sets); Plato::LocalOrdinalVector d; Plato::ScalarVector v; b.get(d, v, 0); vp::calls(); }); vp::check(t, "an essential boundary condition with %s was accepted", n[i]);
    });
#endif
});
} // namespace
