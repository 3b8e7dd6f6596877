// Elliptic (static) physics over whole meshes. One translation unit per physics and space dimension (PHYS, KIND, DIM); VP_PROP selects
// the property: 27 residual values, 28 residual derivatives, 29 criterion values, 30 criterion derivatives.
#include "crit.hpp"
using namespace vpm; using vp::Dec;
namespace {
typedef Plato::PHYS<DIM> P; const Kind K = KIND;
std::string sec(const char* n) { return vp::fmt("%s-%s%d", n, kind_name(K), DIM); }
V zeroone(int n) { V r; for(int i = 0; i < n; i++) r.push_back(i % 2 ? 1.0 : 0.0); return r; }
void body_load_shape(const Case& c, const Sides& s, const V& u, const V& z, Res<P>& r)
{
    // recorded defect: the coordinate derivative leaves out the body loads
    D j = r.x(u, z), q, qb; bool exact = true; const double h = 1e-3;
    for(size_t k = 0; k < c.m.x.size(); k++)
    {
        q.push_back(quotient([&](const V& y) { Res<P> t(moved(c.m, y), setup(c, s)); return t.value(u, z); }, c.m.x, k, h));
        qb.push_back(quotient([&](const V& y) { Case a = c; a.m = moved(c.m, y); Case b = a; b.load = c.load == 8 ? 10 : c.load == 7 ? 11 : 0; V e = external(a, s, z), f = external(b, s, z); for(size_t i = 0; i < e.size(); i++) e[i] -= f[i]; return e; }, c.m.x, k, h)); // body part of the load
    }
    double sc = std::fmax(big(q), big(j)); for(size_t k = 0; k < q.size(); k++) for(size_t i = 0; i < q[k].size(); i++)
    {
        if(std::fabs(j[k][i] - q[k][i]) <= 1e-6 * sc) continue; exact = false;
        if(!(std::fabs(j[k][i] - q[k][i] - qb[k][i]) <= 1e-6 * sc)) vp::fail("residual by coordinates: d(%d)/d(%d) is %.12g, difference quotient %.12g", (int)i, (int)k, j[k][i], q[k][i]);
    }
    vp::core().cur_checks += q.size() * q[0].size(); for(auto& a : j) for(double b : a) vp::obs(b);
    if(!exact) vp::known("bodyload-shape", "the coordinate derivative of the residual leaves out the body loads");
}
typedef std::function<void(PL&)> Edit; struct Bad { const char* name; Edit e; bool thermal; };
const std::vector<Bad>& malformed()
{
    static std::vector<Bad> b; if(!b.empty()) return b; const std::string n = std::string(mech_bc(K)), a = n + "/A/"; const int nd = mech_dofs(K, DIM), all = dofs(K, DIM);
    auto uni = [=](PL& p) { put(p, a + "Type", "Uniform"); put(p, a + "Sides", "top"); };
    b = {{"natural condition without a type", [=](PL& p) { put(p, a + "Sides", "top"); put(p, a + "Value", 1.0); }, true},
         {"natural condition of an unknown type", [=](PL& p) { put(p, a + "Type", "Gradient"); put(p, a + "Sides", "top"); put(p, a + "Value", 1.0); }, true},
         {"natural condition without values", uni, true},
         {"natural condition with both Value and Values", [=](PL& p) { uni(p); put(p, a + "Value", 1.0); arr(p, a + "Values", V(nd, 1.0)); }, true},
         {"natural condition on an unknown side set", [=](PL& p) { put(p, a + "Type", "Uniform"); put(p, a + "Sides", "nowhere"); arr(p, a + "Values", V(nd, 1.0)); }, true},
         {"natural condition with an index that is no degree of freedom", [=](PL& p) { uni(p); put(p, a + "Value", 1.0); put(p, a + "Index", nd); }, true},
         {"natural condition with a negative index", [=](PL& p) { uni(p); put(p, a + "Value", 1.0); put(p, a + "Index", -1); }, true},
         {"natural condition with too few values", [=](PL& p) { uni(p); arr(p, a + "Values", V(nd - 1, 1.0)); }, true},
         {"natural condition that is not a list", [=](PL& p) { put(p, n + "/A", 1.0); }, true},
         {"pressure without a value", [=](PL& p) { put(p, a + "Type", "Uniform Pressure"); put(p, a + "Sides", "top"); }, false},
         {"component load without a value", [=](PL& p) { put(p, a + "Type", "Uniform Component"); put(p, a + "Sides", "top"); put(p, a + "Component", "x"); }, false},
         {"component load without a component", [=](PL& p) { put(p, a + "Type", "Uniform Component"); put(p, a + "Sides", "top"); put(p, a + "Value", 1.0); }, false},
         {"component load with an unknown component", [=](PL& p) { put(p, a + "Type", "Uniform Component"); put(p, a + "Sides", "top"); put(p, a + "Value", 1.0); put(p, a + "Component", "w"); }, false},
         {"component load along an axis that does not exist", [=](PL& p) { put(p, a + "Type", "Uniform Component"); put(p, a + "Sides", "top"); put(p, a + "Value", 1.0); put(p, a + "Component", nd == 1 ? "y" : nd == 2 ? "z" : "w"); }, true},
         {"body load with an index that is no degree of freedom", [=](PL& p) { put(p, "Body Loads/g/Index", all); put(p, "Body Loads/g/Function", "1.0"); }, true},
         {"body load with a negative index", [=](PL& p) { put(p, "Body Loads/g/Index", -1); put(p, "Body Loads/g/Function", "1.0"); }, true},
         {"body load without a function", [=](PL& p) { put(p, "Body Loads/g/Index", 0); }, true},
         {"body load that is not a list", [=](PL& p) { put(p, "Body Loads/g", 1.0); }, true},
         {"unknown penalty function", [=](PL& p) { put(p, "Elliptic/Penalty Function/Type", "Cubic"); }, true},
         {"unknown material", [=](PL& p) { put(p, "Spatial Model/Domains/blk0dom/Material Model", "nothing"); }, true},
         {"unknown element block", [=](PL& p) { put(p, "Spatial Model/Domains/blk0dom/Element Block", "nothing"); }, true}};
    return b;
}
const Crit& C_first() { return crits(K)[0]; }
Part part([] {
#if VP_PROP == 27
    if(K == THERMAL || K == TM) vp::section(sec("temperature"), 3 * 2 * PENS.size() * 16 * 3, [](u64 i) { // temperature dependent materials
        Dec q(i); Case c; c.k = K; c.var = 1; c.m = orient(shape(DIM, q.take(3))); c.load = q.take(2); c.pen = q.pick(PENS); bool ok = color(c, q.take(16)); int st = q.take(3); if(!c.valid() || !ok) { vp::skip(); return; }
        V u = st == 1 ? field(c.m.nv() * c.nd(), 0.3, 0.5, 2) : state_of(c, st), z = st == 2 ? zeroone(c.m.nv()) : control_of(c); vp::input(c.str() + " state " + vp::vec_str(u)); Sides s = default_sides(c.m); Res<P> r(c.m, setup(c, s)); same(r.value(u, z), reference(c, s, u, z), "residual");
    });
    vp::section(sec("value"), 3 * NLOADS * PENS.size() * 16 * 3, [](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.load = q.take(NLOADS); c.pen = q.pick(PENS); bool ok = color(c, q.take(16)); int st = q.take(3); if(!c.valid() || !ok) { vp::skip(); return; }
        V u = st == 1 ? V(c.m.nv() * c.nd(), 0.0) : state_of(c, st), z = st == 2 ? zeroone(c.m.nv()) : control_of(c); vp::input(c.str() + " state " + vp::vec_str(u) + " control " + vp::vec_str(z)); Sides s = default_sides(c.m); Res<P> r(c.m, setup(c, s)); same(r.value(u, z), reference(c, s, u, z), "residual");
    });
    for(int sh = 0; sh < 3; sh++)
    {
        // every order of the vertices and of the cells, and every turn of the cells (thorough: in every combination)
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 40000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) {
            Case c; c.k = K; Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; c.load = 8; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str());
            Sides s = default_sides(m); for(auto* l : {&s.a, &s.b}) for(auto& f : *l) for(auto& n : f) n = nb.node[n]; V u = state_of(c), z = control_of(c); Res<P> r(c.m, setup(c, s)); same(r.value(u, z), reference(c, s, u, z), "residual");
        });
    }
    vp::section(sec("malformed"), malformed().size(), [](u64 i) {
        auto& b = malformed()[i]; if(K == THERMAL && !b.thermal) { vp::skip(); return; } Case c; c.k = K; c.m = orient(shape(DIM, 1)); color(c, 0); vp::input(b.name); Sides s = default_sides(c.m); Setup q = setup(c, s);
        bool t = vp::throws([&] { Res<P> r(c.m, [&](World& w, PL& p) { q(w, p); b.e(p); }); r.value(state_of(c), control_of(c)); }); vp::check(t, "%s was accepted", b.name); vp::obs(b.name);
    });
#elif VP_PROP == 28
    if(K == THERMAL || K == TM) vp::section(sec("temperature"), 3 * PENS.size() * 3, [](u64 i) {
        Dec q(i); Case c; c.k = K; c.var = 1; c.m = orient(shape(DIM, q.take(3))); c.load = 1; c.pen = q.pick(PENS); bool ok = color(c, q.take(3)); if(!c.valid() || !ok) { vp::skip(); return; } vp::input(c.str()); Sides s = default_sides(c.m); residual_derivatives<P>(c.m, setup(c, s), state_of(c), control_of(c));
    });
    vp::section(sec("deriv"), 3 * NLOADS * PENS.size() * 3 * (vp::thorough() ? 2 : 1), [](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); c.load = q.take(NLOADS); c.pen = q.pick(PENS); bool ok = color(c, q.take(3)); int st = vp::thorough() ? q.take(2) : 0; if(!c.valid() || !ok) { vp::skip(); return; }
        V u = state_of(c, st), z = control_of(c, st ? 3 : 7); vp::input(c.str() + " state " + vp::vec_str(u) + " control " + vp::vec_str(z)); Sides s = default_sides(c.m); const bool body = c.load == 4 || c.load == 5 || c.load == 7 || c.load == 8;
        residual_derivatives<P>(c.m, setup(c, s), u, z, !body); if(body) { Res<P> r(c.m, setup(c, s)); body_load_shape(c, s, u, z, r); }
    });
    for(int sh = 0; sh < 2; sh++)
    {
        if(DIM == 3 && sh == 1 && !vp::thorough()) continue; M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 2000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) {
            Case c; c.k = K; Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; c.load = 1; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str());
            Sides s = default_sides(m); for(auto* l : {&s.a, &s.b}) for(auto& f : *l) for(auto& n : f) n = nb.node[n]; residual_derivatives<P>(c.m, setup(c, s), state_of(c), control_of(c));
        });
    }
#elif VP_PROP == 29
    const auto& C = crits(K); const u64 nc = C.size();
    if(K == THERMAL || K == TM) vp::section(sec("temperature"), 3 * nc * PENS.size() * 16 * 2, [&C, nc](u64 i) {
        Dec q(i); Case c; c.k = K; c.var = 1; c.m = orient(shape(DIM, q.take(3))); Crit t = C[q.take(nc)]; c.pen = q.pick(PENS); bool ok = color(c, q.take(16)); int st = q.take(2); if(!ok || !crit_valid(c, t)) { vp::skip(); return; }
        V u = state_of(c, st), z = control_of(c); vp::input(t.str() + " " + c.str() + " state " + vp::vec_str(u)); Cri<P> r(c.m, crit_setup(c, t)); same(V(1, r.value({u}, z)), V(1, crit_value(c, t, u, z)), "criterion");
    });
    vp::section(sec("value"), 3 * nc * PENS.size() * 16 * 3, [&C, nc](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); Crit t = C[q.take(nc)]; c.pen = q.pick(PENS); bool ok = color(c, q.take(16)); int st = q.take(3); if(!ok || !crit_valid(c, t)) { vp::skip(); return; }
        V u = st == 1 ? field(c.m.nv() * c.nd(), -0.1, 0.1, 5) : state_of(c, st), z = st == 2 ? zeroone(c.m.nv()) : control_of(c); vp::input(t.str() + " " + c.str() + " state " + vp::vec_str(u) + " control " + vp::vec_str(z)); Cri<P> r(c.m, crit_setup(c, t, st == 1)); same(V(1, r.value({u}, z)), V(1, crit_value(c, t, u, z, {}, st == 1)), "criterion", t.t == AUGQ_TED && DIM == 3 ? 1e-4 : 1e-10);
    });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 4000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), (all ? A * B : A + B - 1) * nc, [=, &C](u64 j) {
            Crit t = C[j % nc]; u64 i = j / nc; Case c; c.k = K; Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; color(c, m.ne() > 1 ? 1 : 0); vp::input(t.str() + " " + c.str()); V u = state_of(c), z = control_of(c); Cri<P> r(c.m, crit_setup(c, t)); same(V(1, r.value({u}, z)), V(1, crit_value(c, t, u, z)), "criterion", t.t == AUGQ_TED && DIM == 3 ? 1e-4 : 1e-10);
        });
    }
    // every sequence of updates (of two possible design points) of the augmented Lagrangian criteria
    std::vector<Crit> aug; for(auto& t : C) if(is_aug(t.t)) aug.push_back(t); const int depth = vp::thorough() ? 6 : 4;
    if(!aug.empty()) vp::section(sec("updates"), aug.size() * 3 * 2 * 2 * ((2u << depth) - 1), [aug, depth](u64 i) {
        Dec q(i); Case c; c.k = K; Crit t = aug[q.take(aug.size())]; c.m = orient(shape(DIM, q.take(3))); if(!color(c, q.take(2))) { vp::skip(); return; } int set = q.take(2); u64 k = q.take((2u << depth) - 1) + 1; std::vector<Upd> h; std::string s; while(k > 1) { int b = k & 1; k >>= 1; h.push_back({field(c.m.nv() * c.nd(), b ? -1 : -0.1, b ? 1 : 0.1, b), control_of(c, 7 + b)}); s += b ? 'b' : 'a'; }
        vp::input(t.str() + " " + c.str() + " updates " + s); V u = state_of(c, 2), z = control_of(c, 11); Cri<P> r(c.m, crit_setup(c, t, set)); for(auto& x : h) { r.f->updateProblem(dev(x.u), dev(x.z)); vp::calls(); } same(V(1, r.value({u}, z)), V(1, crit_value(c, t, u, z, h, set)), "criterion after the updates", t.t == AUGQ_TED && DIM == 3 ? 1e-4 : 1e-10);
    });
    vp::section(sec("composite"), nc * nc * NCOMP * 3, [&C, nc](u64 i) {
        Dec q(i); Case c; c.k = K; Comp t{(int)q.take(NCOMP), C[q.take(nc)], C[q.take(nc)]}; c.m = orient(shape(DIM, q.take(3))); color(c, c.m.ne() > 1 ? 1 : 0); if(t.a.t == EFFECTIVE && t.b.t == EFFECTIVE && t.a.p != t.b.p) { vp::skip(); return; } V u = state_of(c), z = control_of(c);
        vp::input(t.str() + " " + c.str()); Cri<P> r(c.m, comp_setup(c, t)); if(comp_den(t.kind, crit_value(c, t.a, u, z), crit_value(c, t.b, u, z)) == 0) { vp::check(vp::throws([&] { r.value({u}, z); }), "a division by zero was accepted"); return; } same(V(1, r.value({u}, z)), V(1, comp_value(t.kind, crit_value(c, t.a, u, z), crit_value(c, t.b, u, z))), "composite criterion", 1e-4);
    });
    vp::section(sec("solution"), 3 * 2 * 63, [](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); color(c, 0); int mag = q.take(2); u64 bits = q.take(63) + 1; if(bits >> c.m.nv()) { vp::skip(); return; } std::vector<int> n; for(int v = c.m.nv() - 1; v >= 0; v--) if(bits >> v & 1) n.push_back(v);
        vp::input(vp::fmt("solution criterion, magnitude %d, nodes %llx ", mag, bits) + c.str()); V u = state_of(c), z = control_of(c); Cri<P> r(c.m, sol_setup(c, mag, n)); same(V(1, r.value({state_of(c, 3), u}, z)), V(1, sol_value(c, mag, n, u)), "solution criterion");
    });
    auto bad = [](const char* what, Setup edit) { vp::input(what); Case c; c.k = K; c.m = orient(shape(DIM, 1)); color(c, 0); Setup s = crit_setup(c, C_first()); bool t = vp::throws([&] { Cri<P> r(c.m, [&](World& w, PL& p) { s(w, p); edit(w, p); }); r.value({state_of(c)}, control_of(c)); }); vp::check(t, "%s was accepted", what); vp::obs(what); };
    vp::section(sec("malformed"), 13, [bad](u64 i) {
        const std::string b = "Criteria/crit/"; auto comp = [=](PL& p, const char* ty) { p.sublist("Criteria").sublist("crit").set("Type", std::string(ty)); };
        if(i == 0) bad("an unknown criterion", [=](World&, PL& p) { put(p, b + "Scalar Function Type", "Happiness"); });
        if(i == 1) { Case c; c.k = K; c.m = orient(shape(DIM, 1)); color(c, 0); vp::input("an unknown type of criterion"); Setup s = crit_setup(c, C_first()); Sys y(c.m, [&](World& w, PL& p) { s(w, p); comp(p, "Guess"); }); std::string n = "crit"; Plato::Elliptic::ScalarFunctionBaseFactory<P> k; bool none = false; if(!vp::throws([&] { none = k.create(y.sm, y.dm, y.pl, n) == nullptr; })) vp::check(none, "a criterion of an unknown type was created"); vp::obs(none); }
        if(i == 2) bad("an unknown penalty function", [=](World&, PL& p) { put(p, b + "Penalty Function/Type", "Cubic"); });
        if(i == 3) bad("a weighted sum with too few weights", [=](World&, PL& p) { comp(p, "Weighted Sum"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); names(p, b + "Functions", {"f1", "f1"}); arr(p, b + "Weights", {1.0}); });
        if(i == 4) bad("a weighted sum without functions", [=](World&, PL& p) { comp(p, "Weighted Sum"); arr(p, b + "Weights", {1.0}); });
        if(i == 5) bad("least squares with too few gold values", [=](World&, PL& p) { comp(p, "Least Squares"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); names(p, b + "Functions", {"f1", "f1"}); arr(p, b + "Weights", {1.0, 2.0}); arr(p, b + "Gold Values", {1.0}); });
        if(i == 6) bad("a division without denominator", [=](World&, PL& p) { comp(p, "Division"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); put(p, b + "Numerator", "f1"); });
        if(i == 7) { if(K == THERMAL) { vp::skip(); return; } bad("a solution criterion without normal", [=](World& w, PL& p) { comp(p, "Solution"); w.nodes("pts", {0}); put(p, b + "Domain", "pts"); }); }
        if(i == 8) bad("a solution criterion without domain", [=](World&, PL& p) { comp(p, "Solution"); arr(p, b + "Normal", normal_of(dofs(K, DIM))); });
        if(i == 9) bad("a sum over an unknown criterion", [=](World&, PL& p) { comp(p, "Weighted Sum"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); names(p, b + "Functions", {"f1", "nothing"}); arr(p, b + "Weights", {1.0, 2.0}); });
        if(i == 10) bad("a division by an unknown criterion", [=](World&, PL& p) { comp(p, "Division"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); put(p, b + "Numerator", "f1"); put(p, b + "Denominator", "nothing"); });
        if(i == 11) bad("least squares of an unknown criterion", [=](World&, PL& p) { comp(p, "Least Squares"); crit_list(p, K, DIM, C_first(), PENS[0], "f1"); names(p, b + "Functions", {"nothing", "f1"}); arr(p, b + "Weights", {1.0, 2.0}); arr(p, b + "Gold Values", {1.0, 2.0}); });
        if(i == 12) bad("a solution criterion over an unknown node set", [=](World& w, PL& p) { comp(p, "Solution"); w.nodes("pts", {0}); put(p, b + "Domain", "points"); arr(p, b + "Normal", normal_of(dofs(K, DIM))); });
    });
#elif VP_PROP == 30
    const auto& C = crits(K); const u64 nc = C.size();
    auto check = [](const Case& c, const Setup& s, const V& u, const V& z, const std::vector<Upd>& h, bool loose, bool do_x) {
        auto make = [&](const M& m) { auto r = std::make_shared<Cri<P>>(m, s); for(auto& x : h) r->f->updateProblem(dev(x.u), dev(x.z)); return r; }; auto r = make(c.m); const double tol = loose ? 2e-3 : 2e-6, d = loose ? 1e-4 : 1e-3;
        derivative([&](const V& y) { return V(1, r->value({y}, z)); }, u, column(r->u({u}, z)), "criterion by state", d, tol);
        derivative([&](const V& y) { return V(1, r->value({u}, y)); }, z, column(r->z({u}, z)), "criterion by control", d, tol);
        if(do_x) derivative([&](const V& y) { return V(1, make(moved(c.m, y))->value({u}, z)); }, c.m.x, column(r->x({u}, z)), "criterion by coordinates", d, tol);
    };
    if(K == THERMAL || K == TM) vp::section(sec("temperature"), 3 * nc * PENS.size() * 3, [&C, nc, check](u64 i) {
        Dec q(i); Case c; c.k = K; c.var = 1; c.m = orient(shape(DIM, q.take(3))); Crit t = C[q.take(nc)]; c.pen = q.pick(PENS); bool ok = color(c, q.take(3)); if(!ok || !crit_valid(c, t)) { vp::skip(); return; } V u = state_of(c), z = control_of(c);
        double mg = 1; crit_value(c, t, u, z, {}, 0, &mg); if(mg < 0.02) { vp::skip(); return; } vp::input(t.str() + " " + c.str()); check(c, crit_setup(c, t), u, z, {}, false, true);
    });
    vp::section(sec("deriv"), 3 * nc * PENS.size() * 3 * 2, [&C, nc, check](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); Crit t = C[q.take(nc)]; c.pen = q.pick(PENS); bool ok = color(c, q.take(3)); int st = q.take(2); if(!ok || !crit_valid(c, t)) { vp::skip(); return; } V u = state_of(c, st), z = control_of(c, st ? 3 : 7);
        double mg = 1; crit_value(c, t, u, z, {}, 0, &mg); if(mg < 0.02) { vp::skip(); return; } vp::input(t.str() + " " + c.str() + " state " + vp::vec_str(u) + " control " + vp::vec_str(z)); check(c, crit_setup(c, t), u, z, {}, t.t == AUGQ_TED, t.t != AUG && t.t != AUGGEN);
    });
    for(int sh = 0; sh < 2; sh++)
    {
        if(DIM == 3 && sh == 1 && !vp::thorough()) continue; M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 500;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) { Crit t{ENERGY}; Case c; c.k = K; Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; color(c, m.ne() > 1 ? 1 : 0); vp::input(t.str() + " " + c.str()); check(c, crit_setup(c, t), state_of(c), control_of(c), {}, false, true); });
    }
    std::vector<Crit> aug; for(auto& t : C) if(is_aug(t.t)) aug.push_back(t); const int depth = vp::thorough() ? 4 : 2;
    if(!aug.empty()) vp::section(sec("updates"), aug.size() * 2 * ((2u << depth) - 1), [aug, depth, check](u64 i) {
        Dec q(i); Case c; c.k = K; Crit t = aug[q.take(aug.size())]; c.m = orient(shape(DIM, 1)); color(c, q.take(2)); u64 k = q.take((2u << depth) - 1) + 1; std::vector<Upd> h; std::string s; while(k > 1) { int b = k & 1; k >>= 1; h.push_back({field(c.m.nv() * c.nd(), b ? -1 : -0.1, b ? 1 : 0.1, b), control_of(c, 7 + b)}); s += b ? 'b' : 'a'; }
        vp::input(t.str() + " " + c.str() + " updates " + s); V u = state_of(c, 2), z = control_of(c, 11); double mg = 1; crit_value(c, t, u, z, {}, 0, &mg); if(mg < 0.02) { vp::skip(); return; } check(c, crit_setup(c, t), u, z, h, t.t == AUGQ_TED, false);
    });
    vp::section(sec("composite"), nc * nc * NCOMP * (vp::thorough() ? 3 : 1), [&C, nc, check](u64 i) {
        Dec q(i); Case c; c.k = K; Comp t{(int)q.take(NCOMP), C[q.take(nc)], C[q.take(nc)]}; c.m = orient(shape(DIM, vp::thorough() ? q.take(3) : 1)); color(c, c.m.ne() > 1 ? 1 : 0); if(t.a.t == EFFECTIVE && t.b.t == EFFECTIVE && t.a.p != t.b.p) { vp::skip(); return; } V u = state_of(c), z = control_of(c); double mg = 1; crit_value(c, t.a, u, z, {}, 0, &mg); crit_value(c, t.b, u, z, {}, 0, &mg); if(mg < 0.02) { vp::skip(); return; }
        if(comp_den(t.kind, crit_value(c, t.a, u, z), crit_value(c, t.b, u, z)) == 0) { vp::skip(); return; } bool ted = t.a.t == AUGQ_TED || t.b.t == AUGQ_TED, mass = t.a.t == AUG || t.b.t == AUG || t.a.t == AUGGEN || t.b.t == AUGGEN; vp::input(t.str() + " " + c.str()); check(c, comp_setup(c, t), u, z, {}, ted, !mass);
    });
    vp::section(sec("solution"), 3 * 2 * 63, [check](u64 i) {
        Dec q(i); Case c; c.k = K; c.m = orient(shape(DIM, q.take(3))); color(c, 0); int mag = q.take(2); u64 bits = q.take(63) + 1; if(bits >> c.m.nv()) { vp::skip(); return; } std::vector<int> n; for(int v = c.m.nv() - 1; v >= 0; v--) if(bits >> v & 1) n.push_back(v);
        vp::input(vp::fmt("solution criterion, magnitude %d, nodes %llx ", mag, bits) + c.str()); check(c, sol_setup(c, mag, n), field(c.m.nv() * c.nd(), 0.4, 1.4, 4), control_of(c), {}, false, true);
    });
#endif
});
} // namespace
