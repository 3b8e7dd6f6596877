// Geometric criteria (volume, mass properties, their composites) and the mass properties of the static physics, against integrals
// taken over the cells by hand.
#include "phys.hpp"
#include "Geometrical.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
using namespace vpm; using vp::Dec;
namespace
{
typedef Plato::Geometrical<DIM> G;
const std::vector<std::string> PROPS = {"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"};
std::string sec(const char* n) { return vp::fmt("%s_%dd", n, DIM); }
// material densities: set 0 given for every block, 1 block 0 without a value (the default is one)
double density(int set, int b) { return b ? 0.6 : set ? 1.0 : 2.3; }
void blocks(World& w, PL& p, const Case& c, int set = 0) { block_list(w, p, c); for(int b = 0; b < c.blocks; b++) if(!set || b) put(p, vp::fmt("Material Models/mat%d/Density", b), density(set, b)); }
struct Moments { double m = 0, f[3] = {0, 0, 0}, s[3][3] = {{0}}; };
Moments moments(const Case& c, const V& z, int set)
{
    Moments r; for(int e = 0; e < c.m.ne(); e++) { Cell q = cell(c.m, e, z); double m = q.vol * q.rho * density(set, c.blocks == 1 ? 0 : c.blk[e]); r.m += m; for(int i = 0; i < DIM; i++) { r.f[i] += m * q.xc[i]; for(int j = 0; j < DIM; j++) r.s[i][j] += m * q.xc[i] * q.xc[j]; } }
    return r;
}
double property(const Moments& m, int k)
{
    if(k == 0) return m.m; if(k < 4) return m.f[k - 1] / m.m; if(k < 7) { double t = m.s[0][0] + m.s[1][1] + m.s[2][2]; return t - m.s[k - 4][k - 4]; }
    return k == 7 ? -m.s[0][1] : k == 8 ? -m.s[0][2] : -m.s[1][2];
}
V gold(int g) { return g == 0 ? V{1.7, 0.3, -0.2, 0.45, 2.2, 3.1, 2.7, -0.4, 0.35, 0.2} : g == 1 ? V{0.05, -0.3, 0.2, 0.0, 0.01, -0.05, 0.0, 0.07, -0.02, 0.0} : V{-0.9, 0.1, 0.1, -0.1, 1.5, 0.9, -1.1, 0.9, -1.2, 0.5}; }
V weights() { return {0.7, 1.9, 0.4, 1.1, 0.3, 2.1, 0.9, 1.3, 0.6, 1.6}; }
double scale_of(double g) { return std::fabs(g) > 0.1 ? std::fabs(g) : 1; }
V extents(const M& m) { V r; for(int i = 0; i < DIM; i++) { double lo = 1e9, hi = -1e9; for(int v = 0; v < m.nv(); v++) { lo = std::fmin(lo, m.x[v * DIM + i]); hi = std::fmax(hi, m.x[v * DIM + i]); } r.push_back(std::fmax(hi - lo, 0.1)); } return r; }
double itemized(const Moments& m, const std::vector<int>& which, int g, const V& ext)
{
    double r = 0; V G_ = gold(g), w = weights(); for(int k : which) { double s = k >= 1 && k < 4 ? ext[k - 1] : scale_of(G_[k]), d = (property(m, k) - G_[k]) / s; r += w[k] * d * d; } return r;
}
// all ten: the inertia is taken about the centre of gravity of the reference and in its principal axes; a is the order of the axes
struct Frame { double q[3][3], l[3]; };
Frame principal(const V& g) // cyclic Jacobi
{
    double a[3][3] = {{g[4], g[7], g[8]}, {g[7], g[5], g[9]}, {g[8], g[9], g[6]}}, cc = g[1] * g[1] + g[2] * g[2] + g[3] * g[3]; Frame f; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { a[i][j] -= g[0] * ((i == j ? cc : 0) - g[1 + i] * g[1 + j]); f.q[i][j] = i == j; }
    for(int it = 0; it < 60; it++) for(int p = 0; p < 3; p++) for(int q = p + 1; q < 3; q++)
    {
        if(std::fabs(a[p][q]) < 1e-300) continue; double th = 0.5 * std::atan2(2 * a[p][q], a[q][q] - a[p][p]), c = std::cos(th), s = std::sin(th);
        for(int k = 0; k < 3; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; } for(int k = 0; k < 3; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } for(int k = 0; k < 3; k++) { double x = f.q[k][p], y = f.q[k][q]; f.q[k][p] = c * x - s * y; f.q[k][q] = s * x + c * y; }
    }
    for(int i = 0; i < 3; i++) f.l[i] = a[i][i]; return f;
}
double together(const Moments& m, int g, const V& ext, const std::vector<int>& ax)
{
    V go = gold(g), w = weights(); Frame f = principal(go); double I[3][3], cc = go[1] * go[1] + go[2] * go[2] + go[3] * go[3]; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) I[i][j] = (i == j ? m.s[0][0] + m.s[1][1] + m.s[2][2] : 0) - m.s[i][j] - m.m * ((i == j ? cc : 0) - go[1 + i] * go[1 + j]);
    auto rot = [&](int a, int b) { double s = 0; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) s += f.q[i][ax[a]] * I[i][j] * f.q[j][ax[b]]; return s; }; double r = 0, mn = std::fmin(f.l[0], std::fmin(f.l[1], f.l[2])); auto sq = [](double x) { return x * x; };
    for(int k = 0; k < 4; k++) r += w[k] * sq((property(m, k) - go[k]) / (k ? ext[k - 1] : scale_of(go[0]))); for(int k = 0; k < 3; k++) r += w[4 + k] * sq((rot(k, k) - f.l[ax[k]]) / scale_of(f.l[ax[k]]));
    return r + (w[7] * sq(rot(0, 1)) + w[8] * sq(rot(0, 2)) + w[9] * sq(rot(1, 2))) / sq(std::fmax(std::fabs(mn), 0.1));
}
typedef std::function<double(const Moments&, const V&)> Ref;
// the order in which the axes are taken is not defined: the implementation may use any, but always the same one
Ref all_ref(const Moments& m, int g, const V& ext, double got) { std::vector<int> best; double d = 1e300; for(u64 k = 0; k < 6; k++) { auto a = perm(3, k); double e = std::fabs(together(m, g, ext, a) - got); if(e < d) { d = e; best = a; } } return [=](const Moments& x, const V& e) { return together(x, g, e, best); }; }

struct Geo
{
    Sys s; std::shared_ptr<Plato::Geometric::ScalarFunctionBase> f;
    Geo(const M& m, const Setup& q, std::string name = "crit") : s(m, q) { Plato::Geometric::ScalarFunctionBaseFactory<G> k; f = k.create(s.sm, s.dm, s.pl, name); vp::check(f != nullptr, "criterion was not created"); }
    double value(const V& z) { vp::calls(); return f->value(dev(z)); }
    V z(const V& z_) { vp::calls(); return host(f->gradient_z(dev(z_))); }
    V x(const V& z) { vp::calls(); return host(f->gradient_x(dev(z))); }
};
const std::vector<Pen> VPENS = {{"SIMP", 3, 1e-9}, {"RAMP", 2, 0.01}, {"SIMP", 1, 0.2}, {"Heaviside", 0, 0.05}};
double vpen(const Pen& p, double r) { if(p.type != "Heaviside") return p(r); return r >= 0.7 ? 1 : p.mn + (1 - p.mn) * std::pow(0.5 * (1 + std::sin(M_PI * r / 1.4)), 2.0); }
void vol_list(PL& p, const Pen& q, const std::string& n) { put(p, "Criteria/" + n + "/Type", "Scalar Function"); put(p, "Criteria/" + n + "/Scalar Function Type", "Volume"); if(q.type != "Heaviside") { pen_list(p, "Criteria/" + n, q); return; } const std::string b = "Criteria/" + n + "/Penalty Function/"; put(p, b + "Type", "Heaviside"); put(p, b + "Exponent", 2.0); put(p, b + "Regularization Length", 0.7); put(p, b + "Minimum Value", q.mn); }
double volume(const Case& c, const Pen& q, const V& z) { double r = 0; for(int e = 0; e < c.m.ne(); e++) { Cell k = cell(c.m, e, z); r += k.vol * vpen(q, k.rho); } return r; }
void mass_list(PL& p, const std::vector<int>& which, int g, const std::string& n) { std::vector<std::string> a; V w, go; for(int k : which) { a.push_back(PROPS[k]); w.push_back(weights()[k]); go.push_back(gold(g)[k]); } put(p, "Criteria/" + n + "/Type", "Mass Properties"); names(p, "Criteria/" + n + "/Properties", a); arr(p, "Criteria/" + n + "/Weights", w); arr(p, "Criteria/" + n + "/Gold Values", go); }
std::vector<int> subset(u64 bits, int rot) { std::vector<int> r; for(int k = 0; k < 10; k++) if(bits >> k & 1) r.push_back(k); if(!r.empty()) std::rotate(r.begin(), r.begin() + rot % r.size(), r.end()); return r; }
V control(const Case& c, int s) { return s == 1 ? V(c.m.nv(), 1.0) : field(c.m.nv(), 0.2, 0.95, 7 + s); }
void check_x(const Case& c, const V& got, std::function<double(const Case&)> ref, double value) { derivative([&](const V& y) { Case a = c; a.m = moved(c.m, y); return V(1, ref(a)); }, c.m.x, column(got), "criterion by coordinates", 1e-3, 1e-6, std::fmax(1e-8, std::fabs(value))); }

Part part([] {
    // volume: every mesh, block layout and penalty
    auto vol = [](const Case& c, const Pen& q, const V& z) { Geo g(c.m, [=](World& w, PL& p) { blocks(w, p, c); vol_list(p, q, "crit"); }); double v = g.value(z); same(V(1, v), V(1, volume(c, q, z)), "volume"); derivative([&](const V& y) { return V(1, g.value(y)); }, z, column(g.z(z)), "volume by control"); check_x(c, g.x(z), [&](const Case& a) { return volume(a, q, z); }, v); };
    vp::section(sec("volume"), 3 * VPENS.size() * 16 * 3, [=](u64 i) { Dec q(i); Case c; c.k = MECH; c.m = orient(shape(DIM, q.take(3))); Pen p = q.pick(VPENS); bool ok = color(c, q.take(16)); V z = control(c, q.take(3)); if(!ok) { vp::skip(); return; } vp::input(p.str() + c.str() + " control " + vp::vec_str(z)); vol(c, p, z); });
    for(int sh = 0; sh < 3; sh++)
    {
        M m = orient(shape(DIM, sh)); const u64 A = fact(m.nv()) * fact(m.ne()), B = vp::ipow(turns(DIM).size(), m.ne()); const bool all = vp::thorough() && A * B <= 40000;
        vp::section(sec(vp::fmt("numbering%d", sh).c_str()), all ? A * B : A + B - 1, [=](u64 i) {
            Case c; c.k = MECH; Numbered nb = renumber(m, all || i < A ? i : (i - A + 1) * A); c.m = nb.m; color(c, m.ne() > 1 ? 1 : 0); vp::input(c.str()); vol(c, VPENS[0], control(c, 0));
#if DIM == 3
            V z = control(c, 0), ext = extents(c.m); std::vector<int> w = subset(1023, 0); w.pop_back(); Geo g(c.m, [=](World& wd, PL& p) { blocks(wd, p, c); mass_list(p, w, 0, "crit"); }); double v = g.value(z); same(V(1, v), V(1, itemized(moments(c, z, 0), w, 0, ext)), "mass properties"); derivative([&](const V& y) { return V(1, g.value(y)); }, z, column(g.z(z)), "mass properties by control"); check_x(c, g.x(z), [&](const Case& a) { return itemized(moments(a, z, 0), w, 0, ext); }, v);
#endif
        });
    }
    // composites of two volumes
    vp::section(sec("composite"), VPENS.size() * VPENS.size() * 5 * 3 * 2, [=](u64 i) {
        Dec q(i); Pen a = q.pick(VPENS), b = q.pick(VPENS); int kind = q.take(5); Case c; c.k = MECH; c.m = orient(shape(DIM, q.take(3))); if(!color(c, q.take(2))) { vp::skip(); return; } V z = control(c, 0); vp::input(vp::fmt("composite %d of ", kind) + a.str() + " and " + b.str() + " " + c.str());
        auto val = [=](const Case& x, const V& y) { double f = volume(x, a, y), h = volume(x, b, y), s = 0; auto sq = [](double t) { return t * t; }; return kind == 0 ? 0.7 * f - 1.9 * h : kind == 1 ? f / h : kind == 2 ? 0.7 * sq(f) + 1.9 * sq(h + 0.05) : kind == 3 ? 0.7 * sq((f - 2.5) / 2.5) + 1.9 * sq((h + 0.4) / 0.4) : 1.5 * h / f + 0.3 * f + s; };
        Geo g(c.m, [=](World& w, PL& p) { blocks(w, p, c); vol_list(p, a, "f1"); vol_list(p, b, "f2"); const std::string t = "Criteria/crit/";
            if(kind == 0) { put(p, t + "Type", "Weighted Sum"); names(p, t + "Functions", {"f1", "f2"}); arr(p, t + "Weights", {0.7, -1.9}); } if(kind == 1) { put(p, t + "Type", "Division"); put(p, t + "Numerator", "f1"); put(p, t + "Denominator", "f2"); }
            if(kind == 2 || kind == 3) { put(p, t + "Type", "Least Squares"); names(p, t + "Functions", {"f1", "f2"}); arr(p, t + "Weights", {0.7, 1.9}); arr(p, t + "Gold Values", kind == 2 ? V{0.0, -0.05} : V{2.5, -0.4}); }
            if(kind == 4) { put(p, t + "Type", "Weighted Sum"); names(p, t + "Functions", {"ratio", "f1"}); arr(p, t + "Weights", {1.5, 0.3}); put(p, "Criteria/ratio/Type", "Division"); put(p, "Criteria/ratio/Numerator", "f2"); put(p, "Criteria/ratio/Denominator", "f1"); } });
        double v = g.value(z); same(V(1, v), V(1, val(c, z)), "composite"); derivative([&](const V& y) { return V(1, g.value(y)); }, z, column(g.z(z)), "composite by control"); check_x(c, g.x(z), [&](const Case& x) { return val(x, z); }, v);
    });
    vp::section(sec("malformed"), 7 + (DIM == 3 ? 4 : 0), [=](u64 i) {
        Case c; c.k = MECH; c.m = orient(shape(DIM, 1)); color(c, 0); const std::string t = "Criteria/crit/"; static const char* n[] = {"a volume of unknown penalty", "an unknown scalar function", "a weighted sum with too few weights", "a weighted sum without functions", "least squares with too few gold values", "a division without denominator", "a sum over an unknown criterion", "a mass property given twice", "an unknown mass property", "too few weights for mass properties", "too few gold values for mass properties"};
        vp::input(n[i]); vp::obs(n[i]); bool th = vp::throws([&] { Geo g(c.m, [=](World& w, PL& p) { blocks(w, p, c); vol_list(p, VPENS[0], "f1"); Pen bad{"Cubic", 1, 0};
            if(i == 0) vol_list(p, bad, "crit"); if(i == 1) { vol_list(p, VPENS[0], "crit"); put(p, t + "Scalar Function Type", "Colour"); } if(i == 2) { put(p, t + "Type", "Weighted Sum"); names(p, t + "Functions", {"f1", "f1"}); arr(p, t + "Weights", {1.0}); } if(i == 3) { put(p, t + "Type", "Weighted Sum"); arr(p, t + "Weights", {1.0}); }
            if(i == 4) { put(p, t + "Type", "Least Squares"); names(p, t + "Functions", {"f1", "f1"}); arr(p, t + "Weights", {1.0, 2.0}); arr(p, t + "Gold Values", {1.0}); } if(i == 5) { put(p, t + "Type", "Division"); put(p, t + "Numerator", "f1"); } if(i == 6) { put(p, t + "Type", "Weighted Sum"); names(p, t + "Functions", {"f1", "nothing"}); arr(p, t + "Weights", {1.0, 2.0}); }
            if(i >= 7) { mass_list(p, {0, 1, 4}, 0, "crit"); if(i == 7) names(p, t + "Properties", {"Mass", "CGx", "Mass"}); if(i == 8) names(p, t + "Properties", {"Mass", "CGx", "Iwx"}); if(i == 9) arr(p, t + "Weights", {1.0, 2.0}); if(i == 10) arr(p, t + "Gold Values", {1.0, 2.0}); } }); g.value(control(c, 0)); });
        vp::check(th, "%s was accepted", n[i]);
    });
#if DIM == 3
    // mass properties: every subset of the ten, in every order that starts elsewhere, over meshes, blocks, densities and reference values
    auto mass = [](const Case& c, const std::vector<int>& w, int g, int set, const V& z, bool ell) {
        const bool all = w.size() == 10; V ext = extents(c.m); Setup s = [=](World& wd, PL& p) { blocks(wd, p, c, set); mass_list(p, w, g, "crit"); }; Moments mo = moments(c, z, set);
        auto run = [&](double v, auto value, const V& gz, const V& gx, const char* who) {
            Ref r = all ? all_ref(mo, g, ext, v) : Ref([=](const Moments& m, const V& e) { return itemized(m, w, g, e); }); same(V(1, v), V(1, r(mo, ext)), who, 1e-9); derivative([&](const V& y) { return V(1, value(y)); }, z, column(gz), "mass properties by control", 1e-3, 1e-6, std::fmax(1e-8, v)); check_x(c, gx, [&](const Case& a) { return r(moments(a, z, set), ext); }, v);
        };
        if(!ell) { Geo q(c.m, s); run(q.value(z), [&](const V& y) { return q.value(y); }, q.z(z), q.x(z), "mass properties"); return; }
        typedef Plato::Mechanics<3> P; Cri<P> q(c.m, s); V u = field(c.m.nv() * 3, -0.1, 0.1, 3); run(q.value({u}, z), [&](const V& y) { return q.value({u}, y); }, q.z({u}, z), q.x({u}, z), "mass properties of a static problem"); for(double t : q.u({u}, z)) vp::eq(t, 0, "mass properties do not depend on the state");
    };
    vp::section("mass_geometric", 1024 * (vp::thorough() ? 9 : 3), [=](u64 i) { Dec q(i); u64 b = q.take(1024); int g = q.take(3); Case c; c.k = MECH; c.m = orient(shape(3, 1 + (b + g) % 2)); if(b == 1023) { int k = q.take(3); c.m = orient(shape(3, k)); } color(c, 1); auto w = subset(b, i % 10); if(w.empty()) { vp::skip(); return; } V z = control(c, i % 3); vp::input(vp::fmt("properties %llx gold %d ", (unsigned long long)b, g) + c.str()); mass(c, w, g, i % 2, z, false); });
    vp::section("mass_meshes", 11 * 10 * 3 * 3 * (vp::thorough() ? 16 : 3) * 2, [=](u64 i) { Dec q(i); int k = q.take(11), rot = q.take(10), g = q.take(3); Case c; c.k = MECH; c.m = orient(shape(3, q.take(3))); bool ok = color(c, q.take(vp::thorough() ? 16 : 3)); int set = q.take(2); if(!ok || (k < 10 && rot)) { vp::skip(); return; } auto w = subset(k == 10 ? 1023 : 1u << k, rot); V z = control(c, k % 3); vp::input(vp::fmt("properties from %d gold %d densities %d ", k, g, set) + c.str()); mass(c, w, g, set, z, false); });
    vp::section("mass_static", 1024 * (vp::thorough() ? 2 : 1), [=](u64 i) { Dec q(i); u64 b = q.take(1024); int g = vp::thorough() ? q.take(2) : (b / 3) % 2; Case c; c.k = MECH; c.m = orient(shape(3, (b + g) % 3)); color(c, c.m.ne() > 1 ? 1 : 0); auto w = subset(b, i % 10); if(w.empty()) { vp::skip(); return; } V z = control(c, i % 3); vp::input(vp::fmt("properties %llx gold %d ", (unsigned long long)b, g) + c.str()); mass(c, w, g, i % 2, z, true); });
#endif
});
} // namespace
