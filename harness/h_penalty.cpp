// P11 (density penalization and continuation), P12 (projection and weighting).
#include "vpk.hpp"
#include <Sacado.hpp>
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyWeighting.hpp"
#include "ApplyProjection.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "Plato_TopOptFunctors.hpp"
using vp::Dec; using vp::u64;
typedef Teuchos::ParameterList PL;
typedef Sacado::Fad::SFad<double, 3> F3;

struct St { double p, mn, up, add, reg; };
static double simp(const St& s, double x) { return s.mn + (1 - s.mn) * std::pow(x, s.p); }
static double dsimp(const St& s, double x) { return (1 - s.mn) * s.p * std::pow(x, s.p - 1); }
static double ramp(const St& s, double x) { return s.mn + (1 - s.mn) * x / (1 + s.p * (1 - x)); }
static double dramp(const St& s, double x) { double q = 1 + s.p * (1 - x); return (1 - s.mn) * (1 + s.p) / (q * q); }
static double heav(const St& s, double x) { if(x <= -s.reg) return s.mn; if(x >= s.reg) return 1; return s.mn + (1 - s.mn) * std::pow(0.5 * (1 + std::sin(M_PI * x / (2 * s.reg))), s.p); }
static double dheav(const St& s, double x)
{
    if(x <= -s.reg || x >= s.reg) return 0; double h = 0.5 * (1 + std::sin(M_PI * x / (2 * s.reg)));
    return (1 - s.mn) * s.p * std::pow(h, s.p - 1) * 0.5 * std::cos(M_PI * x / (2 * s.reg)) * M_PI / (2 * s.reg);
}
static double none(const St&, double) { return 1; }
static double dnone(const St&, double) { return 0; }

// equidistant points of [0,1] and points very close to its ends
static std::vector<double> grid_points(int n)
{
    std::vector<double> r = {1e-12, 1e-8, 1e-6, 1e-4, 1e-3, 1 - 1e-3, 1 - 1e-4, 1 - 1e-6, 1 - 1e-9}; for(int k = 0; k <= n; k++) r.push_back((double)k / n); std::sort(r.begin(), r.end()); return r;
}
// value, derivative, bounds and monotonicity over the grid for one parameter state
template<typename FN> static void judge(const FN& f, const St& s, double (*g)(const St&, double), double (*dg)(const St&, double), double lo, double hi, int n, bool ends)
{
    double prev = -1e300; const std::vector<double> pts = grid_points(n); n = (int)pts.size() - 1;
    for(int k = 0; k <= n; k++)
    {
        double x = lo + (hi - lo) * pts[k], v = f(x); vp::calls(2);
        vp::eq(v, g(s, x), vp::fmt("value at density %g", x).c_str(), 1e-9, 1e-14);
        vp::check(v >= prev - 1e-12, "decreases at density %g: %.17g after %.17g", x, v, prev); prev = v;
        F3 X(3, 1, x), r = f(X);
        vp::eq(r.val(), g(s, x), "value with derivative", 1e-9, 1e-14);
        if(k == 0 || (k == n && !ends)) continue; // the formula is not differentiable at the ends of its support
        vp::eq(r.dx(1), dg(s, x), vp::fmt("derivative at density %g", x).c_str(), 1e-8, 1e-12); vp::eq(r.dx(0), 0, "unseeded derivative");
    }
    vp::eq(f(hi), 1.0, "full density");
}

#if VP_PROP == 11
static const double PEN[] = {1.0, 1.5, 2.0, 3.0, 4.5, 0.0}, MIN[] = {0.0, 1e-9, 1e-3, 0.5}, REG[] = {1.0, 0.5, 2.0};
static std::string ststr(const St& s) { return vp::fmt("penalty %g min %g upper %g step %g reg %g", s.p, s.mn, s.up, s.add, s.reg); }

static void formulas()
{
    vp::section("simp_formula", 5 * 4, [](u64 i) { Dec d(i); St s = {PEN[d.take(5)], d.pick(MIN), 3, 0.1, 0}; vp::input(ststr(s)); Plato::MSIMP f(s.p, s.mn); judge(f, s, simp, dsimp, 0, 1, 64, true); vp::eq(f(0.0), s.mn, "zero density", 1e-12, 0); });
    vp::section("ramp_formula", 6 * 4, [](u64 i) { Dec d(i); St s = {d.pick(PEN), d.pick(MIN), 3, 0.1, 0}; vp::input(ststr(s)); PL p; p.set<double>("Exponent", s.p); p.set<double>("Minimum Value", s.mn); Plato::RAMP f(p); judge(f, s, ramp, dramp, 0, 1, 64, true); vp::eq(f(0.0), s.mn, "zero density", 1e-12, 0); });
    vp::section("heaviside_formula", 5 * 4 * 3, [](u64 i) { Dec d(i); St s = {PEN[d.take(5)], d.pick(MIN), 3, 0.1, d.pick(REG)}; vp::input(ststr(s)); Plato::Heaviside f(s.p, s.reg, s.mn); judge(f, s, heav, dheav, -s.reg, s.reg, 64, false); vp::eq(f(-s.reg), s.mn, "lower end"); vp::eq(f(-5 * s.reg), s.mn, "below"); vp::eq(f(5 * s.reg), 1, "above"); });
    vp::section("no_penalty", 2, [](u64 i) { PL p; p.set<double>("Exponent", 7.0); Plato::NoPenalty a, b(p); St s{}; auto& f = i ? b : a; vp::input("no penalty"); for(int k = 0; k < 3; k++) { judge(f, s, none, dnone, 0, 1, 16, true); f.update(); } });
}
// constructor from a parameter list with any subset of its entries, then every history of calls up to the depth; the model is four numbers
enum Op { UPDATE, SET0, SET_LAST = SET0 + 15, PENALTY, MINIMUM, STEP };
template<typename FN> struct Extra { static bool call(FN&, int, St&) { return false; } };
template<> struct Extra<Plato::MSIMP>
{
    static bool call(Plato::MSIMP& f, int k, St& s)
    {
        if(k == 0) { f.setPenalty(1.75); s.p = 1.75; } if(k == 1) { f.setMinimumErsatzMaterial(0.125); s.mn = 0.125; } if(k == 2) { f.setAdditiveContinuationValue(0.6); s.add = 0.6; }
        return true;
    }
};
template<typename FN> static void histories(const char* name, const St& dflt, const St& sdflt, bool reg, bool extra, double (*g)(const St&, double), int depth)
{
    const int nset = reg ? 16 : 8, nkeys = reg ? 5 : 4, nop = 1 + nset + (extra ? 3 : 0);
    for(int n = 0; n <= depth; n++)
        vp::section(vp::fmt("%s_history_%d", name, n), (u64)(1 << nkeys) * vp::ipow(nop, n), [=](u64 i) {
            Dec d(i); int given = d.take(1 << nkeys); St s = dflt; PL p;
            if(given & 1) p.set<double>("Exponent", s.p = 1.25); if(given & 2) p.set<double>("Minimum Value", s.mn = 0.01); if(given & 4) p.set<double>("Penalty Exponent Upper Bound", s.up = 2.0); if(given & 8) p.set<double>("Additive Continuation", s.add = 0.5);
            if(reg && (given & 16)) p.set<double>("Regularization Length", s.reg = 0.5);
            std::string in = "list " + std::to_string(given); FN f(p); vp::calls();
            auto look = [&](const char* when) { vp::input(in + " [" + ststr(s) + "]"); for(double x : {-0.3, 0.2, 0.7}) { if(x < 0 && !reg) continue; vp::calls(); vp::eq(f(x), g(s, x), vp::fmt("value at %g %s", x, when).c_str(), 1e-9, 1e-14); } };
            look("after construction");
            for(int k = 0; k < n; k++)
            {
                int op = d.take(nop); vp::calls();
                if(op == 0) { f.update(); s.p = std::min(s.p + s.add, s.up); in += " update"; }
                else if(op <= nset)
                {
                    int m = op - 1; std::map<std::string, double> M; in += vp::fmt(" setParameters(%d)", m);
                    if(m & 1) M["Exponent"] = s.p = 2.5; else s.p = sdflt.p; if(m & 2) M["Minimum Value"] = s.mn = 0.05; else s.mn = sdflt.mn; if(m & 4) M["Additive Continuation"] = s.add = 0.3; else s.add = sdflt.add;
                    if(reg) { if(m & 8) M["Regularization Length"] = s.reg = 0.8; else s.reg = sdflt.reg; }
                    f.setParameters(M);
                }
                else { in += vp::fmt(" set%d", op - nset - 1); Extra<FN>::call(f, op - nset - 1, s); }
                look("after the last call");
            }
            for(int k = 0; k < 3; k++) { f.update(); s.p = std::min(s.p + s.add, s.up); in += " update"; look("after continuation"); vp::calls(); }
        });
}
void vp::explore()
{
    formulas();
    int dep = vp::thorough() ? 4 : 3;
    histories<Plato::MSIMP>("simp", {3.0, 1e-9, 3.0, 0.1, 0}, {3.0, 1e-9, 3.0, 0.1, 0}, false, true, simp, dep);
    histories<Plato::RAMP>("ramp", {3.0, 0.0, 3.0, 0.1, 0}, {3.0, 1e-9, 3.0, 0.1, 0}, false, false, ramp, dep);
    histories<Plato::Heaviside>("heaviside", {1.0, 0.0, 1.0, 0.1, 1.0}, {1.0, 1e-9, 1.0, 0.1, 1.0}, true, false, heav, dep);
    // defaults of the plain constructors, seen through continuation
    vp::section("plain_constructors", 3, [](u64 i) {
        vp::input("constructor " + std::to_string(i)); vp::calls(8);
        if(i == 0) { Plato::MSIMP f(2.0, 0.1); St s = {2.0, 0.1, 3.0, 0.1, 0}; for(int k = 0; k < 14; k++) { vp::eq(f(0.6), simp(s, 0.6), "value"); f.update(); s.p = std::min(s.p + 0.1, 3.0); } }
        if(i == 1) { Plato::RAMP f; St s = {3.0, 0.0, 3.0, 0.1, 0}; for(int k = 0; k < 3; k++) { vp::eq(f(0.6), ramp(s, 0.6), "value"); f.update(); } }
        if(i == 2) { Plato::Heaviside f; St s = {1.0, 0.0, 3.0, 0.1, 1}; for(int k = 0; k < 24; k++) { vp::eq(f(0.6), heav(s, 0.6), "value"); f.update(); s.p = std::min(s.p + 0.1, 3.0); } }
    });
}
#endif

#if VP_PROP == 12
static const double DEN[] = {0.0, 1e-6, 0.25, 0.5, 1.0};
static double hproj(double b, double x) { return 1 - std::exp(-b * (1 - x)) + (1 - x) * std::exp(-b); }
static double dhproj(double b, double x) { return -b * std::exp(-b * (1 - x)) - std::exp(-b); }
static double tproj(double b, double e, double x) { return (std::tanh(b * e) + std::tanh(b * (x - e))) / (std::tanh(b * e) + std::tanh(b * (1 - e))); }
static double dtproj(double b, double e, double x) { double t = std::tanh(b * (x - e)); return b * (1 - t * t) / (std::tanh(b * e) + std::tanh(b * (1 - e))); }
static const double BETA[] = {10.0, 1.0, 0.5, 25.0}, ETA[] = {0.5, 0.25, 0.75, 0.0, 1.0};

template<typename PR> static void avg(const PR& pr, const std::function<double(double)>& g, const std::function<double(double)>& dg)
{
    // every nodal density pattern of two cells in 1, 2, 3 and 4 nodes
    Plato::ApplyProjection<PR> a(pr);
    for(int n = 1; n <= 4; n++)
        for(u64 c = 0; c < vp::ipow(5, n); c++)
        {
            Dec d(c); const int h = vp::cell(c, 1); Plato::ScalarMultiVector z("z", vp::NC, n); Plato::ScalarMultiVectorT<Sacado::Fad::SFad<double, 4>> zf("zf", vp::NC, n); double m = 0;
            for(int k = 0; k < n; k++) { double v = d.pick(DEN); z(h, k) = v; z(0, k) = 0.125; zf(h, k) = Sacado::Fad::SFad<double, 4>(4, k, v); m += v / n; }
            vp::calls(3); vp::eq(a(h, z), g(m), "projected mean density"); vp::eq(a(0, z), g(0.125), "projected mean density of cell 0");
            auto r = a(h, zf); vp::eq(r.val(), g(m), "projected mean density with derivatives");
            for(int k = 0; k < n; k++) vp::eq(r.dx(k), dg(m) / n, "derivative of the projected mean density", 1e-8, 1e-11);
        }
}
static void projections()
{
    auto grid = [](auto& pr, auto g, auto dg, int dir) {
        double prev = dir > 0 ? -1e300 : 1e300;
        for(double x : grid_points(64))
        {
            double v = pr.apply(x); vp::calls(2); vp::eq(v, g(x), vp::fmt("projection of %g", x).c_str());
            vp::check(dir * (v - prev) >= -1e-12, "not monotone at %g", x); prev = v;
            F3 r = pr.apply(F3(3, 2, x)); vp::eq(r.val(), g(x), "value with derivative"); vp::eq(r.dx(2), dg(x), vp::fmt("derivative at %g", x).c_str(), 1e-8, 1e-11); vp::eq(r.dx(0), 0, "unseeded derivative");
        }
    };
    vp::section("heaviside_projection", 5 * 3, [=](u64 i) {
        Dec d(i); int b = d.take(5), how = d.take(3); double beta = b == 4 ? 10.0 : BETA[b];
        Plato::HeavisideProjection pr = b == 4 ? Plato::HeavisideProjection() : Plato::HeavisideProjection(how == 0 ? beta : 3.0); if(b < 4 && how) { pr.setCurvatureParameterBeta(how == 2 ? 7.0 : beta); if(how == 2) pr.setCurvatureParameterBeta(beta); }
        vp::input(vp::fmt("beta %g set %d", beta, how)); auto g = [=](double x) { return hproj(beta, x); }; auto dg = [=](double x) { return dhproj(beta, x); };
        grid(pr, g, dg, -1); vp::eq(pr.apply(0.0), 1.0, "zero density"); vp::eq(pr.apply(1.0), 0.0, "full density"); avg(pr, g, dg);
    });
    vp::section("tanh_projection", 4 * 5 * 6, [=](u64 i) {
        Dec d(i); double beta = d.pick(BETA), eta = d.pick(ETA); int how = d.take(6); PL p; if(how == 1 || how == 2) p.set<double>("Beta", beta); if(how == 1) p.set<double>("Eta", eta); if(how == 2) eta = 0.5;
        Plato::HyperbolicTangentProjection pr = how == 0 ? Plato::HyperbolicTangentProjection(beta, eta) : how <= 2 ? Plato::HyperbolicTangentProjection(p) : Plato::HyperbolicTangentProjection();
        if(how == 3) { pr.setCurvatureParameterBeta(beta); pr.setTresholdLevelParameterEta(eta); } if(how == 4) { pr.setTresholdLevelParameterEta(eta); pr.setCurvatureParameterBeta(beta); } if(how == 5) { pr.setProjectionParameters(3.0, 0.1); pr.setProjectionParameters(beta, eta); }
        vp::input(vp::fmt("beta %g eta %g set %d", beta, eta, how)); auto g = [=](double x) { return tproj(beta, eta, x); }; auto dg = [=](double x) { return dtproj(beta, eta, x); };
        grid(pr, g, dg, 1); vp::eq(pr.apply(0.0), 0.0, "zero density"); vp::eq(pr.apply(1.0), 1.0, "full density"); avg(pr, g, dg);
    });
}
template<typename PF> static void weigh(const char* name, const PF& pf, const St& s, double (*g)(const St&, double), double (*dg)(const St&, double))
{
    vp::section(vp::fmt("apply_penalty_%s", name), 5 * 3 * 3 * 3 * 3, [=](u64 i) {
        Dec d(i); double x = d.pick(DEN); int n = 1 + d.take(3), m = 1 + d.take(3), cell = vp::cell(i, d.take(3)); vp::input(vp::fmt("density %g, %dx%d entries, cell %d", x, n, m, cell));
        Plato::ApplyPenalty<PF> a(pf); Plato::ScalarMultiVector v("v", vp::NC, n); Plato::ScalarArray3D t("t", vp::NC, n, m); Plato::ScalarMultiVectorT<F3> vf("vf", vp::NC, n); Plato::ScalarArray3DT<F3> tf("tf", vp::NC, n, m);
        for(int c = 0; c < vp::NC; c++) for(int k = 0; k < n; k++) { v(c, k) = 1 + c - 2.0 * k; vf(c, k) = v(c, k); for(int l = 0; l < m; l++) { t(c, k, l) = 3 - c + k + 5.0 * l; tf(c, k, l) = t(c, k, l); } }
        vp::calls(4); a(cell, x, v); a(cell, x, t); F3 X(3, 1, x); a(cell, X, vf); a(cell, X, tf); double w = g(s, x);
        for(int c = 0; c < vp::NC; c++) for(int k = 0; k < n; k++)
        {
            double f = c == cell ? w : 1, b = 1 + c - 2.0 * k; vp::eq(v(c, k), f * b, "penalized vector"); vp::eq(vf(c, k).val(), f * b, "with derivative"); if(x > 0) vp::eq(vf(c, k).dx(1), c == cell ? dg(s, x) * b : 0, "derivative", 1e-8);
            for(int l = 0; l < m; l++) { double b2 = 3 - c + k + 5.0 * l; vp::eq(t(c, k, l), f * b2, "penalized array"); if(x > 0) vp::eq(tf(c, k, l).dx(1), c == cell ? dg(s, x) * b2 : 0, "derivative", 1e-8); }
        }
    });
}
template<int D, int NT, typename PF> static void weighting(const char* name, const PF& pf0, const St& s0, double (*g)(const St&, double), double (*dg)(const St&, double))
{
    const int N = D + 1;
    vp::section(vp::fmt("apply_weighting_%dd_%d_%s", D, NT, name), vp::ipow(5, N) * 2 * 2, [=](u64 i) {
        Dec d(i); St s = s0; int cell = vp::cell(i, (int)(i % 2)), o = cell ? cell - 1 : 1; const int nc = vp::NC; std::vector<double> den(nc, 0.0); Plato::ScalarMultiVector z("z", nc, N); typedef Sacado::Fad::SFad<double, 4> F; Plato::ScalarMultiVectorT<F> zf("zf", nc, N); std::string in;
        for(int k = 0; k < N; k++) { for(int c = 0; c < nc; c++) z(c, k) = 0.75 - 0.125 * k; z(cell, k) = d.pick(DEN); in += vp::fmt("%g ", z(cell, k)); for(int c = 0; c < nc; c++) { den[c] += z(c, k) / N; zf(c, k) = F(4, k, z(c, k)); } }
        int upd = d.take(2); vp::input(in + vp::fmt("cell %d update %d", cell, upd)); Plato::ApplyWeighting<D, NT, PF> w(pf0); if(upd) { w.update(); s.p = std::min(s.p + s.add, s.up); }
        Plato::ScalarMultiVector io("io", nc, NT), out("out", nc, NT); Plato::ScalarVector a("a", nc), b("b", nc); Plato::ScalarMultiVectorT<F> iof("iof", nc, NT);
        for(int c = 0; c < nc; c++) { for(int k = 0; k < NT; k++) { io(c, k) = 2 + 3.0 * k - c; out(c, k) = 99; iof(c, k) = io(c, k); } a(c) = 4 - c; b(c) = 99; }
        double f = g(s, den[cell]); vp::calls(5);
        w(cell, io, out, z); for(int k = 0; k < NT; k++) { vp::eq(out(cell, k), f * (2 + 3.0 * k - cell), "weighted output"); vp::eq(out(o, k), 99, "other cell"); vp::eq(io(cell, k), 2 + 3.0 * k - cell, "input unchanged"); }
        w(cell, io, z); for(int k = 0; k < NT; k++) { vp::eq(io(cell, k), f * (2 + 3.0 * k - cell), "weighted in place"); vp::eq(io(o, k), 2 + 3.0 * k - o, "other cell"); }
        w(cell, a, b, z); vp::eq(b(cell), f * (4 - cell), "weighted scalar"); vp::eq(b(o), 99, "other cell"); vp::eq(a(cell), 4 - cell, "input unchanged");
        w(cell, a, z); vp::eq(a(cell), f * (4 - cell), "weighted scalar in place"); vp::eq(a(o), 4 - o, "other cell");
        w(cell, iof, zf); for(int k = 0; k < NT; k++) { vp::eq(iof(cell, k).val(), f * (2 + 3.0 * k - cell), "with derivatives"); if(den[cell] > 0) for(int q = 0; q < N; q++) vp::eq(iof(cell, k).dx(q), dg(s, den[cell]) / N * (2 + 3.0 * k - cell), "derivative", 1e-8); }
    });
}
template<int N> static void topopt()
{
    static const double W[] = {0.25, 1.0, -2.0};
    vp::section(vp::fmt("cell_density_mass_%d", N), vp::ipow(5, N) * 3, [=](u64 i) {
        Dec d(i); const int h = vp::cell(i, 1), nc = vp::NC; Plato::ScalarMultiVector z("z", nc, N); Plato::ScalarVector b("b", N); typedef Sacado::Fad::SFad<double, N> F; Plato::ScalarMultiVectorT<F> zf("zf", nc, N); double m = 0, mass = 0, sb = 0;
        for(int k = 0; k < N; k++) { for(int c = 0; c < nc; c++) z(c, k) = 7; z(h, k) = d.pick(DEN); zf(h, k) = F(N, k, z(h, k)); m += z(h, k) / N; }
        double w = d.pick(W); for(int k = 0; k < N; k++) { b(k) = w + 0.5 * k; sb += b(k); } for(int k = 0; k < N; k++) mass += sb * b(k) * z(h, k);
        vp::input(vp::fmt("%d nodes case %llu", N, (unsigned long long)i)); vp::calls(4);
        double cd = Plato::cell_density<N>(h, z), cm = Plato::cell_mass<N>(h, b, z); vp::eq(cd, m, "cell density"); vp::eq(cm, mass, "cell mass");
        F fd = Plato::cell_density<N>(h, zf), fm = Plato::cell_mass<N>(h, b, zf); vp::eq(fd.val(), m, "cell density"); vp::eq(fm.val(), mass, "cell mass");
        for(int k = 0; k < N; k++) { vp::eq(fd.dx(k), 1.0 / N, "d cell density"); vp::eq(fm.dx(k), sb * b(k), "d cell mass"); }
        // apply_penalty on the first N entries of the cell only
        Plato::ScalarMultiVector v("v", nc, N + 1); for(int c = 0; c < nc; c++) for(int k = 0; k <= N; k++) v(c, k) = 1 + c + k; vp::calls(); Plato::apply_penalty<N>(h, w, v);
        for(int c = 0; c < nc; c++) for(int k = 0; k <= N; k++) vp::eq(v(c, k), (1 + c + k) * (c == h && k < N ? w : 1), "apply_penalty");
    });
}
void vp::explore()
{
    projections();
    St s = {2.0, 0.125, 3.0, 0.5, 0}; PL p; p.set<double>("Exponent", 2.0); p.set<double>("Minimum Value", 0.125); p.set<double>("Additive Continuation", 0.5);
    Plato::MSIMP a(p); Plato::RAMP b(p); Plato::NoPenalty c(p);
    weigh("simp", a, s, simp, dsimp); weigh("ramp", b, s, ramp, dramp); weigh("none", c, s, none, dnone);
    weighting<1, 1>("simp", a, s, simp, dsimp); weighting<2, 3>("simp", a, s, simp, dsimp); weighting<3, 6>("simp", a, s, simp, dsimp); weighting<2, 1>("simp", a, s, simp, dsimp); weighting<3, 3>("simp", a, s, simp, dsimp); weighting<2, 4>("simp", a, s, simp, dsimp);
    weighting<1, 1>("ramp", b, s, ramp, dramp); weighting<2, 2>("ramp", b, s, ramp, dramp); weighting<3, 6>("ramp", b, s, ramp, dramp);
    weighting<2, 3>("none", c, s, none, dnone); weighting<3, 6>("none", c, s, none, dnone);
    topopt<2>(); topopt<3>(); topopt<4>();
}
#endif
