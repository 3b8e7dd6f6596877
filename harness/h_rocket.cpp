// P22: chamber balance, thrust and burn-back of the algebraic rocket model, at every recorded instant of every history.
#include "vpk.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_RocketMocks.hpp"
#include <fstream>

namespace
{
using vp::u64; using vp::Dec;

struct Cfg { double alpha, pref, throat, cstar, amb, dt, T, tol, rad, len, burn, slope, dens; };
struct Hist { std::vector<double> t, f, p; double radius; bool runaway = false; };

std::string str(const Cfg& c)
{
    return vp::fmt("alpha=%g pref=%g throat=%g c*=%g amb=%g dt=%g T=%g tol=%g radius=%g length=%g burn=%g density=%g",
                   c.alpha, c.pref, c.throat, c.cstar, c.amb, c.dt, c.T, c.tol, c.rad, c.len, c.burn, c.dens);
}
// number of burn steps: the first n with n*dt at the total burn time (up to the tolerance)
int steps(const Cfg& c) { int n = 1; while(n * c.dt + c.tol < c.T) n++; return n; }

// closed form of the balance m * (p/pref)^alpha = A p / c*  (the nonzero root)
Hist reference(const Cfg& c)
{
    const double A = M_PI * c.throat * c.throat / 4;
    Hist h; double r = c.rad, p = c.pref, f = 0;
    const int n = steps(c);
    for(int i = 0; i < n; i++)
    {
        h.t.push_back(i * c.dt); h.f.push_back(f); h.p.push_back(p);
        const double m = c.burn * c.dens * 2 * M_PI * r * c.len;
        p = std::pow(m * std::pow(c.pref, -c.alpha) * c.cstar / A, 1 / (1 - c.alpha));
        if(!(p < 1e10)) h.runaway = true; // the chamber bursts: no balance representable as a pressure is left to compare
        f = 269.0 * 9.8 * A * (p - c.amb) / c.cstar;
        r += std::pow(p / c.pref, c.alpha) * c.burn * c.dt;
    }
    h.radius = r; return h;
}
Plato::AlgebraicRocketInputs inputs(const Cfg& c)
{
    Plato::AlgebraicRocketInputs in;
    in.mAlpha = c.alpha; in.mDeltaTime = c.dt; in.mRefPressure = c.pref; in.mTotalBurnTime = c.T; in.mThroatDiameter = c.throat;
    in.mNewtonTolerance = c.tol; in.mAmbientPressure = c.amb; in.mCharacteristicVelocity = c.cstar;
    return in;
}
Plato::ProblemParams params(const Cfg& c)
{
    auto p = Plato::RocketMocks::set_linear_burn_rate_problem(10 * c.rad, c.len, c.rad, c.burn, c.slope);
    p.mPropellantDensity = c.dens; return p;
}
void same(const std::vector<double>& g, const std::vector<double>& w, const char* what, double scale)
{
    vp::eqi(g.size(), w.size(), (std::string("number of recorded ") + what + " values").c_str());
    for(size_t i = 0; i < w.size(); i++) vp::eq(g[i], w[i], vp::fmt("%s at record %zu", what, i).c_str(), 1e-7, 1e-9 * scale);
}
void compare(const Plato::AlgebraicRocketModel& m, const Hist& h)
{
    same(m.getTimeProfile(), h.t, "time", 1); same(m.getPressuresProfile(), h.p, "pressure", 1); same(m.getThrustProfile(), h.f, "thrust", 100);
}
void quiet(bool on, const std::function<void()>& f)
{
    if(!on) { f(); return; }
    fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
    try { f(); } catch(...) { fflush(stdout); dup2(keep, 1); close(keep); throw; }
    fflush(stdout); dup2(keep, 1); close(keep);
}

std::vector<double> alphas = {0.38, 0.1, 0.5, 0.75};
const double prefs[] = {3.5e6, 1.0e6, 2.0e5, 7.0e6};
const double throats[] = {0.04, 0.02, 0.1};
const double cstars[] = {1554.5, 900.0};
const double ambs[] = {101.325, 0.0, 1.0e5};
const double dts[] = {0.1, 0.25, 0.5, 0.07};
std::vector<double> Ts = {0.3, 1.0, 0.25, 0.05, 0.7};
const double rads[] = {0.075, 0.025, 0.2};
const double lens[] = {0.65, 0.3};
const double burns[] = {0.005, 0.012};
const double denss[] = {1744, 1000};

Cfg cfg(Dec& d)
{
    Cfg c; c.tol = 1e-8; c.slope = 0.1;
    c.alpha = d.pick(alphas); c.pref = d.pick(prefs); c.throat = d.pick(throats);
    c.rad = d.pick(rads); c.dt = d.pick(dts); c.T = d.pick(Ts);
    c.cstar = d.pick(cstars); c.amb = d.pick(ambs); c.len = d.pick(lens); c.burn = d.pick(burns); c.dens = d.pick(denss);
    return c;
}

// geometry that records what the model asks of it
struct Spy : Plato::GeometryModel
{
    std::vector<std::string> log; std::vector<double> rates, dts, mult; size_t n = 0; bool out = false; int nsteps = -1;
    double area() override { return 1; }
    double referenceMassProductionRate() override { log.push_back("mass"); double m = rates[n % rates.size()]; return m; }
    void output(bool a) override { out = out || a; log.push_back(a ? "out1" : "out0"); }
    void gradient(std::vector<double>&) override {}
    void initialize(const Plato::ProblemParams& p) override { nsteps = p.mNumTimeSteps; n = 0; log.push_back("init"); }
    void updateGeometry(const Plato::ProblemParams&) override { log.push_back("update"); }
    void evolveGeometry(const double a, const double b) override { log.push_back("evolve"); dts.push_back(a); mult.push_back(b); n++; }
};
std::string slurp(const std::string& f) { std::ifstream s(f); std::stringstream o; o << s.rdbuf(); return o.str(); }
}

void vp::explore()
{
    const bool full = vp::thorough();
    if(full) { for(double a : {0.02, 0.2, 0.3, 0.62, 0.85}) alphas.push_back(a); for(double t : {0.14, 0.21, 2.0, 3.5}) Ts.push_back(t); }
    section("histories", alphas.size() * 4 * 3 * 3 * 4 * Ts.size() * (2 * 3 * 2 * 2 * 2), [&](u64 i)
    {
        Dec d(i); Cfg c = cfg(d); input(str(c));
        Hist h = reference(c); if(h.runaway) { skip(); return; }
        auto g = std::make_shared<Plato::Cylinder>();
        Plato::AlgebraicRocketModel m(inputs(c), g); m.disableOutput();
        auto p = params(c); m.initialize(p);
        eqi(p.mNumTimeSteps, steps(c), "number of time steps announced to the geometry");
        m.solve(); calls(2); compare(m, h);
        eq(g->radius(), h.radius, "radius after the burn", 1e-8, 1e-10);
        // the same problem again
        auto t1 = m.getTimeProfile(), p1 = m.getPressuresProfile(), f1 = m.getThrustProfile();
        m.initialize(p); m.solve(); calls(2);
        check(t1 == m.getTimeProfile() && p1 == m.getPressuresProfile() && f1 == m.getThrustProfile(), "second run of the same problem differs");
    });
    // every length of a history up to a few hundred steps, three step sizes
    section("long histories", (full ? 800 : 240) * 3 * 2, [&](u64 i)
    {
        Dec d(i); const double DT[] = {0.125, 0.01, 0.0625}; Cfg c{0.38, 3.5e6, 0.04, 1554.5, 101.325, 0.1, 0.3, 1e-8, 0.075, 0.65, 0.005, 0.1, 1744};
        c.dt = d.pick(DT); if(d.take(2)) { c.alpha = 0.5; c.rad = 0.025; } int n = (int)d.take(full ? 800 : 240) + 1; c.T = (n - 0.5) * c.dt; input(str(c));
        Hist h = reference(c); if(h.runaway) { skip(); return; }
        auto g = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(inputs(c), g); m.disableOutput();
        auto p = params(c); m.initialize(p); eqi(p.mNumTimeSteps, n, "number of time steps announced to the geometry");
        m.solve(); calls(2); compare(m, h); eq(g->radius(), h.radius, "radius after the burn", 1e-7, 1e-9);
    });
    // every sequence of setter calls: only the last value of each parameter counts, whatever the constructor was given
    section("setters", ipow(8, full ? 5 : 4), [&](u64 i)
    {
        Dec d(i); Cfg c{0.38, 3.5e6, 0.04, 1554.5, 101.325, 0.1, 0.3, 1e-8, 0.075, 0.65, 0.005, 0, 1744};
        auto g = std::make_shared<Plato::Cylinder>();
        Plato::AlgebraicRocketModel m(inputs(c), g); m.disableOutput();
        std::string s; int seen[8] = {0};
        for(int k = 0; k < (full ? 5 : 4); k++)
        {
            int o = d.take(8); int v = seen[o]++ % 2; s += vp::fmt(" %d.%d", o, v);
            switch(o)
            {
                case 0: c.alpha = v ? 0.25 : 0.6; m.setBurnRateExponent(c.alpha); break;
                case 1: c.pref = v ? 2e6 : 5e6; m.setRefPressure(c.pref); break;
                case 2: c.throat = v ? 0.05 : 0.03; m.setThroatDiameter(c.throat); break;
                case 3: c.cstar = v ? 1200 : 1700; m.setCharacteristicVelocity(c.cstar); break;
                case 4: c.amb = v ? 5e4 : 1e5; m.setAmbientPressure(c.amb); break;
                case 5: c.dt = v ? 0.125 : 0.2; m.setBurnTimeStep(c.dt); break;
                case 6: c.T = v ? 0.5 : 0.8; m.setTotalBurnTime(c.T); break;
                case 7: m.setMaxNumIterations(v ? 200 : 100); break;
            }
            calls();
        }
        input("setter sequence" + s);
        auto p = params(c); m.initialize(p); eqi(p.mNumTimeSteps, steps(c), "number of time steps announced to the geometry");
        m.solve(); calls(2); Hist h = reference(c); compare(m, h); eq(g->radius(), h.radius, "radius after the burn", 1e-8, 1e-10);
    });
    // the protocol between model and geometry, for every profile of mass production rates (non-monotone ones included)
    section("geometry protocol", ipow(4, 4) * 3 * 4, [&](u64 i)
    {
        Dec d(i); auto g = std::make_shared<Spy>();
        const double rs[] = {2.0, 4.0, 0.5, 9.0};
        for(int k = 0; k < 4; k++) g->rates.push_back(rs[d.take(4)]);
        Cfg c{0.38, 3.5e6, 0.04, 1554.5, 101.325, 0.1, 0.4, 1e-8, 0, 0, 0, 0, 0};
        c.alpha = alphas[d.take(3)]; c.pref = prefs[d.take(4)]; input(str(c) + " rates " + vec_str(g->rates));
        Plato::AlgebraicRocketModel m(inputs(c), g); m.disableOutput();
        Plato::ProblemParams p; m.initialize(p); m.solve(); calls(2);
        eqi(g->nsteps, 4, "steps announced"); check(!g->log.empty() && g->log[0] == "init", "the geometry is used before it is initialized");
        eqi(g->mult.size(), 4, "evolution steps of the geometry");
        const double A = M_PI * c.throat * c.throat / 4; auto pr = m.getPressuresProfile(); auto th = m.getThrustProfile();
        eqi(pr.size(), 4, "records");
        for(int k = 0; k < 4; k++)
        {
            double pk = std::pow(g->rates[k] * std::pow(c.pref, -c.alpha) * c.cstar / A, 1 / (1 - c.alpha));
            if(k < 3) { eq(pr[k + 1], pk, "pressure", 1e-7); eq(th[k + 1], 269.0 * 9.8 * A * (pk - c.amb) / c.cstar, "thrust", 1e-7, 1e-6); }
            eq(g->mult[k], std::pow(pk / c.pref, c.alpha), "burn rate multiplier", 1e-7); eq(g->dts[k], c.dt, "burn time step");
        }
        m.output(false); check(!g->out, "output(false) makes the geometry write");
        eqi(g->mult.size(), 4, "evolution steps of the geometry after output");
    });
    section("output", 2 * 3 * 2, [&](u64 i)
    {
        Dec d(i); bool ask = d.take(2); Cfg c{0.38, 3.5e6, 0.04, 1554.5, 101.325, 0.1, 0.3, 1e-8, 0.075, 0.65, 0.005, 0, 1744};
        c.T = Ts[d.take(3)]; bool print = d.take(2); input(str(c) + vp::fmt(" output=%d", ask));
        std::string dir = core().scratch, old; char b[4096]; old = getcwd(b, sizeof b);
        std::string f = dir + "/thrust_profile.txt"; unlink(f.c_str());
        auto g = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(inputs(c), g); if(!print) m.disableOutput();
        auto p = params(c);
        quiet(print, [&]() { m.initialize(p); m.solve(); }); calls(2);
        if(chdir(dir.c_str())) fail("no scratch directory"); m.output(ask); if(chdir(old.c_str())) fail("cwd");
        calls(); Hist h = reference(c);
        std::string s = slurp(f); unlink(f.c_str());
        if(!ask) { eqs(s, "", "thrust file without output"); return; }
        std::istringstream is(s); std::vector<double> v; double x; while(is >> x) v.push_back(x);
        eqi(v.size(), h.f.size(), "lines in the thrust file");
        for(size_t k = 0; k < v.size(); k++) eq(v[k], h.f[k], "thrust file entry", 1e-5);
    });
    section("cylinder", 4 * 4 * 3 * 3 * 4 * 4, [&](u64 i)
    {
        Dec d(i); const double R[] = {0.075, 0.0, 1.0, 3.5}, L[] = {0.65, 1.0, 0.0, 2.0}, B[] = {0.005, 0.0, 1.0}, D[] = {1744, 0, 2}, T[] = {0.1, 0, 0.5, 2}, M[] = {1, 0, 0.3, 2.5};
        double r = d.pick(R), l = d.pick(L), b = d.pick(B), rho = d.pick(D), dt = d.pick(T), mu = d.pick(M);
        input(vp::fmt("r=%g l=%g burn=%g density=%g dt=%g mult=%g", r, l, b, rho, dt, mu));
        Plato::Cylinder g; Plato::ProblemParams p = Plato::RocketMocks::set_linear_burn_rate_problem(9, l, r, b, 7); p.mPropellantDensity = rho;
        vp::eqi(p.mGeometry.size(), 3, "geometry parameters"); eq(p.mGeometry[0], 9, "max radius");
        for(int k = 0; k < 2; k++)
        {
            if(k) g.updateGeometry(p); else g.initialize(p);
            eq(g.radius(), r, "radius"); eq(g.length(), l, "length"); eq(g.area(), 2 * M_PI * r * l, "area");
            eq(g.referenceMassProductionRate(), b * rho * 2 * M_PI * r * l, "mass production rate");
            std::vector<double> gr(2, -1.0); g.gradient(gr); eq(gr[0], 2 * M_PI * l, "d area / d radius"); eq(gr[1], 2 * M_PI * r, "d area / d length");
            g.evolveGeometry(dt, mu); eq(g.radius(), r + mu * b * dt, "radius after one step"); eq(g.length(), l, "length after one step");
            g.evolveGeometry(dt, mu); eq(g.radius(), r + 2 * mu * b * dt, "radius after two steps");
            eq(g.area(), 2 * M_PI * (r + 2 * mu * b * dt) * l, "area after two steps");
            calls(4);
        }
    });
}
