// Criteria of the static physics: parameter lists and reference values, written from their definitions.
#pragma once
#include "phys.hpp"

namespace vpm
{
inline V eig(int d, const V& e) // of a symmetric tensor in Voigt form with engineering shear
{
    if(d == 1) return {e[0]}; if(d == 2) { double m = (e[0] + e[1]) / 2, h = (e[0] - e[1]) / 2, r = std::sqrt(h * h + e[2] * e[2] / 4); return {m - r, m + r}; }
    double a[3][3] = {{e[0], e[5] / 2, e[4] / 2}, {e[5] / 2, e[1], e[3] / 2}, {e[4] / 2, e[3] / 2, e[2]}}, q = (e[0] + e[1] + e[2]) / 3, p2 = 0; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { double v = a[i][j] - (i == j ? q : 0); p2 += v * v; }
    double p = std::sqrt(p2 / 6), b[3][3]; if(p == 0) return {q, q, q}; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) b[i][j] = (a[i][j] - (i == j ? q : 0)) / p;
    double r = (b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0])) / 2, ph = std::acos(std::max(-1.0, std::min(1.0, r))) / 3;
    double l = q + 2 * p * std::cos(ph), s = q + 2 * p * std::cos(ph + 2 * M_PI / 3); return {s, 3 * q - l - s, l};
}
inline double mises(int d, const V& s)
{
    if(d == 2) return std::sqrt(s[0] * s[0] - s[0] * s[1] + s[1] * s[1] + 3 * s[2] * s[2]); double m = (s[0] + s[1] + s[2]) / 3, q = 0; for(int j = 0; j < 3; j++) q += (s[j] - m) * (s[j] - m) + 2 * s[3 + j] * s[3 + j]; return std::sqrt(1.5 * q);
}
inline double tensile(int d, const Mat& m, const V& e) { double l = m.E * m.nu / (1 + m.nu) / (1 - 2 * m.nu), mu = m.E / 2 / (1 + m.nu), t = 0, w = 0; for(double x : eig(d, e)) { t += x; if(x > 0) w += mu * x * x; } if(t > 0) w += l / 2 * t * t; return w; }

enum CT { ENERGY, PNORM, EFFECTIVE, AUGQ_VM, AUGQ_TED, AUG, AUGGEN, DENSITY, VOLUME };
struct Crit { CT t; double p = 0; std::string str() const { static const char* n[] = {"energy", "p-norm", "effective energy", "quadratic von Mises constraint", "quadratic tensile energy constraint", "stress constraint", "general stress constraint", "density penalty", "volume"}; return vp::fmt("%s %g", n[t], p); } };
inline const std::vector<Crit>& crits(Kind k)
{
    static const std::vector<Crit> t[] = {{{ENERGY}, {PNORM, 2}, {PNORM, 4}, {PNORM, 6}}, {{ENERGY}, {PNORM, 2}, {PNORM, 4}, {PNORM, 6}, {EFFECTIVE, 0}, {EFFECTIVE, 1}, {EFFECTIVE, 2}, {AUGQ_VM}, {AUGQ_TED}, {AUG}, {AUGGEN}, {DENSITY}}, {{ENERGY}, {PNORM, 2}, {PNORM, 4}}, {{ENERGY}, {AUGQ_VM}, {VOLUME}}}; return t[k];
}
inline bool is_aug(CT t) { return t == AUGQ_VM || t == AUGQ_TED || t == AUG || t == AUGGEN; }
static const V ASSUMED = {0.3, -0.7, 0.5, 0.2, -0.4, 0.6};
// the parameters of the augmented Lagrangian criteria, all away from their defaults; set 1: the defaults
struct AugPar { double simp, limit, pen, ersatz, pen_max, lam, grow, mass_lo, mass_hi, mass0, red, mw, sw; };
inline AugPar aug_par(CT t, int set)
{
    if(set == 0) return {2.5, 0.6, 0.4, 1e-3, 0.7, 0.05, 1.3, 0.4, 2.2, 0.9, 0.8, 1.7, 0.6};
    AugPar a = {3, 1, 0.25, 1e-9, 500, 0.01, 1.5, 0, 4, 1, 0.95, 1, 1}; if(t == AUG) { a.pen = 0.1; a.pen_max = 100; a.grow = 1.05; } return a;
}
inline const char* crit_name(Kind k, CT t)
{
    switch(t) { case ENERGY: return k == THERMAL ? "Internal Thermal Energy" : k == MECH ? "Internal Elastic Energy" : k == EM ? "Internal Electroelastic Energy" : "Internal Thermoelastic Energy";
    case PNORM: return k == THERMAL ? "Flux P-Norm" : "Stress P-Norm"; case EFFECTIVE: return "Effective Energy"; case AUGQ_VM: case AUGQ_TED: return "Stress Constraint Quadratic"; case AUG: return "Stress Constraint"; case AUGGEN: return "Stress Constraint General"; case DENSITY: return "Density Penalty"; default: return "Volume"; }
}
inline void crit_list(PL& p, Kind k, int d, const Crit& q, const Pen& pen, const std::string& name, int set = 0)
{
    const std::string b = "Criteria/" + name + "/"; put(p, b + "Type", "Scalar Function"); put(p, b + "Scalar Function Type", crit_name(k, q.t)); pen_list(p, "Criteria/" + name, pen);
    if(q.t == PNORM) put(p, b + "Exponent", q.p); if(q.t == DENSITY && set == 0) put(p, b + "Penalty Amplitude", 2.3);
    if(q.t == EFFECTIVE) { arr(p, b + "Assumed Strain", V(ASSUMED.begin(), ASSUMED.begin() + (d == 2 ? 3 : 6))); put(p, "Cell Problem Forcing/Column Index", (int)q.p); }
    if(q.t == AUGQ_VM) put(p, b + "Local Measure", "VonMises"); if(q.t == AUGQ_TED) put(p, b + "Local Measure", "TensileEnergyDensity");
    if(is_aug(q.t) && set == 0)
    {
        AugPar a = aug_par(q.t, 0); put(p, b + "SIMP penalty", a.simp); put(p, b + (q.t == AUG || q.t == AUGGEN ? "Stress Limit" : "Local Measure Limit"), a.limit); put(p, b + "Initial Penalty", a.pen); put(p, b + "Min. Ersatz Material", a.ersatz); put(p, b + "Penalty Upper Bound", a.pen_max);
        put(p, b + "Initial Lagrange Multiplier", a.lam); put(p, b + "Penalty Expansion Multiplier", a.grow); if(q.t == AUG) { put(p, b + "Mass Multiplier Lower Bound", a.mass_lo); put(p, b + "Mass Multiplier Upper Bound", a.mass_hi); put(p, b + "Initial Mass Multiplier", a.mass0); put(p, b + "Mass Multiplier Reduction Multiplier", a.red); }
        if(q.t == AUGGEN) { put(p, b + "Mass Criterion Weight", a.mw); put(p, b + "Stress Criterion Weight", a.sw); }
        for(int m = 0; m < 2; m++) if(p.sublist("Material Models").isSublist(vp::fmt("mat%d", m))) put(p, vp::fmt("Material Models/mat%d/Density", m), m ? 0.6 : 1.4);
    }
}
// value of a criterion; hist: the updates of the augmented Lagrangian parameters made before (state and control of each)
struct Upd { V u, z; };
inline double crit_value(const Case& c, const Crit& q, const V& u, const V& z, const std::vector<Upd>& hist = {}, int set = 0, double* margin = 0)
{
    const int d = c.d(), ne = c.m.ne(); double r = 0; auto blk = [&](int e) { return c.blocks == 1 ? 0 : c.blk[e]; };
    if(is_aug(q.t))
    {
        int n[2] = {0, 0}; double mass[2] = {0, 0}; for(int e = 0; e < ne; e++) { n[blk(e)]++; mass[blk(e)] += std::fabs(c.m.vol(e)) * (set ? 1 : blk(e) ? 0.6 : 1.4); }
        for(int e = 0; e < ne; e++)
        {
            AugPar a = aug_par(q.t, set); double lam = a.lam, mu = a.pen, mm = a.mass0, hi = a.mass_hi; const Mat mt = c.mat(blk(e));
            auto eval = [&](const V& uu, const V& zz, double& ratio, double& rho) { Cell k = cell(c.m, e, zz); Gen g = kinetics(c.k, mt, k, d, uu); double m = q.t == AUGQ_TED ? tensile(d, mt, g.e) : mises(d, g.s); rho = k.rho; ratio = m / a.limit; if(margin) *margin = std::fmin(*margin, std::fabs(ratio - 1)); double x = ratio - 1, h = q.t == AUGGEN ? x * x * x * x + x * x : x * x; return ratio > 1 ? penal("SIMP", rho, a.simp, a.ersatz) * h : 0.0; };
            double ratio, rho; for(auto& s : hist)
            {
                double h = eval(s.u, s.z, ratio, rho); if(q.t == AUG) { mm = ratio * std::sqrt(rho) > 1 ? std::fmax(0.7 * mm - 0.1, a.mass_lo) : std::fmin(2.5 * mm + 0.5, hi); h = std::fmax(h, -lam / mu); hi *= a.red; if(margin) *margin = std::fmin(*margin, std::fabs(ratio * std::sqrt(rho) - 1)); }
                lam = std::fmax(lam + mu * h, 0.0); mu = std::fmin(mu * a.grow, a.pen_max);
            }
            double h = eval(u, z, ratio, rho); const int b = blk(e); const double frac = rho * std::fabs(c.m.vol(e)) * (set ? 1 : b ? 0.6 : 1.4) / mass[b]; if(q.t == AUG) h = std::fmax(h, -lam / mu); const double s = (lam * h + 0.5 * mu * h * h) / n[b];
            r += q.t == AUG ? mm * frac + s : q.t == AUGGEN ? a.mw * frac + a.sw * s : s;
        }
        return r;
    }
    for(int e = 0; e < ne; e++)
    {
        Cell k = cell(c.m, e, z); const Mat mt = c.mat(blk(e)); Gen g = kinetics(c.k, mt, k, d, u); const double w = k.vol, p = c.pen(k.rho);
        if(q.t == ENERGY) r += w * p * (c.k == THERMAL ? dot(g.q, g.g) : c.k == MECH ? 0.5 * dot(g.s, g.e) : c.k == EM ? dot(g.s, g.e) - dot(g.q, g.g) : dot(g.s, g.e) + dot(g.q, g.g));
        if(q.t == PNORM) { V s = c.k == THERMAL ? g.q : g.s; r += w * std::pow(p * std::sqrt(dot(s, s)), q.p); }
        if(q.t == EFFECTIVE) { V unit(g.e.size(), 0.0); unit[(int)q.p] = 1; V col = isotropic(d, mt.E, mt.nu, unit); for(size_t i = 0; i < col.size(); i++) r += w * p * (col[i] - g.s[i]) * ASSUMED[i]; }
        if(q.t == DENSITY) r += (set ? 1.0 : 2.3) / 2 * (1 - std::cos(2 * M_PI * k.rho));
        if(q.t == VOLUME) r += w * p;
    }
    return q.t == PNORM ? std::pow(r, 1 / q.p) : r;
}
inline Setup crit_setup(const Case& c, const Crit& q, int set = 0) { return [=](World& w, PL& p) { block_list(w, p, c); crit_list(p, c.k, c.m.d, q, c.pen, "crit", set); }; }
inline bool crit_valid(const Case& c, const Crit& q) { if(c.pen.type == "NoPenalty" && (c.k == THERMAL || c.k == TM)) return false; return !((is_aug(q.t) || q.t == DENSITY) && c.pen.str() != PENS[0].str()); }

// composites of two criteria: 0 weighted sum, 1 division, 2 least squares (gold values small, so that they are not used as the scale), 3 least squares (scaled by the gold values), 4 weighted sum of a division and a criterion
struct Comp { int kind; Crit a, b; std::string str() const { static const char* n[] = {"weighted sum", "division", "least squares", "scaled least squares", "sum with a quotient"}; return std::string(n[kind]) + " of " + a.str() + " and " + b.str(); } };
static const int NCOMP = 5;
inline Setup comp_setup(const Case& c, const Comp& q)
{
    return [=](World& w, PL& p) {
        block_list(w, p, c); crit_list(p, c.k, c.m.d, q.a, c.pen, "f1"); crit_list(p, c.k, c.m.d, q.b, c.pen, "f2"); const std::string b = "Criteria/crit/";
        if(q.kind == 0) { put(p, b + "Type", "Weighted Sum"); names(p, b + "Functions", {"f1", "f2"}); arr(p, b + "Weights", {0.7, -1.9}); }
        if(q.kind == 1) { put(p, b + "Type", "Division"); put(p, b + "Numerator", "f1"); put(p, b + "Denominator", "f2"); }
        if(q.kind == 2 || q.kind == 3) { put(p, b + "Type", "Least Squares"); names(p, b + "Functions", {"f1", "f2"}); arr(p, b + "Weights", {0.7, 1.9}); arr(p, b + "Gold Values", q.kind == 2 ? V{0.0, -0.05} : V{2.5, -0.4}); }
        if(q.kind == 4) { put(p, b + "Type", "Weighted Sum"); names(p, b + "Functions", {"ratio", "f1"}); arr(p, b + "Weights", {1.5, 0.3}); put(p, "Criteria/ratio/Type", "Division"); put(p, "Criteria/ratio/Numerator", "f2"); put(p, "Criteria/ratio/Denominator", "f1"); }
    };
}
inline double comp_value(int kind, double a, double b)
{
    auto sq = [](double x) { return x * x; };
    return kind == 0 ? 0.7 * a - 1.9 * b : kind == 1 ? a / b : kind == 2 ? 0.7 * a * a + 1.9 * sq(b + 0.05) : kind == 3 ? 0.7 * sq((a - 2.5) / 2.5) + 1.9 * sq((b + 0.4) / 0.4) : 1.5 * b / a + 0.3 * a;
}
inline double comp_den(int kind, double a, double b) { return kind == 1 ? b : kind == 4 ? a : 1; }
// a criterion on the solution at a node set: 0 component, 1 magnitude of the component
inline V normal_of(int nd) { return field(nd, -1, 1.5, 21); }
inline Setup sol_setup(const Case& c, int mag, const std::vector<int>& nodes) { return [=](World& w, PL& p) { block_list(w, p, c); w.nodes("pts", nodes); put(p, "Criteria/crit/Type", "Solution"); put(p, "Criteria/crit/Domain", "pts"); if(mag) put(p, "Criteria/crit/Magnitude", true); arr(p, "Criteria/crit/Normal", normal_of(c.nd())); }; }
inline double sol_value(const Case& c, int mag, const std::vector<int>& nodes, const V& u) { double r = 0; V n = normal_of(c.nd()); for(int v : nodes) { double s = 0; for(int i = 0; i < c.nd(); i++) { double x = n[i] * u[v * c.nd() + i]; s += mag ? x * x : x; } r += (mag ? std::sqrt(s) : s) / nodes.size(); } return r; }
} // namespace vpm
