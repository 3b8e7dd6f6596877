// P03 (custom material equations), P04 (material coefficient tensors), P05 (heat flux and heat content).
#include "expr_ref.hpp"
#include "vpk.hpp"
#include <fstream>
#include <Sacado.hpp>
#include "CustomMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
#include "VoigtMap.hpp"
using vp::Dec; using vp::u64;
typedef Teuchos::ParameterList PL;
typedef Sacado::Fad::SFad<double, 2> F2;
static const double T_AT[] = {0.0, 1.0, -2.0, 0.5, 300.0, 2500.0, -40.0, 1e-5};

#if VP_PROP == 3
struct Probe : Plato::CustomMaterial
{
    Probe(const PL& p) : Plato::CustomMaterial(p) {}
    double v(const PL& p) const { return GetCustomExpressionValue(p); }
    double v(const PL& p, const std::string& n) const { return GetCustomExpressionValue(p, n); }
    double v(const PL& p, int i) const { return GetCustomExpressionValue(p, i); }
    double v(const PL& p, int i, const std::string& n) const { return GetCustomExpressionValue(p, i, n); }
};
static ref::Result refeval(const std::string& s, const std::map<std::string, double>& vars)
{
    bool un; auto t = ref::lex(s, un); ref::Parser P(t, vars); auto r = P.run(); if(un && r.st != ref::BAD) r.st = ref::UNSPEC; return r;
}
template<typename F> static void expect(F call, bool want_err, double want, const char* what)
{
    double got = 0; vp::calls();
    bool err = vp::throws([&] { got = call(); });
    if(want_err) { vp::check(err, "%s: accepted with value %.17g, must be an error", what, got); vp::obs("error"); }
    else { vp::check(!err, "%s: rejected, reference value %.17g", what, want); vp::eq(got, want, what); }
}

static void inline_equations()
{
    static const char* EQ[] = {"E/((1.0+v)(1.0-2.0*v))", "E", "2", "E*v-1", "", " ", "E+", "q", "(E", "E v", "-v^2", "pow(E,2)", "abs(v-1)*E", "x_1", "3,4", "E$"};
    const int N = sizeof EQ / sizeof *EQ;
    // equation under: default name / custom name / absent; also a file equation present or not; variables present or not; four overloads
    vp::section("inline_equation", N * 3 * 3 * 4 * 2, [&](u64 i) {
        Dec d(i); std::string eq = EQ[d.take(N)]; int key = d.take(3), file = d.take(3), vars = d.take(4), ask = d.take(2);
        PL p; std::map<std::string, double> V;
        if(vars & 1) { p.set<double>("E", 5.0); V["E"] = 5.0; }
        if(vars & 2) { p.set<double>("v", 0.25); V["v"] = 0.25; }
        if(key < 2) p.set<std::string>(key ? "c11" : "Equation", eq);
        if(file) { p.set<std::string>("BingoFile", "inline_bingo.txt"); if(file == 2) { std::ofstream("inline_bingo.txt") << "FITNESS COMPLEXITY EQUATION\n0,1,41+1\n"; } else unlink("inline_bingo.txt"); }
        vp::input(vp::fmt("equation='%s' under %s, file %s, variables %d, asked for %s", eq.c_str(), key == 0 ? "Equation" : key == 1 ? "c11" : "nothing", file == 0 ? "none" : file == 1 ? "missing" : "present", vars, ask ? "c11" : "Equation"));
        Probe m(p);
        bool have = (key == 0 && ask == 0) || (key == 1 && ask == 1);
        ref::Result r = have ? refeval(eq, V) : file == 2 ? ref::Result{ref::OK, 42.0} : ref::Result{ref::BAD, 0};
        if(have && eq.empty()) r.st = ref::BAD;
        if(r.st == ref::UNSPEC) { vp::skip(); return; }
        bool bad = r.st == ref::BAD;
        if(ask == 0) { expect([&] { return m.v(p); }, bad, r.v, "value()"); expect([&] { return m.v(p, "Equation"); }, bad, r.v, "value(name)"); expect([&] { return m.v(p, -1); }, bad, r.v, "value(-1)"); expect([&] { return m.v(p, 0); }, bad, r.v, "value(0)"); }
        else { expect([&] { return m.v(p, "c11"); }, bad, r.v, "value(name)"); expect([&] { return m.v(p, -1, "c11"); }, bad, r.v, "value(-1,name)"); expect([&] { return m.v(p, 0, "c11"); }, bad, r.v, "value(0,name)"); }
    });
}
static const char* LINES[] = {"FITNESS    COMPLEXITY    EQUATION", "0, 0, E*2 + 1", "0.5,3,v - 7", "just text, 4", "", "no delimiter", "1, 2,", "1, 2, E +", "FITNESS and EQUATION, 9", "3, 4, (E)(v)"};
static void file_equations()
{
    const int N = sizeof LINES / sizeof *LINES;
    for(int n = 0; n <= (vp::thorough() ? 5 : 4); n++)
        vp::section(vp::fmt("equation_file_%d_lines", n), vp::ipow(N, n) * 4, [=](u64 i) {
            Dec d(i); bool nl = d.take(2); const char* eol = d.take(2) ? "\r\n" : "\n"; std::vector<std::string> L; for(int k = 0; k < n; k++) L.push_back(LINES[d.take(N)]);
            std::string text; for(int k = 0; k < n; k++) { text += L[k]; if(k + 1 < n || nl) text += eol; }
            vp::input("file='" + text + "'");
            // a shard has its own working directory
            { std::ofstream f("bingo.txt", std::ios::trunc | std::ios::binary); f << text; }
            int header = -1, headers = 0;
            for(int k = 0; k < n; k++) if(L[k] == LINES[0]) { if(header < 0) header = k; headers++; }
            std::map<std::string, double> V = {{"E", 5.0}, {"v", 0.25}};
            for(int par = -1; par <= 3; par++)
                for(int arg = -1; arg <= 3; arg++)
                {
                    PL p; p.set<double>("E", 5.0); p.set<double>("v", 0.25); p.set<std::string>("BingoFile", "bingo.txt");
                    if(par >= 0) p.set<int>("BingoEquation", par);
                    if(par >= 0 && arg >= 0 && par != 1) continue; // the argument wins; one other parameter value shows it
                    int want = arg >= 0 ? arg : par >= 0 ? par : 0, at = header + 1 + want;
                    bool bad = header < 0 || at >= n; double v = 0; bool unspec = headers > 1;
                    if(!bad)
                    {
                        size_t c = L[at].rfind(',');
                        if(L[at].empty() || c == std::string::npos || c + 1 == L[at].size()) bad = true;
                        else { auto r = refeval(L[at].substr(c + 1), V); if(r.st == ref::UNSPEC) unspec = true; bad = r.st == ref::BAD; v = r.v; }
                    }
                    Probe m(p);
                    std::string w = vp::fmt("equation %d (argument %d, parameter %d)", want, arg, par);
                    if(unspec) { vp::skip(); vp::throws([&] { vp::calls(); m.v(p, arg); }); continue; }
                    if(arg < 0) expect([&] { return m.v(p); }, bad, v, w.c_str()); else expect([&] { return m.v(p, arg); }, bad, v, w.c_str());
                }
        });
}
void vp::explore() { inline_equations(); file_equations(); }
#endif

#if VP_PROP == 4
// key layout of the coefficient tensors: entry (i,j), required, and where its default comes from (-1: zero)
struct Key { const char* name; int i, j; bool req; int dflt; };
static std::vector<Key> tensor_keys(int d)
{
    std::vector<Key> k = {{"11", 0, 0, true, -1}};
    if(d > 1) { k.push_back({"22", 1, 1, false, 0}); k.push_back({"12", 0, 1, false, -1}); }
    if(d > 2) { k.push_back({"33", 2, 2, false, 0}); k.push_back({"13", 0, 2, false, -1}); k.push_back({"23", 1, 2, false, -1}); }
    return k;
}
static std::vector<Key> voigt_keys(int d)
{
    if(d == 1) return {{"11", 0, 0, true, -1}};
    if(d == 2) return {{"11", 0, 0, true, -1}, {"22", 1, 1, false, 0}, {"33", 2, 2, true, -1}, {"12", 0, 1, false, -1}};
    return {{"11", 0, 0, true, -1}, {"22", 1, 1, false, 0}, {"33", 2, 2, false, 0}, {"44", 3, 3, true, -1}, {"55", 4, 4, false, 3}, {"66", 5, 5, false, 3}, {"12", 0, 1, false, -1}, {"13", 0, 2, false, 6}, {"23", 1, 2, false, 6}};
}
static const double PRIME[] = {2, -3, 5, -7, 11, 13, -17, 19, 23, 29, -31, 37, 41, -43, 47, 53, 59, -61, 67, 71, 73, -79, 83, 89, 97, 101, -103};
typedef std::vector<std::vector<double>> Mat;
// fills the list from a subset and returns the tensor documented for it; err when a required one is missing (required only for order 0)
static Mat make(PL& p, const std::vector<Key>& K, unsigned given, const std::string& pre, int order, int n, bool& err)
{
    Mat m(n, std::vector<double>(n, 0.0)); std::vector<double> v(K.size());
    for(size_t k = 0; k < K.size(); k++)
    {
        if(given >> k & 1) { v[k] = PRIME[order * 9 + k] * (order == 0 ? 1 : order == 1 ? 0.5 : 0.125); p.set<double>("c" + pre + K[k].name, v[k]); }
        else if(K[k].req && order == 0) { err = true; v[k] = 0; }
        else v[k] = K[k].dflt < 0 ? 0.0 : v[K[k].dflt];
        m[K[k].i][K[k].j] = m[K[k].j][K[k].i] = v[k];
    }
    return m;
}
template<typename FN> static void functor_eq(const FN& f, const Mat& c0, const Mat& c1, const Mat& c2, int n)
{
    for(double T : T_AT)
        for(int i = 0; i < n; i++) for(int j = 0; j < n; j++)
        {
            double w = c0[i][j] + c1[i][j] * T + c2[i][j] * T * T;
            vp::eq(f(T, i, j), w, vp::fmt("entry (%d,%d) at T=%g", i, j, T).c_str()); vp::calls(2);
            F2 x(2, 0, T), r = f(x, i, j);
            vp::eq(r.val(), w, "value with derivative"); vp::eq(r.dx(0), c1[i][j] + 2 * c2[i][j] * T, vp::fmt("derivative of entry (%d,%d) at T=%g", i, j, T).c_str()); vp::eq(r.dx(1), 0, "unseeded derivative");
        }
}
static std::string pl_str(const PL& p) { std::ostringstream o; p.print(o, 0, false, false); std::string s = o.str(); for(auto& c : s) if(c == '\n') c = ';'; return s; }

template<int D> static void tensors()
{
    const int NV = D == 1 ? 1 : D == 2 ? 3 : 6;
    for(int rank4 = 0; rank4 < 2; rank4++)
    {
        auto K = rank4 ? voigt_keys(D) : tensor_keys(D); int n = rank4 ? NV : D; unsigned S = 1u << K.size();
        std::string nm = vp::fmt("%s_%dd", rank4 ? "voigt" : "tensor", D);
        vp::section(nm + "_constant", S, [=](u64 i) {
            PL p; bool err = false; Mat m = make(p, K, i, "", 0, n, err); vp::input(pl_str(p)); vp::calls();
            if(err)
            {
                bool t = rank4 ? vp::throws([&] { Plato::Rank4VoigtConstant<D> c(p); }) : vp::throws([&] { Plato::TensorConstant<D> c(p); });
                vp::check(t, "a missing required entry was accepted"); vp::obs("error"); return;
            }
            auto cmp = [&](auto& c) { for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) vp::eq(c(a, b), m[a][b], vp::fmt("entry (%d,%d)", a, b).c_str()); };
            if(rank4) { Plato::Rank4VoigtConstant<D> c(p); cmp(c); } else { Plato::TensorConstant<D> c(p); cmp(c); }
        });
        // one order's subset varies over everything, the other two are absent (only what is required) or complete
        unsigned reqd = 0; for(size_t k = 0; k < K.size(); k++) if(K[k].req) reqd |= 1u << k;
        vp::section(nm + "_functor", S * 3 * 4, [=](u64 i) {
            Dec d(i); unsigned s = d.take(S); int o = d.take(3), oth = d.take(4); bool err = false; PL p; Mat c[3];
            int q = 0;
            for(int k = 0; k < 3; k++)
            {
                unsigned g = k == o ? s : (oth >> q++ & 1) ? S - 1 : k == 0 ? reqd : 0;
                c[k] = make(p, K, g, std::to_string(k), k, n, err);
            }
            vp::input(pl_str(p)); vp::calls();
            if(err)
            {
                bool t = rank4 ? vp::throws([&] { Plato::Rank4VoigtFunctor<D> f(p); }) : vp::throws([&] { Plato::TensorFunctor<D> f(p); });
                vp::check(t, "a missing required entry was accepted"); vp::obs("error"); return;
            }
            if(rank4) { Plato::Rank4VoigtFunctor<D> f(p); functor_eq(f, c[0], c[1], c[2], n); } else { Plato::TensorFunctor<D> f(p); functor_eq(f, c[0], c[1], c[2], n); }
        });
    }
    static const double VALS[] = {0.0, 1.0, -2.5, 1e6};
    vp::section(vp::fmt("diagonal_%dd", D), 5, [=](u64 i) {
        bool none = i == 4; double v = none ? 0 : VALS[i]; vp::input(vp::fmt("%g", v)); vp::calls(3);
        Mat z(D, std::vector<double>(D, 0.0)), m = z; for(int a = 0; a < D; a++) m[a][a] = v;
        auto c = none ? Plato::TensorConstant<D>() : Plato::TensorConstant<D>(v); auto f = none ? Plato::TensorFunctor<D>() : Plato::TensorFunctor<D>(v);
        for(int a = 0; a < D; a++) for(int b = 0; b < D; b++) vp::eq(c(a, b), m[a][b], "diagonal tensor constant");
        functor_eq(f, m, z, z, D);
        if(none)
        {
            Mat y(NV, std::vector<double>(NV, 0.0)); functor_eq(Plato::Rank4VoigtFunctor<D>(), y, y, y, NV);
            Plato::Rank4VoigtConstant<D> r; for(int a = 0; a < NV; a++) for(int b = 0; b < NV; b++) vp::eq(r(a, b), 0, "zero constant");
        }
    });
}
// isotropic stiffness in Voigt form from E and v (plane strain in 2-D, uniaxial strain in 1-D)
static Mat iso(int d, double E, double v)
{
    int n = d == 1 ? 1 : d == 2 ? 3 : 6; double lam = E * v / ((1 + v) * (1 - 2 * v)), mu = E / (2 * (1 + v));
    Mat m(n, std::vector<double>(n, 0.0));
    for(int a = 0; a < d; a++) for(int b = 0; b < d; b++) m[a][b] = lam + (a == b ? 2 * mu : 0);
    for(int a = d; a < n; a++) m[a][a] = mu;
    return m;
}
static const double ES[] = {1.0, 2e11, 3.5}, VS[] = {0.0, 0.25, 0.35, -0.3, 0.499};
template<int D> static void isotropic()
{
    const int NV = D == 1 ? 1 : D == 2 ? 3 : 6;
    vp::section(vp::fmt("isotropic_constant_%dd", D), 3 * 5 * 4, [=](u64 i) {
        Dec d(i); double E = d.pick(ES), v = d.pick(VS); int g = d.take(4); PL p; if(g & 1) p.set<double>("Youngs Modulus", E); if(g & 2) p.set<double>("Poissons Ratio", v);
        vp::input(pl_str(p)); vp::calls();
        if(g != 3) { vp::check(vp::throws([&] { Plato::IsotropicStiffnessConstant<D> c(p); }), "a missing modulus was accepted"); return; }
        Plato::IsotropicStiffnessConstant<D> c(p); Mat m = iso(D, E, v);
        for(int a = 0; a < NV; a++) for(int b = 0; b < NV; b++) vp::eq(c(a, b), m[a][b], vp::fmt("stiffness (%d,%d)", a, b).c_str());
    });
    vp::section(vp::fmt("isotropic_functor_%dd", D), 3 * 5 * 16, [=](u64 i) {
        Dec d(i); double E = d.pick(ES), v = d.pick(VS); int g = d.take(16); PL p; double e[3] = {E, -0.25 * E, 0.001 * E};
        if(g & 8) p.set<double>("Poissons Ratio", v);
        PL& y = p.sublist("Youngs Modulus"); for(int k = 0; k < 3; k++) if(g >> k & 1) y.set<double>(vp::fmt("c%d", k), e[k]); else e[k] = 0;
        vp::input(pl_str(p)); vp::calls();
        if(!(g & 1) || !(g & 8)) { vp::check(vp::throws([&] { Plato::IsotropicStiffnessFunctor<D> c(p); }), "a missing required modulus was accepted"); return; }
        Plato::IsotropicStiffnessFunctor<D> f(p); functor_eq(f, iso(D, e[0], v), iso(D, e[1], v), iso(D, e[2], v), NV);
    });
}
static void scalar_functor()
{
    static const double C[] = {0.0, 1.0, -2.5, 1e5};
    vp::section("scalar_functor", 8 * 64, [=](u64 i) {
        Dec d(i); int g = d.take(8); double c[3] = {d.pick(C), d.pick(C), d.pick(C)}; PL p; for(int k = 0; k < 3; k++) if(g >> k & 1) p.set<double>(vp::fmt("c%d", k), c[k]); else c[k] = 0;
        vp::input(pl_str(p)); vp::calls(11);
        if(!(g & 1)) { vp::check(vp::throws([&] { Plato::ScalarFunctor f(p); }), "missing c0 accepted"); return; }
        Plato::ScalarFunctor f(p), k(c[0]), z;
        for(double T : T_AT)
        {
            vp::eq(f(T), c[0] + c[1] * T + c[2] * T * T, "quadratic"); vp::eq(k(T), c[0], "constant"); vp::eq(z(T), 0, "zero");
            F2 x(2, 1, T), r = f(x); vp::eq(r.val(), c[0] + c[1] * T + c[2] * T * T, "value with derivative"); vp::eq(r.dx(1), c[1] + 2 * c[2] * T, "derivative"); vp::eq(r.dx(0), 0, "unseeded derivative");
        }
    });
}
template<int D> struct Parsed : Plato::MaterialModel<D> { Parsed(const PL& p) : Plato::MaterialModel<D>(p) {} Parsed() {} };

template<int D> static void models()
{
    const int NV = D == 1 ? 1 : D == 2 ? 3 : 6;
    auto flag = [](PL& p, int f) { if(f == 1) p.set<bool>("Temperature Dependent", false); if(f == 2) p.set<bool>("Temperature Dependent", true); };
    vp::section(vp::fmt("parse_%dd", D), 3 * 5 * 5, [=](u64 i) {
        Dec d(i); int fl = d.take(3), what = d.take(5), form = d.take(5); PL p; flag(p, fl); bool non = fl == 2;
        // form: absent, number, list with everything required, empty list, text
        if(form == 1) p.set<double>("Q", 7.0);
        if(form == 2) { PL& s = p.sublist("Q"); for(const char* k : {"c0", "c011", "c11", "c033", "c33", "c044", "c44"}) s.set<double>(k, 7.0 + strlen(k)); }
        if(form == 3) p.sublist("Q");
        if(form == 4) p.set<std::string>("Q", "seven");
        vp::input(vp::fmt("parse kind %d, form %d, flag %d", what, form, fl)); vp::calls();
        Parsed<D> m(p); vp::check((m.type() == Plato::MaterialModelType::Nonlinear) == non, "model type");
        bool err = false;
        auto run = [&] { switch(what) { case 0: m.parseScalar("Q", p); break; case 1: m.parseTensor("Q", p); break; case 2: m.parseRank4Voigt("Q", p); break; case 3: m.parseScalarConstant("Q", p); break; default: m.parseScalarConstant("Q", p, -4.0); } };
        if(what == 0) err = form == 0 || form == 4 || form == 3 || (form == 2 && !non);
        if(what == 1) err = form == 0 || form == 4 || form == 3;
        if(what == 2) err = form != 2;
        if(what == 3) err = form != 1;
        bool t = vp::throws(run);
        vp::check(t == err, err ? "a request that cannot be met was accepted" : "a valid request was rejected");
        if(err) { vp::obs("error"); return; }
        double sc = 0; Mat tc(D, std::vector<double>(D, 0.0)), tf = tc, vc(NV, std::vector<double>(NV, 0.0)), vf = vc; double sf = 0;
        if(what == 0) { double v = form == 1 ? 7.0 : 9.0; if(non) sf = v; else sc = v; }
        if(what == 1) for(int a = 0; a < D; a++) { double v = form == 1 ? 7.0 : non ? 11.0 : 10.0; (non ? tf : tc)[a][a] = v; }
        if(what == 2) { double v = non ? 11.0 : 10.0; for(int a = 0; a < NV; a++) (non ? vf : vc)[a][a] = v; }
        if(what >= 3) sc = form == 1 ? 7.0 : -4.0;
        for(int other = 0; other < 2; other++)
        {
            std::string nm = other ? "q" : "Q"; double k = other ? 0 : 1; // nothing is stored under another name
            vp::eq(m.getScalarConstant(nm), k * sc, "scalar constant");
            vp::eq(m.getScalarFunctor(nm)(3.0), k * sf, "scalar functor");
            auto a = m.getTensorConstant(nm); auto b = m.getTensorFunctor(nm); auto c = m.getRank4VoigtConstant(nm); auto e = m.getRank4VoigtFunctor(nm);
            for(int x = 0; x < D; x++) for(int y = 0; y < D; y++) { vp::eq(a(x, y), k * tc[x][y], "tensor constant"); vp::eq(b(3.0, x, y), k * tf[x][y], "tensor functor"); }
            for(int x = 0; x < NV; x++) for(int y = 0; y < NV; y++) { vp::eq(c(x, y), k * vc[x][y], "voigt constant"); vp::eq(e(3.0, x, y), k * vf[x][y], "voigt functor"); }
        }
    });
    // every history of stores into the six maps under two names, against a plain map
    const int DEP = 3;
    vp::section(vp::fmt("store_history_%dd", D), vp::ipow(24, DEP), [=](u64 i) {
        Dec d(i); Plato::MaterialModel<D> m; std::map<std::pair<int, int>, double> R; std::string in;
        for(int s = 0; s < DEP; s++)
        {
            int op = d.take(24), kind = op % 6, name = op / 6 % 2; double v = op / 12 ? 3.0 : -5.0; std::string n = name ? "A" : "B";
            in += vp::fmt("set%d(%s,%g) ", kind, n.c_str(), v); R[{kind, name}] = v; vp::calls(13);
            PL p; for(const char* k : {"c11", "c33", "c44", "c011", "c033", "c044"}) p.set<double>(k, v);
            switch(kind) { case 0: m.setScalarConstant(n, v); break; case 1: m.setTensorConstant(n, Plato::TensorConstant<D>(v)); break; case 2: m.setRank4VoigtConstant(n, Plato::Rank4VoigtConstant<D>(p)); break;
                case 3: m.setScalarFunctor(n, Plato::ScalarFunctor(v)); break; case 4: m.setTensorFunctor(n, Plato::TensorFunctor<D>(v)); break; default: m.setRank4VoigtFunctor(n, Plato::Rank4VoigtFunctor<D>(p)); }
            for(int k = 0; k < 6; k++) for(int nn = 0; nn < 2; nn++)
            {
                double w = R.count({k, nn}) ? R[{k, nn}] : 0.0; std::string N = nn ? "A" : "B"; double g;
                switch(k) { case 0: g = m.getScalarConstant(N); break; case 1: g = m.getTensorConstant(N)(0, 0); break; case 2: g = m.getRank4VoigtConstant(N)(0, 0); break; case 3: g = m.getScalarFunctor(N)(2.0); break; case 4: g = m.getTensorFunctor(N)(2.0, 0, 0); break; default: g = m.getRank4VoigtFunctor(N)(2.0, 0, 0); }
                vp::input(in); vp::eq(g, w, vp::fmt("kind %d name %s", k, N.c_str()).c_str());
            }
        }
    });
    // thermoelastic material: every combination of forms
    vp::section(vp::fmt("thermoelastic_%dd", D), 3 * 5 * 2 * 3 * 3 * 2 * 2, [=](u64 i) {
        Dec d(i); int fl = d.take(3), st = d.take(5), pr = d.take(2), ex = d.take(3), co = d.take(3), rt = d.take(2), sc = d.take(2); bool non = fl == 2;
        PL root; PL& p = root.sublist("Material Models").sublist("M").sublist("Thermoelastic"); flag(p, fl);
        // stiffness: no list, number E, E as a list, explicit coefficients, list without any of these
        if(st) { PL& s = p.sublist("Elastic Stiffness"); if(pr) s.set<double>("Poissons Ratio", 0.25); if(st == 1) s.set<double>("Youngs Modulus", 10.0); if(st == 2) { s.sublist("Youngs Modulus").set<double>("c0", 10.0); s.sublist("Youngs Modulus").set<double>("c1", 2.0); }
            if(st == 3) for(const char* k : {"c011", "c11", "c033", "c33", "c044", "c44"}) s.set<double>(k, 6.0 + k[strlen(k) - 1] - '0'); }
        auto tens = [&](const char* n, int f, double v) { if(f == 1) p.set<double>(n, v); if(f == 2) { p.sublist(n).set<double>("c11", v + 1); p.sublist(n).set<double>("c011", v + 2); p.sublist(n).set<double>("c111", 0.5); } };
        tens("Thermal Expansivity", ex, 1e-3); tens("Thermal Conductivity", co, 100.0);
        if(rt) p.set<double>("Reference Temperature", 5.0); if(sc) p.set<double>("Temperature Scaling", 0.5);
        vp::input(pl_str(p)); vp::calls();
        bool err = st == 0 || st == 4 || ((st == 1 || st == 2) && !pr) || (st == 2 && !non) || ex == 0 || co == 0;
        Teuchos::RCP<Plato::MaterialModel<D>> m; Plato::ThermoelasticModelFactory<D> f(root);
        bool t = vp::throws([&] { m = f.create("M"); });
        vp::check(t == err, err ? "an incomplete or inconsistent material was accepted" : "a valid material was rejected");
        if(err) { vp::obs("error"); return; }
        vp::check(!m.is_null(), "no material"); vp::check((m->type() == Plato::MaterialModelType::Nonlinear) == non, "model type");
        vp::eq(m->getScalarConstant("Reference Temperature"), rt ? 5.0 : 23.0, "reference temperature"); vp::eq(m->getScalarConstant("Temperature Scaling"), sc ? 0.5 : 1.0, "temperature scaling");
        Mat z(NV, std::vector<double>(NV, 0.0)), c0 = z, c1 = z;
        if(st == 3) { for(int a = 0; a < NV; a++) c0[a][a] = a < D ? 7.0 : D == 2 ? 9.0 : 10.0; } else { c0 = iso(D, 10.0, 0.25); if(st == 2) c1 = iso(D, 2.0, 0.25); }
        if(st == 3 && D == 3) { } // c22 and c33: c33 given below
        if(st == 3 && D == 3) c0[2][2] = 9.0;
        if(non) functor_eq(m->getRank4VoigtFunctor("Elastic Stiffness"), c0, c1, z, NV);
        else { auto c = m->getRank4VoigtConstant("Elastic Stiffness"); for(int a = 0; a < NV; a++) for(int b = 0; b < NV; b++) vp::eq(c(a, b), c0[a][b], vp::fmt("stiffness (%d,%d)", a, b).c_str()); }
        for(int q = 0; q < 2; q++)
        {
            const char* n = q ? "Thermal Conductivity" : "Thermal Expansivity"; int fm = q ? co : ex; double v = q ? 100.0 : 1e-3;
            for(int a = 0; a < D; a++) for(int b = 0; b < D; b++)
            {
                if(non) vp::eq(m->getTensorFunctor(n)(4.0, a, b), a == b ? (fm == 1 ? v : v + 2 + 2.0) : 0, n);
                else vp::eq(m->getTensorConstant(n)(a, b), a == b ? (fm == 1 ? v : v + 1) : 0, n);
            }
        }
    });
    // factories: list present, name defined, physics list present
    vp::section(vp::fmt("factories_%dd", D), 3 * 4 * 3, [=](u64 i) {
        Dec d(i); int which = d.take(3), depth = d.take(4), ask = d.take(3); static const char* PH[] = {"Thermoelastic", "Thermal Conduction", "Thermal Mass"};
        PL root; if(depth >= 1) root.sublist("Material Models"); if(depth >= 2) root.sublist("Material Models").sublist("M");
        if(depth >= 3) { PL& p = root.sublist("Material Models").sublist("M").sublist(PH[which]); p.set<double>("Thermal Conductivity", 3.0); p.set<double>("Mass Density", 5.0); p.set<double>("Specific Heat", 7.0); p.set<double>("Thermal Expansivity", 2.0); PL& s = p.sublist("Elastic Stiffness"); s.set<double>("Youngs Modulus", 1.0); s.set<double>("Poissons Ratio", 0.0);
            PL& o = root.sublist("Material Models").sublist("N").sublist(PH[which]); o = p; o.set<double>("Thermal Conductivity", 30.0); o.set<double>("Mass Density", 50.0); }
        std::string nm = ask == 0 ? "M" : ask == 1 ? "N" : "m"; vp::input(vp::fmt("%s, depth %d, asked for %s", PH[which], depth, nm.c_str())); vp::calls();
        bool err = depth > 0 && !(depth == 3 && ask < 2); Teuchos::RCP<Plato::MaterialModel<D>> m;
        bool t = vp::throws([&] { if(which == 0) m = Plato::ThermoelasticModelFactory<D>(root).create(nm); if(which == 1) m = Plato::ThermalConductionModelFactory<D>(root).create(nm); if(which == 2) m = Plato::ThermalMassModelFactory<D>(root).create(nm); });
        vp::check(t == err, err ? "an undefined material was accepted" : "a defined material was rejected");
        if(err) { vp::obs("error"); return; }
        vp::check(m.is_null() == (depth == 0), "null without a material list, a model otherwise");
        if(depth == 0) return;
        double k = ask == 0 ? 1 : 10;
        if(which < 2) for(int a = 0; a < D; a++) for(int b = 0; b < D; b++) vp::eq(m->getTensorConstant("Thermal Conductivity")(a, b), a == b ? 3.0 * k : 0, "conductivity");
        else { vp::eq(m->getScalarConstant("Mass Density"), 5 * k, "density"); vp::eq(m->getScalarConstant("Specific Heat"), 7, "specific heat"); }
    });
}
template<int D> static void voigt_map()
{
    // every Voigt entry names one tensor component: xx yy zz yz xz xy
    vp::section(vp::fmt("voigt_map_%d", D), D == 3 ? 6 : D == 2 ? 3 : 1, [](u64 i) {
        static const int I3[] = {0, 1, 2, 1, 0, 0}, J3[] = {0, 1, 2, 2, 2, 1}, I2[] = {0, 1, 0}, J2[] = {0, 1, 1}; Plato::VoigtMap<D> m; vp::input(vp::fmt("entry %d", (int)i)); vp::calls();
        int a = D == 3 ? I3[i] : D == 2 ? I2[i] : 0, b = D == 3 ? J3[i] : D == 2 ? J2[i] : 0; vp::check((m.I[i] == a && m.J[i] == b) || (m.I[i] == b && m.J[i] == a), "Voigt entry %d refers to component (%d,%d) instead of (%d,%d)", (int)i, (int)m.I[i], (int)m.J[i], a, b); vp::obs(m.I[i] * 10.0 + m.J[i]);
    });
}
void vp::explore()
{
    voigt_map<1>(); voigt_map<2>(); voigt_map<3>();
    scalar_functor(); tensors<1>(); tensors<2>(); tensors<3>(); isotropic<1>(); isotropic<2>(); isotropic<3>(); models<1>(); models<2>(); models<3>();
}
#endif

#if VP_PROP == 5
static const double TT[] = {0.0, 1.0, -2.0, 0.5, 300.0, 2500.0, -40.0};
template<int D> static void flux()
{
    // conductivity entries from a small alphabet, every gradient from another, two cells with different data
    static const double KV[] = {0.0, 2.0, -3.0}, G[] = {0.0, 1.0, -2.5};
    const int NK = D * (D + 1) / 2; const char* KN[] = {"11", "22", "12", "33", "13", "23"}; const int KI[] = {0, 1, 0, 2, 0, 1}, KJ[] = {0, 1, 1, 2, 2, 2};
    for(int non = 0; non < 2; non++)
        vp::section(vp::fmt("flux_%dd_%s", D, non ? "nonlinear" : "linear"), vp::ipow(3, NK) * vp::ipow(3, D) * (non ? 7 : 1), [=](u64 i) {
            Dec d(i); PL p; p.set<bool>("Temperature Dependent", (bool)non); PL& s = p.sublist("Thermal Conductivity"); double c[3][3][3] = {};
            for(int k = 0; k < NK; k++)
            {
                double v = d.pick(KV);
                for(int o = 0; o < (non ? 3 : 1); o++) { double w = o == 0 ? v : o == 1 ? 0.5 * v + 0.25 * k : 0.125 * v - 0.5 * k; s.set<double>(std::string("c") + (non ? std::to_string(o) : "") + KN[k], w); c[o][KI[k]][KJ[k]] = c[o][KJ[k]][KI[k]] = w; }
            }
            const int h = vp::cell(i, 1), nc = vp::NC; std::vector<double> T(nc, 7.0); T[0] = non ? d.pick(TT) : 3.0; Plato::ScalarMultiVector g("g", nc, D), q("q", nc, D); Plato::ScalarVector t("t", nc);
            for(int a = 0; a < D; a++) { g(0, a) = d.pick(G) * vp::sc(); for(int e = 1; e < nc; e++) g(e, a) = (1.0 + a) * vp::sc(); for(int e = 0; e < nc; e++) q(e, a) = 99.0; }
            for(int e = 0; e < nc; e++) t(e) = T[e]; std::ostringstream o; p.print(o, 0, false, false); vp::input(o.str() + vp::fmt("T=%g", T[0]));
            auto m = Teuchos::rcp<Plato::MaterialModel<D>>(new Plato::ThermalConductionModel<D>(p)); Plato::ThermalFlux<D> f(m);
            auto want = [&](int cell, int a) { double w = 0; for(int b = 0; b < D; b++) w -= (c[0][a][b] + (non ? c[1][a][b] * T[cell] + c[2][a][b] * T[cell] * T[cell] : 0)) * g(cell, b); return w; };
            vp::calls(); f(0, q, g, t);
            for(int a = 0; a < D; a++) { vp::eq(q(0, a), want(0, a), vp::fmt("flux %d", a).c_str()); vp::eq(q(h, a), 99.0, "other cell"); }
            vp::calls(); f(h, q, g, t);
            for(int a = 0; a < D; a++) { vp::eq(q(h, a), want(h, a), vp::fmt("flux %d of cell 1", a).c_str()); vp::eq(q(0, a), want(0, a), "cell 0 afterwards"); }
            if(!non) { vp::calls(); q(0, 0) = 1e9; f(0, q, g); for(int a = 0; a < D; a++) vp::eq(q(0, a), want(0, a), "flux without temperature"); }
            // with derivatives
            typedef Sacado::Fad::SFad<double, 4> F; Plato::ScalarMultiVectorT<F> gf("gf", nc, D), qf("qf", nc, D); Plato::ScalarVectorT<F> tf("tf", nc);
            for(int cell = 0; cell < nc; cell++) { for(int a = 0; a < D; a++) gf(cell, a) = F(4, a, g(cell, a)); tf(cell) = F(4, 3, T[cell]); }
            vp::calls(); f(0, qf, gf, tf);
            for(int a = 0; a < D; a++)
            {
                vp::eq(qf(0, a).val(), want(0, a), "flux value with derivatives"); double dT = 0;
                for(int b = 0; b < D; b++) { double k = c[0][a][b] + (non ? c[1][a][b] * T[0] + c[2][a][b] * T[0] * T[0] : 0); vp::degree(0); vp::eq(qf(0, a).dx(b), -k, "d flux / d gradient"); vp::degree(1); if(non) dT -= (c[1][a][b] + 2 * c[2][a][b] * T[0]) * g(0, b); }
                vp::eq(qf(0, a).dx(3), dT, "d flux / d temperature");
            }
        });
}
template<int D> static void content()
{
    static const double C[] = {0.0, 2.0, -1.5}, R[] = {0.0, 1.0, -3.0};
    for(int non = 0; non < 2; non++)
        vp::section(vp::fmt("content_%dd_%s", D, non ? "nonlinear" : "linear"), (non ? 729 : 9) * 3 * 7, [=](u64 i) {
            Dec d(i); PL p; p.set<bool>("Temperature Dependent", (bool)non); double c[2][3] = {}; const char* N[] = {"Mass Density", "Specific Heat"};
            for(int q = 0; q < 2; q++) for(int o = 0; o < (non ? 3 : 1); o++) { c[q][o] = d.pick(C); if(non) p.sublist(N[q]).set<double>(vp::fmt("c%d", o), c[q][o]); else p.set<double>(N[q], c[q][o]); }
            double r = d.pick(R) * vp::sc(), T = d.pick(TT); std::ostringstream o; p.print(o, 0, false, false); vp::input(o.str() + vp::fmt("T=%g rate=%g", T, r));
            auto m = Teuchos::rcp<Plato::MaterialModel<D>>(new Plato::ThermalMassMaterial<D>(p)); Plato::ThermalContent<D> f(m);
            const int h = vp::cell(i, 1), nc = vp::NC; Plato::ScalarVector q("q", nc), rt("r", nc), t("t", nc); for(int e = 0; e < nc; e++) { q(e) = 99; rt(e) = 8 * vp::sc(); t(e) = 9; } rt(h) = r; t(h) = T;
            auto at = [&](int k, double x) { return c[k][0] + c[k][1] * x + c[k][2] * x * x; }; auto da = [&](int k, double x) { return c[k][1] + 2 * c[k][2] * x; };
            vp::calls(); f(h, q, rt, t); vp::eq(q(h), r * at(0, T) * at(1, T), "content"); vp::eq(q(0), 99, "other cell");
            vp::calls(); f(0, q, rt, t); vp::eq(q(0), 8 * vp::sc() * at(0, 9) * at(1, 9), "content of cell 0"); vp::eq(q(h), r * at(0, T) * at(1, T), "cell 1 afterwards");
            if(!non) { q(h) = 99; vp::calls(); f(h, q, rt); vp::eq(q(h), r * c[0][0] * c[1][0], "content without temperature"); }
            Plato::ScalarVectorT<F2> qf("q", nc), rf("r", nc), tf("t", nc); rf(h) = F2(2, 0, r); tf(h) = F2(2, 1, T);
            vp::calls(); f(h, qf, rf, tf); vp::eq(qf(h).val(), r * at(0, T) * at(1, T), "content with derivatives"); vp::degree(0); vp::eq(qf(h).dx(0), at(0, T) * at(1, T), "d content / d rate"); vp::degree(1);
            vp::eq(qf(h).dx(1), r * (da(0, T) * at(1, T) + at(0, T) * da(1, T)), "d content / d temperature");
        });
}
void vp::explore() { vp::sweep({1, 1.0371, 1e-6, 1e6}, [] { flux<1>(); flux<2>(); flux<3>(); content<1>(); content<2>(); content<3>(); }); }
#endif
