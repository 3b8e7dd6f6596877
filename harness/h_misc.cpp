// P23 Newton-Raphson monitoring, P24 input parsing and solver configurations, P25 output data maps, P26 reductions over ranks.
#include "vpk.hpp"
#if VP_PROP == 23
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
#elif VP_PROP == 24
#include "ParseTools.hpp"
#include "PlatoMathExpr.hpp"
#include "alg/AmgXConfigs.hpp"
#elif VP_PROP == 26
#include "alg/ParallelComm.hpp"
#include "alg/CrsLinearProblem.hpp"
#endif
#include <fstream>
#include <limits>

using vp::u64; using vp::Dec; using namespace vp;

static std::string slurp(const std::string& f) { std::ifstream s(f); std::stringstream o; o << s.rdbuf(); return o.str(); }
static std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while(i >> w) r.push_back(w); return r; }
static std::vector<std::string> lines(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while(std::getline(i, w)) if(!w.empty()) r.push_back(w); return r; }

#if VP_PROP == 23
void vp::explore()
{
    typedef Plato::NewtonRaphsonOutputData Data;
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    // every sequence of norms: the error measures of a whole Newton history, and its diagnostics file
    const double norms[] = {1.0, 0.5, 1e-3, 250.0, 3e-12, 1e5, 0.75};
    const int N = sizeof norms / sizeof *norms, L = thorough() ? 6 : 5;
    section("norm histories", ipow(N, L) * 2 * 2, [&](u64 i)
    {
        Dec d(i); bool rel = d.take(2), write = d.take(2); std::vector<double> v; for(int k = 0; k < L; k++) v.push_back(norms[d.take(N)]);
        input(fmt("%s write=%d norms ", rel ? "relative" : "absolute", write) + vec_str(v));
        const bool file = i % 64 < 4; // the file is written for every 16th history of either kind, by number
        Data o; o.mWriteOutput = write;
        std::string f = core().scratch + "/nr.txt"; std::ofstream out; if(file) { out.open(f); Plato::print_newton_raphson_diagnostics_header(o, out); }
        double ref = 0, meas = o.mNormMeasure; std::vector<double> ms;
        for(int k = 0; k < L; k++)
        {
            o.mCurrentIteration = k; o.mCurrentNorm = v[k];
            if(rel) Plato::compute_relative_residual_norm_error(o); else Plato::compute_absolute_residual_norm_error(o);
            calls();
            if(k) meas = rel ? std::fabs(ref - v[k]) / std::fabs(v[k]) : std::fabs(ref - v[k]);
            ref = v[k]; ms.push_back(meas);
            eq(o.mNormMeasure, meas, fmt("measure at iteration %d", k).c_str()); eq(o.mReferenceNorm, ref, "reference norm", 0, 0);
            eq(o.mCurrentNorm, v[k], "current norm", 0, 0); eqi(o.mCurrentIteration, k, "iteration");
            check(o.mStopingCriterion == Plato::NewtonRaphson::DID_NOT_CONVERGE, "stop criterion changed"); check(o.mWriteOutput == write, "write flag changed");
            if(file) Plato::print_newton_raphson_diagnostics(o, out);
        }
        if(!file) return;
        out.close(); auto ls = lines(slurp(f)); unlink(f.c_str());
        eqi(ls.size(), write ? L + 1 : 0, "lines in the diagnostics file");
        if(!write) return;
        for(const char* h : {"Iter", "Norm"}) check(ls[0].find(h) != std::string::npos, "header without column %s", h);
        for(int k = 0; k < L; k++)
        {
            auto w = words(ls[k + 1]); eqi(w.size(), 3, "columns"); eqi(atoi(w[0].c_str()), k, "iteration column");
            eqs(w[1], fmt("%.6e", v[k]), "norm column"); eqs(w[2], fmt("%.6e", ms[k]), "measure column");
        }
    });
    // norms of every decade against each other, at every iteration number, and files of long histories
    section("magnitudes", 61 * 61 * 2 * 3, [&](u64 i)
    {
        Dec d(i); auto dec = [&]() { int k = (int)d.take(61) - 30; return std::pow(10.0, 5 * k) * 1.25; }; double ref = dec(), cur = dec() * 3; bool rel = d.take(2); const int its[] = {1, 9, 1500}; int it = d.pick(its);
        input(fmt("%s current=%g reference=%g iteration=%d", rel ? "relative" : "absolute", cur, ref, it));
        Data o; o.mCurrentNorm = cur; o.mReferenceNorm = ref; o.mCurrentIteration = it; o.mNormMeasure = 7; double want = rel ? std::fabs(ref - cur) / std::fabs(cur) : std::fabs(ref - cur);
        bool t = throws([&]() { if(rel) Plato::compute_relative_residual_norm_error(o); else Plato::compute_absolute_residual_norm_error(o); }); calls(); check(!t, "finite norms are rejected");
        if(std::isfinite(want)) eq(o.mNormMeasure, want, "measure", 1e-12, 0); eq(o.mReferenceNorm, cur, "reference norm", 0, 0);
    });
    section("long histories", 2 * 300, [&](u64 i)
    {
        bool rel = i & 1; const int n = 4 * (i / 2 + 1); input(fmt("%s, %d iterations", rel ? "relative" : "absolute", n));
        Data o; o.mWriteOutput = true; std::string f = core().scratch + "/nr.txt"; std::ofstream out; out.open(f); Plato::print_newton_raphson_diagnostics_header(o, out); std::vector<double> v, ms; double ref = 0, meas = o.mNormMeasure;
        for(int k = 0; k < n; k++)
        {
            double x = 1e4 * std::pow(0.97, k) * (1 + 0.4 * (k % 3)); v.push_back(x); o.mCurrentIteration = k; o.mCurrentNorm = x; if(rel) Plato::compute_relative_residual_norm_error(o); else Plato::compute_absolute_residual_norm_error(o); calls(2);
            if(k) meas = rel ? std::fabs(ref - x) / x : std::fabs(ref - x); ref = x; ms.push_back(meas); eq(o.mNormMeasure, meas, fmt("measure at iteration %d", k).c_str(), 1e-10, 0); Plato::print_newton_raphson_diagnostics(o, out);
        }
        out.close(); auto ls = lines(slurp(f)); unlink(f.c_str()); eqi(ls.size(), n + 1, "lines in the diagnostics file");
        for(int k = 0; k < n; k++) { auto w = words(ls[k + 1]); eqi(w.size(), 3, "columns"); eqi(atoi(w[0].c_str()), k, "iteration column"); eqs(w[1], fmt("%.6e", v[k]), "norm column"); eqs(w[2], fmt("%.6e", ms[k]), "measure column"); }
    });
    // norms that are not finite are rejected before anything is changed
    const double odd[] = {nan, inf, -inf, 1.0, -2.0};
    section("non-finite norms", 5 * 5 * 3 * 2, [&](u64 i)
    {
        Dec d(i); double cur = d.pick(odd), ref = d.pick(odd); int it = d.take(3); bool rel = d.take(2);
        input(fmt("%s current=%g reference=%g iteration=%d", rel ? "relative" : "absolute", cur, ref, it));
        Data o; o.mCurrentNorm = cur; o.mReferenceNorm = ref; o.mCurrentIteration = it; o.mNormMeasure = 7;
        bool t = throws([&]() { if(rel) Plato::compute_relative_residual_norm_error(o); else Plato::compute_absolute_residual_norm_error(o); }); calls();
        bool bad = !std::isfinite(cur) || !std::isfinite(ref);
        check(t == bad, bad ? "a norm that is not finite is accepted" : "finite norms are rejected");
        if(bad) { eq(o.mReferenceNorm, ref, "reference norm after rejection"); eq(o.mNormMeasure, 7, "measure after rejection"); return; }
        eq(o.mReferenceNorm, cur, "reference norm");
        eq(o.mNormMeasure, it == 0 ? 7 : rel ? std::fabs(ref - cur) / std::fabs(cur) : std::fabs(ref - cur), "measure");
    });
    // names of stopping measures: every upper/lower-case pattern of every word, and every single-character damage
    const std::string names[] = {"ABSOLUTE RESIDUAL NORM", "RELATIVE RESIDUAL NORM"};
    section("measure names, letter case", 2 * 4096, [&](u64 i)
    {
        Dec d(i); int w = d.take(2); std::string s = names[w]; u64 m = d.take(4096);
        for(size_t k = 0; k < s.size(); k++) if(s[k] != ' ' && (m >> (k % 12) & 1)) s[k] = tolower(s[k]);
        input(s); auto r = Plato::newton_raphson_stopping_criterion(s); calls();
        check(r == (w ? Plato::NewtonRaphson::RELATIVE_RESIDUAL_NORM : Plato::NewtonRaphson::ABSOLUTE_RESIDUAL_NORM), "wrong measure"); obs(w);
    });
    section("measure names, damaged", 2 * 23 * 5, [&](u64 i)
    {
        Dec d(i); std::string s = names[d.take(2)]; size_t p = d.take(23); int k = d.take(5); const std::string orig = s;
        if(k == 0) { if(p < s.size()) s.erase(p, 1); } else if(k == 1) s.insert(p, " "); else if(k == 2) s.insert(p, "X"); else if(k == 3) { if(p < s.size()) s[p] = '_'; } else s = s.substr(0, p);
        input(s); bool t = throws([&]() { Plato::newton_raphson_stopping_criterion(s); }); calls(); obs(t);
        check(t == (s != orig), s != orig ? "an unknown stopping measure is accepted" : "a known stopping measure is rejected");
    });
    // what is reported when the solver stops
    section("stop messages", 7 * 2 * 2, [&](u64 i)
    {
        Dec d(i); int c = d.take(7); bool write = d.take(2), opened = d.take(2); input(fmt("criterion %d write=%d open=%d", c, write, opened));
        const char* want[] = {"did not converge", "maximum number of iterations", "stopping measure tolerance", "current norm tolerance", "NaN norm", nullptr, nullptr};
        std::string f = core().scratch + "/nr.txt"; std::ofstream out; if(opened) out.open(f);
        Data o; o.mWriteOutput = write; o.mStopingCriterion = static_cast<Plato::NewtonRaphson::stop_t>(c);
        bool t = throws([&]() { Plato::print_newton_raphson_stop_criterion(o, out); }); calls();
        check(t == (write && !opened), "closed diagnostics file: %s", t ? "rejected although nothing is written" : "accepted");
        check(throws([&]() { Plato::print_newton_raphson_diagnostics(o, out); }) == t, "diagnostics on a closed file");
        check(throws([&]() { Plato::print_newton_raphson_diagnostics_header(o, out); }) == t, "header on a closed file"); calls(2);
        if(!opened) return;
        out.close(); std::string s = slurp(f); unlink(f.c_str()); obs(s);
        if(!write) { eqs(s, "", "diagnostics although output is off"); return; }
        auto ls = lines(s); check(ls.size() >= 3, "missing diagnostics");
        for(int k = 0; k < 5; k++) check((ls[0].find(want[k]) != std::string::npos) == (k == c), "stop message '%s' for criterion %d", ls[0].c_str(), c);
        if(c > 4) check(ls[0].find("undefined") != std::string::npos, "criterion %d is not reported as undefined", c);
    });
    section("defaults", 1, [&](u64)
    {
        Data o; const double mx = std::numeric_limits<double>::max();
        check(o.mWriteOutput && o.mCurrentNorm == mx && o.mReferenceNorm == mx && o.mNormMeasure == mx && o.mCurrentIteration == 0 &&
              o.mStopingCriterion == Plato::NewtonRaphson::DID_NOT_CONVERGE && o.mStoppingMeasure == Plato::NewtonRaphson::ABSOLUTE_RESIDUAL_NORM, "default monitor state");
    });
}

#elif VP_PROP == 24
namespace
{
// minimal JSON reader: nested objects and scalars (all the configurations use)
struct Json
{
    std::map<std::string, std::string> val; // path -> text ("" for objects)
    std::string s; size_t p = 0; std::string err;
    explicit Json(const std::string& t) : s(t) { ws(); if(!obj("")) { if(err.empty()) err = fmt("malformed at offset %zu", p); return; } ws(); if(p != s.size()) err = "text after the configuration"; }
    void ws() { while(p < s.size() && isspace((unsigned char)s[p])) p++; }
    bool str(std::string& o) { if(p >= s.size() || s[p] != '"') return false; size_t e = s.find('"', p + 1); if(e == std::string::npos) return false; o = s.substr(p + 1, e - p - 1); p = e + 1; return true; }
    bool obj(const std::string& at)
    {
        if(p >= s.size() || s[p] != '{') return false; p++;
        for(;;)
        {
            ws(); std::string k; if(!str(k)) return false; ws(); if(p >= s.size() || s[p] != ':') return false; p++; ws();
            std::string q = at + "/" + k; if(val.count(q)) { err = "duplicate key " + q; return false; }
            if(p < s.size() && s[p] == '{') { val[q] = ""; if(!obj(q)) return false; }
            else if(p < s.size() && s[p] == '"') { std::string v; if(!str(v)) return false; val[q] = v; }
            else { size_t b = p; while(p < s.size() && (isalnum((unsigned char)s[p]) || strchr("+-.", s[p]))) p++; if(p == b) return false; val[q] = s.substr(b, p - b); char* e; strtod(val[q].c_str(), &e); if(*e) { err = "not a number: " + val[q]; return false; } }
            ws(); if(p < s.size() && s[p] == ',') { p++; continue; }
            if(p < s.size() && s[p] == '}') { p++; return true; }
            return false;
        }
    }
};
// the kinds of entry a parameter may be present as
enum Kind { ABSENT, DBL, INT, STR, BOOL, SUB, NKIND };
const char* kind_name[] = {"absent", "double", "int", "string", "bool", "sublist"};
void put(Teuchos::ParameterList& l, const std::string& n, int k, int v)
{
    if(k == DBL) l.set<double>(n, 1.5 + v); if(k == INT) l.set<int>(n, 40 + v); if(k == STR) l.set<std::string>(n, v ? "text" : "");
    if(k == BOOL) l.set<bool>(n, v); if(k == SUB) l.sublist(n).set<int>("inner", 3);
}
template<typename T> T dflt(int); template<> double dflt(int v) { return -7.25 - v; } template<> int dflt(int v) { return -9 - v; }
template<> std::string dflt(int v) { return v ? "other" : "default"; } template<> bool dflt(int v) { return v; }
template<typename T> T given(int v); template<> double given(int v) { return 1.5 + v; } template<> int given(int v) { return 40 + v; }
template<> std::string given(int v) { return v ? "text" : ""; } template<> bool given(int v) { return v; }
template<typename T> struct kind_of; template<> struct kind_of<double> { enum { k = DBL }; }; template<> struct kind_of<int> { enum { k = INT }; };
template<> struct kind_of<std::string> { enum { k = STR }; }; template<> struct kind_of<bool> { enum { k = BOOL }; };

// every presence pattern of: the parameter at top level, the sublist, the parameter in the sublist, a similarly named neighbour
template<typename T> void presence(const char* what)
{
    section(std::string("presence patterns, ") + what, NKIND * 3 * NKIND * 2 * 2 * 2 * 2, [&](u64 i)
    {
        Dec d(i); int top = d.take(NKIND), sub = d.take(3), in = d.take(NKIND), nb = d.take(2), v = d.take(2), dv = d.take(2); bool again = d.take(2);
        input(fmt("%s at top, sublist %s, %s inside, neighbour=%d value %d default %d repeat=%d", kind_name[top], sub == 0 ? "absent" : sub == 1 ? "present" : "a plain value", kind_name[in], nb, v, dv, again));
        Teuchos::ParameterList l("input"); put(l, "Param", top, v);
        if(sub == 1) { put(l.sublist("List"), "Param", in, v); l.sublist("List").set<int>("Keep", 5); } else if(sub == 2) l.set<int>("List", 8);
        if(nb) { l.set<T>("Param ", given<T>(1 - v)); l.set<T>("param", given<T>(1 - v)); l.sublist("List2").set<T>("Param", given<T>(1 - v)); }
        const int K = kind_of<T>::k; const T def = dflt<T>(dv);
        for(int r = 0; r <= (int)again; r++)
        {
            // top level, with default
            check(Plato::ParseTools::getParam<T>(l, "Param", def) == (top == K ? given<T>(v) : def), "getParam with a default"); calls();
            // top level, required
            T got = def; bool t = throws([&]() { got = Plato::ParseTools::getParam<T>(l, "Param"); }); calls();
            check(t == (top != K), t ? "a given required parameter is rejected" : "a missing required parameter is accepted");
            if(!t) check(got == given<T>(v), "getParam returns another value");
            // inside the sublist
            got = def; t = throws([&]() { got = Plato::ParseTools::getSubParam<T>(l, "List", "Param", def); }); calls();
            if(sub == 1 && in != ABSENT && in != K) { check(t, "a sublist entry of another type is accepted"); continue; } // an entry of another type is an error, never a silent default
            check(!t, "reading a sublist entry fails"); check(got == (sub == 1 && in == K ? given<T>(v) : def), "getSubParam returns another value");
        }
        // reading leaves the input alone
        if(sub == 1) { eqi(l.sublist("List").get<int>("Keep"), 5, "neighbour in the sublist"); } else check(l.isSublist("List") == false, "reading created a sublist");
        check(l.isParameter("Param") == (top != ABSENT), "reading created a parameter"); obs(top == K); obs(sub); obs(in == K);
    });
}
struct Ref { const char* text; double (*f)(double); };
const Ref exprs[] = {
    {"t", [](double t) { return t; }}, {"t+1", [](double t) { return t + 1; }}, {"2*t", [](double t) { return 2 * t; }}, {"t*t-3*t+2", [](double t) { return t * t - 3 * t + 2; }},
    {"(t+1)*(t-1)", [](double t) { return (t + 1) * (t - 1); }}, {"1.0e-3*t", [](double t) { return 1e-3 * t; }}, {"t/4", [](double t) { return t / 4; }}, {"t^2", [](double t) { return t * t; }},
    {"sin(t)", [](double t) { return std::sin(t); }}, {"cos(2*t)", [](double t) { return std::cos(2 * t); }}, {"exp(t)", [](double t) { return std::exp(t); }}, {"5.5", [](double) { return 5.5; }},
    {"2.0*3.0+t", [](double t) { return 6 + t; }}, {"-t", [](double t) { return -t; }}, {"1-2-t", [](double t) { return -1 - t; }}, {"8/2/2*t", [](double t) { return 2 * t; }}};
}
void vp::explore()
{
    presence<double>("double"); presence<int>("int"); presence<std::string>("string"); presence<bool>("bool");

    const std::vector<std::string> names = {"eaf", "default", "pcg_noprec", "pcg_v", "pcg_w", "pcg_f", "agg_cheb4"};
    const double tols[] = {1e-10, 1e-3, 0.5, 5.0e-12, 1, 1.25e-7}; const int iters[] = {1, 2, 10, 1000, 123456, 10000};
    section("solver configurations", 7 * 6 * 6 * 2, [&](u64 i)
    {
        Dec d(i); std::string n = d.pick(names); double tol = d.pick(tols); int it = d.pick(iters); bool abs = d.take(2);
        input(fmt("%s tolerance=%g iterations=%d %s", n.c_str(), tol, it, abs ? "absolute" : "relative"));
        std::string s = Plato::configurationString(n, tol, it, abs); calls();
        Json j(s); check(j.err.empty(), "configuration is not well formed: %s", j.err.c_str());
        auto at = [&](const std::string& k) { check(j.val.count(k), "configuration has no %s", k.c_str()); return j.val[k]; };
        eqs(at("/config_version"), "2", "version"); at("/solver"); check(!at("/solver/solver").empty(), "no solver named");
        eqs(at("/solver/convergence"), abs ? "ABSOLUTE" : "RELATIVE_INI_CORE", "convergence measure");
        eqs(at("/solver/scope"), "main", "scope"); eqs(at("/solver/norm"), "L2", "norm");
        const bool fixed = n == "default"; // documented as a fixed configuration
        eq(atof(at("/solver/tolerance").c_str()), fixed ? 5e-8 : tol, "tolerance", 1e-5, 0);
        eqi(atol(at("/solver/max_iters").c_str()), fixed ? 1000 : it, "iteration limit");
        std::string pre = j.val.count("/solver/preconditioner/solver") ? j.val["/solver/preconditioner/solver"] : j.val.count("/solver/preconditioner") ? j.val["/solver/preconditioner"] : "none";
        std::string cyc = j.val.count("/solver/preconditioner/cycle") ? j.val["/solver/preconditioner/cycle"] : j.val.count("/solver/cycle") ? j.val["/solver/cycle"] : "none";
        const std::map<std::string, std::vector<std::string>> kind = {{"eaf", {"PCG", "AMG", "CGF"}}, {"default", {"PBICGSTAB", "AMG", "W"}}, {"pcg_noprec", {"PCG", "NOSOLVER", "none"}}, {"pcg_v", {"PCG", "AMG", "V"}}, {"pcg_w", {"PCG", "AMG", "W"}}, {"pcg_f", {"PCG", "AMG", "F"}}, {"agg_cheb4", {"AMG", "none", "V"}}};
        auto& w = kind.at(n); eqs(at("/solver/solver"), w[0], "solver"); eqs(pre, w[1], "preconditioner"); eqs(cyc, w[2], "cycle");
        // nothing but tolerance, iteration limit and measure depends on the request
        Json k(Plato::configurationString(n, 3e-4, 77, !abs)); calls(); eqi(k.val.size(), j.val.size(), "entries");
        for(auto& e : j.val) if(e.first != "/solver/convergence" && e.first != "/solver/tolerance" && e.first != "/solver/max_iters") eqs(k.val.count(e.first) ? k.val[e.first] : "(missing)", e.second, e.first.c_str());
        // the same request again
        eqs(Plato::configurationString(n, tol, it, abs), s, "repeated request");
    });
    section("solver configuration defaults", 7, [&](u64 i)
    {
        input(names[i]); eqs(Plato::configurationString(names[i]), Plato::configurationString(names[i], 1e-10, 10000, true), "defaults");
    });
    section("unknown solver names", 7 * 12 * 4 + 3, [&](u64 i)
    {
        std::string s; const char* extra[] = {"", " ", "PCG"};
        if(i < 3) s = extra[i];
        else
        {
            Dec d(i - 3); s = names[d.take(7)]; const std::string o = s; size_t p = d.take(12); int k = d.take(4);
            if(k == 0 && p < s.size()) s.erase(p, 1); else if(k == 1 && p <= s.size()) s.insert(p, "_"); else if(k == 2 && p < s.size()) s[p] = toupper(s[p]); else if(k == 3 && p < s.size()) s = s.substr(0, p);
            if(s == o) { skip(); return; }
        }
        input("'" + s + "'"); check(throws([&]() { Plato::configurationString(s, 1e-8, 10, true); }), "an unknown configuration is accepted"); calls();
    });
    section("time expressions", 16 * 9 * 2, [&](u64 i)
    {
        Dec d(i); const Ref& r = exprs[d.take(16)]; const double ts[] = {0, 1, 0.5, 2.25, -1, 3, 1e-3, 10, 0.1}; double t = d.pick(ts); bool twice = d.take(2);
        input(fmt("%s at t=%g", r.text, t)); Plato::MathExpr e(r.text);
        if(twice) { eq(e.value(t + 1), r.f(t + 1), "value at another time", 1e-12, 1e-13); calls(); }
        eq(e.value(t), r.f(t), "value", 1e-12, 1e-13); calls();
    });
}

#elif VP_PROP == 25
namespace
{
// reference: plain values, copied on every save
struct Ref { std::map<std::string, double> s; std::map<std::string, std::vector<double>> v, m, a; };
struct Model { Ref cur; std::vector<Ref> saved; };

template<typename V> std::vector<double> flat(const V&);
template<> std::vector<double> flat(const Plato::ScalarVector& v) { std::vector<double> r; for(size_t i = 0; i < v.extent(0); i++) r.push_back(v(i)); return r; }
template<> std::vector<double> flat(const Plato::ScalarMultiVector& v) { std::vector<double> r; for(size_t i = 0; i < v.extent(0); i++) for(size_t j = 0; j < v.extent(1); j++) r.push_back(v(i, j)); return r; }
template<> std::vector<double> flat(const Plato::ScalarArray3D& v) { std::vector<double> r; for(size_t i = 0; i < v.extent(0); i++) for(size_t j = 0; j < v.extent(1); j++) for(size_t k = 0; k < v.extent(2); k++) r.push_back(v(i, j, k)); return r; }

template<typename M> void cmp_map(const M& g, const std::map<std::string, std::vector<double>>& w, const char* what)
{
    eqi(g.size(), w.size(), what);
    for(auto& e : w) { auto it = g.find(e.first); check(it != g.end(), "%s: %s is missing", what, e.first.c_str()); auto f = flat(it->second); check(f == e.second, "%s: %s is %s, stored %s", what, e.first.c_str(), vec_str(f).c_str(), vec_str(e.second).c_str()); for(double x : f) obs(x); }
}
void cmp(const Plato::DataMap& g, const Ref& w, const char* what)
{
    eqi(g.mScalarValues.size(), w.s.size(), what);
    for(auto& e : w.s) { auto it = g.mScalarValues.find(e.first); check(it != g.mScalarValues.end() && it->second == e.second, "%s: scalar %s", what, e.first.c_str()); }
    cmp_map(g.scalarVectors, w.v, what); cmp_map(g.scalarMultiVectors, w.m, what); cmp_map(g.scalarArray3Ds, w.a, what);
}
void full(const Plato::DataMap& g, const Model& m)
{
    cmp(g, m.cur, "current fields"); eqi(g.stateDataMaps.size(), m.saved.size(), "number of saved states");
    auto c = g.getState(); cmp(c, m.cur, "current state"); eqi(c.stateDataMaps.size(), 0, "states inside a state");
    const int n = m.saved.size();
    for(int k = -1; k <= n + 1; k++)
    {
        if(n == 0) { auto s = g.getState(k); cmp(s, m.cur, "state without a history"); continue; }
        bool t = false; Plato::DataMap s; t = throws([&]() { s = g.getState(k); }); calls();
        check(t == (k < 0 || k >= n), t ? "saved state %d of %d is rejected" : "state %d of %d is accepted", k, n);
        if(!t) { cmp(s, m.saved[k], fmt("saved state %d of %d", k, n).c_str()); eqi(s.stateDataMaps.size(), 0, "states inside a saved state"); }
    }
}
const char* nm[] = {"a", "b"};
enum { NOP = 14 };
std::string op(int o, int step, Plato::DataMap& g, Model& m)
{
    const double x = 10 * (step + 1); calls();
    switch(o)
    {
        case 0: case 1: { auto v = sv({x, x + 1}); g.scalarVectors[nm[o]] = v; m.cur.v[nm[o]] = {x, x + 1}; return fmt("store vector %s", nm[o]); }
        case 2: { if(m.cur.v.count("a")) { auto v = g.scalarVectors.at("a"); v(0) = -x; m.cur.v["a"][0] = -x; } return "overwrite vector a in place"; }
        case 3: { g.scalarMultiVectors["a"] = smv(2, 2, {x, 1, 2, x}); m.cur.m["a"] = {x, 1, 2, x}; return "store multivector"; }
        case 4: { if(m.cur.m.count("a")) { auto v = g.scalarMultiVectors.at("a"); v(1, 0) = -x; m.cur.m["a"][2] = -x; } return "overwrite multivector in place"; }
        case 5: { Plato::ScalarArray3D a("a", 1, 2, 1); a(0, 0, 0) = x; a(0, 1, 0) = 3; g.scalarArray3Ds["a"] = a; m.cur.a["a"] = {x, 3}; return "store array"; }
        case 6: { if(m.cur.a.count("a")) { auto v = g.scalarArray3Ds.at("a"); v(0, 1, 0) = -x; m.cur.a["a"][1] = -x; } return "overwrite array in place"; }
        case 7: { g.mScalarValues["a"] = x; m.cur.s["a"] = x; return "store scalar"; }
        case 8: { g.saveState(); m.saved.push_back(m.cur); return "save"; }
        case 9: { g.clearStates(); m.saved.clear(); return "clear states"; }
        case 10: { if(m.cur.v.count("a")) { g.scalarVectors["b"] = g.scalarVectors.at("a"); m.cur.v["b"] = m.cur.v["a"]; auto w = sv(m.cur.v["a"]); g.scalarVectors["b"] = w; } return "copy vector a to b"; }
        case 11: { g.scalarVectors.erase("a"); m.cur.v.erase("a"); return "remove vector a"; }
        case 12: { if(!m.saved.empty()) { auto s = g.getState((int)m.saved.size() - 1); s.mScalarValues["a"] = 99; s.scalarVectors["b"] = sv({9}); s.saveState(); } return "change a returned state"; }
        case 13: { Plato::DataMap c(g); Model cm(m); c.mScalarValues["z"] = 1; cm.cur.s["z"] = 1; c.saveState(); cm.saved.push_back(cm.cur); full(c, cm); return "save a copy of the map"; }
    }
    return "";
}
}
void vp::explore()
{
    const int L = thorough() ? 6 : 5;
    section("operation sequences", ipow(NOP, L), [&](u64 i)
    {
        Dec d(i); Plato::DataMap g; Model m; std::string s; full(g, m);
        for(int k = 0; k < L; k++) { std::string n = op(d.take(NOP), k, g, m); if(k) s += "; "; s += n; input(s); if(k >= 1) full(g, m); }
    });
    // longer histories of one kind of field: store / overwrite / save / clear only
    const int M = thorough() ? 9 : 7;
    for(int kind = 0; kind < 3; kind++) section(fmt("long histories, field kind %d", kind), ipow(4, M), [&, kind](u64 i)
    {
        const int ops[3][4] = {{0, 2, 8, 9}, {3, 4, 8, 9}, {5, 6, 8, 9}};
        Dec d(i); Plato::DataMap g; Model m; std::string s;
        for(int k = 0; k < M; k++) { std::string n = op(ops[kind][d.take(4)], k, g, m); if(k) s += "; "; s += n; } input(s); full(g, m);
    });
    // every number of saved states up to a bound, fields of many entries, values of every magnitude
    section("many states", thorough() ? 120 : 60, [&](u64 i)
    {
        const int n = i + 1, E = 1 + (int)(i * 7 % 90); input(fmt("%d states of %d entries", n, E)); Plato::DataMap g; Model m; Plato::ScalarVector v("v", E); Plato::ScalarMultiVector w("w", E, 3); Plato::ScalarArray3D a("a", E, 2, 3);
        for(int k = 0; k < n; k++)
        {
            double sc = std::pow(10.0, (k * 3) % 25 - 12); std::vector<double> fv, fw, fa; for(int e = 0; e < E; e++) { fv.push_back(v(e) = sc * (e + 1 + k)); for(int j = 0; j < 3; j++) fw.push_back(w(e, j) = -sc * (e + 2 * j + k)); for(int j = 0; j < 2; j++) for(int l = 0; l < 3; l++) fa.push_back(a(e, j, l) = sc * (e * j + l - k)); }
            g.scalarVectors["v"] = v; g.scalarMultiVectors["w"] = w; g.scalarArray3Ds["a"] = a; g.mScalarValues[fmt("s%d", k)] = sc; m.cur.v["v"] = fv; m.cur.m["w"] = fw; m.cur.a["a"] = fa; m.cur.s[fmt("s%d", k)] = sc; g.saveState(); calls(); m.saved.push_back(m.cur);
        }
        full(g, m); for(int e = 0; e < E; e++) v(e) = -1; for(auto& x : m.cur.v["v"]) x = -1; full(g, m); g.clearStates(); m.saved.clear(); full(g, m);
    });
    // solutions keep the vectors they were given, in their places
    section("solutions", 8, [&](u64 i)
    {
        int n = i % 4; input(fmt("%d vectors", n)); auto a = smv(1, 2, {1, 2}), b = smv(2, 1, {3, 4}), c = smv(1, 1, {5});
        Plato::Solution s = n == 0 ? Plato::Solution() : n == 1 ? Plato::Solution(a) : n == 2 ? Plato::Solution(a, b) : Plato::Solution(a, b, c); calls();
        check(flat(s.State) == (n > 0 ? flat(a) : std::vector<double>()) && flat(s.StateDot) == (n > 1 ? flat(b) : std::vector<double>()) && flat(s.StateDotDot) == (n > 2 ? flat(c) : std::vector<double>()), "solution vectors");
    });
}

#elif VP_PROP == 26
namespace
{
// a communicator of N ranks whose other ranks' contributions are given: reductions are carried out with the operation the caller asked for
struct Ranks : Teuchos::Comm<int>
{
    int me, n; std::vector<std::vector<double>> peers; mutable int reductions = 0;
    Ranks(int r, const std::vector<std::vector<double>>& p) : me(r), n(p.size()), peers(p) {}
    int getRank() const override { return me; } int getSize() const override { return n; }
    void reduceAll(const Teuchos::ValueTypeReductionOp<int, char>& op, const int bytes, const char s[], char g[]) const override
    {
        reductions++; const int c = bytes / sizeof(double); check(bytes % sizeof(double) == 0 && c <= (int)peers[0].size(), "%d bytes reduced", bytes);
        std::vector<double> acc; // rank order, this rank's contribution as passed by the caller
        for(int r = 0; r < n; r++)
        {
            std::vector<double> v(peers[r].begin(), peers[r].begin() + c); if(r == me) memcpy(v.data(), s, bytes);
            if(r == 0) acc = v; else { std::vector<double> t = acc; op.reduce(bytes, (const char*)v.data(), (char*)t.data()); acc = t; }
        }
        memcpy(g, acc.data(), bytes);
    }
    [[noreturn]] void no() const { fail("unexpected communication"); }
    int getTag() const override { return 0; } void barrier() const override {}
    void broadcast(const int, const int, char[]) const override { no(); } void gather(const int, const char[], const int, char[], const int) const override { no(); }
    void gatherAll(const int, const char[], const int, char[]) const override { no(); }
    void scan(const Teuchos::ValueTypeReductionOp<int, char>&, const int, const char[], char[]) const override { no(); }
    void send(const int, const char[], const int) const override { no(); } void send(const int, const char[], const int, const int) const override { no(); }
    void ssend(const int, const char[], const int) const override { no(); } void ssend(const int, const char[], const int, const int) const override { no(); }
    int receive(const int, const int, char[]) const override { no(); } void readySend(const Teuchos::ArrayView<const char>&, const int) const override { no(); }
    void readySend(const int, const char[], const int, const int) const override { no(); }
    Teuchos::RCP<Teuchos::CommRequest<int>> isend(const Teuchos::ArrayView<const char>&, const int) const override { no(); }
    Teuchos::RCP<Teuchos::CommRequest<int>> isend(const Teuchos::ArrayView<const char>&, const int, const int) const override { no(); }
    Teuchos::RCP<Teuchos::CommRequest<int>> ireceive(const Teuchos::ArrayView<char>&, const int) const override { no(); }
    Teuchos::RCP<Teuchos::CommRequest<int>> ireceive(const Teuchos::ArrayView<char>&, const int, const int) const override { no(); }
    void waitAll(const Teuchos::ArrayView<Teuchos::RCP<Teuchos::CommRequest<int>>>&) const override { no(); }
    void waitAll(const Teuchos::ArrayView<Teuchos::RCP<Teuchos::CommRequest<int>>>&, const Teuchos::ArrayView<Teuchos::RCP<Teuchos::CommStatus<int>>>&) const override { no(); }
    Teuchos::RCP<Teuchos::CommStatus<int>> wait(const Teuchos::Ptr<Teuchos::RCP<Teuchos::CommRequest<int>>>&) const override { no(); }
    Teuchos::RCP<Teuchos::Comm<int>> duplicate() const override { no(); } Teuchos::RCP<Teuchos::Comm<int>> split(const int, const int) const override { no(); }
    Teuchos::RCP<Teuchos::Comm<int>> createSubcommunicator(const Teuchos::ArrayView<const int>&) const override { no(); }
    std::string description() const override { return "ranks"; }
};
Plato::Comm::Machine machine(const Teuchos::RCP<Ranks>& r)
{
    MPI_Comm self = MPI_COMM_SELF; Plato::Comm::Machine m(self); m.teuchosComm = r; return m;
}
}
void vp::explore()
{
    if(!core().scratch.empty()) setenv("TMPDIR", core().scratch.c_str(), 1); // session files go where the check removes them
    int init = 0; MPI_Initialized(&init); if(!init) MPI_Init(nullptr, nullptr);
    const double alpha[] = {0, 1, -2, 5.5, -0.25};
    const int maxr = thorough() ? 5 : 4;
    for(int n = 1; n <= maxr; n++) section(fmt("one value on each of %d ranks", n), ipow(5, n) * n, [&, n](u64 i)
    {
        Dec d(i); int me = d.take(n); std::vector<std::vector<double>> p; std::vector<double> v; for(int k = 0; k < n; k++) { v.push_back(alpha[d.take(5)]); p.push_back({v.back()}); }
        input(fmt("rank %d of values ", me) + vec_str(v));
        double own = p[me][0]; p[me][0] = 1e30; // this rank's contribution is only what the code passes on
        auto m = machine(Teuchos::rcp(new Ranks(me, p)));
        eqi(Plato::Comm::size(m), n, "number of ranks"); eqi(Plato::Comm::rank(m), me, "rank");
        double s = 0, mx = v[0], mn = v[0]; for(double x : v) { s += x; mx = std::max(mx, x); mn = std::min(mn, x); }
        eq(Plato::Comm::max(m, own), mx, "max", 0, 0); eq(Plato::Comm::min(m, own), mn, "min", 0, 0); eq(Plato::Comm::sum(m, own), s, "sum", 1e-15, 0);
        double g = -7; Plato::Comm::allReduce(m, 1, &own, &g); eq(g, s, "allReduce", 1e-15, 0); eq(own, v[me], "contribution after the reductions", 0, 0); calls(6);
    });
    section("vectors on every rank", 3 * 3 * ipow(3, 6), [&](u64 i)
    {
        Dec d(i); const int n = 1 + d.take(3), len = 1 + d.take(3); const double a[] = {1, -2, 0.5};
        std::vector<std::vector<double>> p(n, std::vector<double>(len)); std::vector<double> f; for(int k = 0; k < 6; k++) f.push_back(a[d.take(3)]);
        for(int r = 0; r < n; r++) for(int k = 0; k < len; k++) p[r][k] = f[(r * len + k) % 6] * (1 + r);
        const int me = i % n; std::vector<double> own = p[me], want(len), got(len + 1, 77.0); for(auto& r : p) for(int k = 0; k < len; k++) want[k] += r[k];
        for(double& x : p[me]) x = 1e30;
        input(fmt("%d ranks, %d entries, own ", n, len) + vec_str(own)); auto m = machine(Teuchos::rcp(new Ranks(me, p)));
        auto keep = own; Plato::Comm::allReduce(m, len, own.data(), got.data()); calls();
        for(int k = 0; k < len; k++) eq(got[k], want[k], "allReduce entry", 1e-14, 1e-14); eq(got[len], 77, "entry behind the result", 0, 0); check(own == keep, "allReduce changes its input");
    });
    section("lengths and numbers of ranks", 60 * 12, [&](u64 i)
    {
        Dec d(i); const int len = 1 + d.take(60), n = 1 + d.take(12), me = (len * 5) % n; std::vector<std::vector<double>> p(n, std::vector<double>(len)); for(int r = 0; r < n; r++) for(int k = 0; k < len; k++) p[r][k] = (k % 3 ? 1e-7 : 1e6) * (((r * 7 + k * 3) % 11) - 4.5);
        std::vector<double> own = p[me], want(len), got(len + 1, 77.0), first; for(auto& r : p) { first.push_back(r[0]); for(int k = 0; k < len; k++) want[k] += r[k]; } for(double& x : p[me]) x = 1e30;
        input(fmt("rank %d of %d, %d entries", me, n, len)); auto m = machine(Teuchos::rcp(new Ranks(me, p))); Plato::Comm::allReduce(m, len, own.data(), got.data()); calls(4);
        for(int k = 0; k < len; k++) eq(got[k], want[k], "allReduce entry", 1e-13, k % 3 ? 1e-20 : 1e-7); eq(got[len], 77, "entry behind the result", 0, 0);
        eq(Plato::Comm::max(m, own[0]), *std::max_element(first.begin(), first.end()), "max", 0, 0); eq(Plato::Comm::min(m, own[0]), *std::min_element(first.begin(), first.end()), "min", 0, 0); eq(Plato::Comm::sum(m, own[0]), want[0], "sum", 1e-13, 1e-7);
    });
    section("machine of one process", 3, [&](u64 i)
    {
        MPI_Comm c = i == 1 ? MPI_COMM_WORLD : MPI_COMM_SELF; Plato::Comm::Machine m(c); input(i == 1 ? "world" : "self"); calls(3);
        eqi(Plato::Comm::size(m), 1, "size"); eqi(Plato::Comm::rank(m), 0, "rank"); eqi(m.teuchosComm->getSize(), 1, "teuchos size"); eqi(m.epetraComm->NumProc(), 1, "epetra size");
        eq(Plato::Comm::sum(m, 3.5), 3.5, "sum"); eq(Plato::Comm::max(m, -3.5), -3.5, "max"); eq(Plato::Comm::min(m, 3.5), 3.5, "min");
    });
    if(!init) MPI_Finalize();
}
#endif
