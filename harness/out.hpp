// Output fields: what the data map holds for every cell of the mesh after an evaluation, against the cell's own strain and stress.
#pragma once
#include "crit.hpp"
namespace vpm
{
inline std::vector<std::string> field_names(Kind k, bool hyper = false, bool para = false)
{
    if(hyper) return {"strain", "stress", "velgrad"}; if(para) return k == TM ? std::vector<std::string>{"strain", "stress"} : std::vector<std::string>{};
    if(k == THERMAL) return {"tgrad", "flux"}; if(k == MECH) return {"strain", "stress", "Vonmises"}; if(k == EM) return {"strain", "efield", "stress", "edisp"}; return {"strain", "tgrad", "stress", "flux"};
}
typedef std::map<std::string, D> Fields; // name -> one row per cell, in the order of the mesh
inline std::vector<std::string> subset(const std::vector<std::string>& n, int code) { std::vector<std::string> r; for(size_t i = 0; i < n.size(); i++) if(code >> i & 1) r.push_back(n[i]); return r; }
inline Fields fields_of(const Case& c, const V& u, const V& z, const std::vector<std::string>& names)
{
    Fields f; const int d = c.d();
    for(auto& n : names) for(int e = 0; e < c.m.ne(); e++)
    {
        Cell q = cell(c.m, e, z); Gen g = kinetics(c.k, c.mat_of(e), q, d, u); const double w = c.pen(q.rho); V s = g.s, t = g.q; for(auto& x : s) x *= w; for(auto& x : t) x *= c.k == THERMAL ? -w : w; // heat flows down the gradient; the other fluxes are those conjugate to it
        V r = n == "strain" ? g.e : n == "stress" ? s : n == "tgrad" || n == "efield" ? g.g : n == "flux" || n == "edisp" ? t : n == "Vonmises" ? V(1, mises(d, s)) : V(); f[n].push_back(r);
    }
    return f;
}
inline void check_fields(Plato::DataMap g, const Fields& w, int ne, const char* when, double tol = 1e-9)
{
    for(auto* n : {"crit", "v"}) if(!w.count(n)) g.scalarVectors.erase(n); // contributions to a criterion, stored by every evaluation of it
    vp::eqi(g.scalarVectors.size() + g.scalarMultiVectors.size() + g.scalarArray3Ds.size(), w.size(), (std::string("number of output fields ") + when).c_str());
    for(auto& f : w)
    {
        const char* n = f.first.c_str(); const bool one = f.second[0].size() == 1; D got; vp::check(one ? g.scalarVectors.count(f.first) : g.scalarMultiVectors.count(f.first), "%s: no field %s", when, n);
        if(one) { auto v = g.scalarVectors.at(f.first); for(size_t i = 0; i < v.extent(0); i++) got.push_back({v(i)}); } else { auto v = g.scalarMultiVectors.at(f.first); for(size_t i = 0; i < v.extent(0); i++) { V r; for(size_t j = 0; j < v.extent(1); j++) r.push_back(v(i, j)); got.push_back(r); } }
        vp::check((int)got.size() == ne, "%s: field %s has %d entries for %d cells", when, n, (int)got.size(), ne);
        double sc = 1e-12; for(auto& r : f.second) sc = std::fmax(sc, big(r));
        for(int e = 0; e < ne; e++) { vp::eqi(got[e].size(), f.second[e].size(), (f.first + " components").c_str()); for(size_t j = 0; j < got[e].size(); j++) { vp::obs(got[e][j]); if(!(std::fabs(got[e][j] - f.second[e][j]) <= tol * sc)) vp::fail("%s: field %s of cell %d, component %d is %.12g, the cell has %.12g", when, n, e, (int)j, got[e][j], f.second[e][j]); } }
        vp::core().cur_checks += ne;
    }
}
} // namespace vpm
