// Prescribed values of whole problems, and MPI for their linear solver.
#pragma once
#include "phys.hpp"
#include <mpi.h>
namespace vpm
{
inline void mpi() { static bool done = false; if(done) return; done = true; if(!vp::core().scratch.empty()) setenv("TMPDIR", vp::core().scratch.c_str(), 1); int init = 0; MPI_Initialized(&init); if(!init) { MPI_Init(nullptr, nullptr); atexit([] { MPI_Finalize(); }); } }
// prescribed degrees of freedom: 0 none moves at the base nodes, 1 given values there, 2 given values there and one more component elsewhere, 3 as 2, set by number
inline std::map<int, double> fixed(Kind K, const M& m, int bc)
{
    std::map<int, double> r; const int nd = dofs(K, m.d); for(int v = 0; v < m.d; v++) for(int i = 0; i < nd; i++) r[v * nd + i] = bc ? 0.3 * mix(v * nd + i, 40) - 0.1 : 0.0; if(bc >= 2) r[(m.nv() - 1) * nd + nd - 1] = 0.23; return r;
}
inline void bc_list(Kind K, World& w, PL& p, int bc)
{
    const int nd = dofs(K, w.m.d); if(bc == 0) { std::vector<int> n; for(int v = 0; v < w.m.d; v++) n.push_back(v); w.nodes("base", n); for(int i = 0; i < nd; i++) { std::string b = vp::fmt("Essential Boundary Conditions/b%d/", i); put(p, b + "Type", "Zero Value"); put(p, b + "Sides", "base"); if(i) put(p, b + "Index", i); } }
    else for(auto& f : fixed(K, w.m, bc)) { std::string s = vp::fmt("n%d", f.first / nd), b = vp::fmt("Essential Boundary Conditions/b%d/", f.first); w.nodes(s, {f.first / nd}); put(p, b + "Type", "Fixed Value"); put(p, b + "Sides", s); put(p, b + "Index", f.first % nd); put(p, b + "Value", f.second); }
}
} // namespace vpm
