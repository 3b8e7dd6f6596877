// main() and view helpers for harnesses that use Kokkos views.
#pragma once
#include "vp.hpp"
#include <Kokkos_Core.hpp>
#include "PlatoStaticsTypes.hpp"

namespace vp
{
template<typename V> V mk1(const std::vector<double>& a) { V v("v", a.size()); for(size_t i = 0; i < a.size(); i++) v(i) = a[i]; return v; }
inline Plato::ScalarVector sv(const std::vector<double>& a) { return mk1<Plato::ScalarVector>(a); }
inline Plato::ScalarMultiVector smv(size_t n, size_t m, const std::vector<double>& a)
{
    Plato::ScalarMultiVector v("v", n, m);
    for(size_t i = 0; i < n; i++) for(size_t j = 0; j < m; j++) v(i, j) = a[i * m + j];
    return v;
}
template<typename T> double val(const T& x) { return x.val(); }
inline double val(double x) { return x; }
// ---- a few cells, of which one is worked on: the others hold values that must survive. Most cases have three cells; one in
// seven works on a cell far down a longer batch.
static int NC = 3;
inline int cell(uint64_t i, int c, int every = 7)
{
    static const int FAR[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000}; const int nf = sizeof(FAR) / sizeof(FAR[0]);
    if(i % every == 5) c = FAR[(i / every) % nf]; NC = c + 2 > 3 ? c + 2 : 3; return c;
}
inline int cell(uint64_t i) { return cell(i, (int)(i % 3)); }
} // namespace vp

#ifndef VP_NO_MAIN
int main(int argc, char** argv)
{
    vp::parse_args(argc, argv);
    setenv("OMP_NUM_THREADS", "1", 1);
    int k = 1; char n[] = "harness"; char* kv[] = {n, nullptr}; char** kvp = kv;
    Kokkos::initialize(k, kvp);
    int rc;
    { vp::explore(); rc = vp::finish(); }
    fflush(nullptr);
    _exit(rc); // neither Kokkos nor the sanitizer has anything to say after the verdict
}
#endif
