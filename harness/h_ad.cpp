// P21, first part: scalar maps, constitutive kernels, norms, invariants, plasticity, and the evaluation types of every physics.
#include "ad.hpp"
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyWeighting.hpp"
#include "ApplyProjection.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeElasticWork.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "Eigenvalues.hpp"
#include "VonMisesYieldFunction.hpp"
#include "TensileEnergyDensity.hpp"
#include "VectorPNorm.hpp"
#include "TensorPNorm.hpp"
using namespace ad;
void explore_elem(); void explore_plastic(); void explore_types();

template<typename PF> static void penalty(const char* name, const PF& f)
{
    kernel<1, 0, 0>(vp::fmt("%s", name), [=](auto& a, auto&, auto&, auto& o) { o.push_back(f(a[0])); }, positive(0.5));
    typedef Plato::ApplyPenalty<PF> AP; AP p(f);
    kernel<3, 1, 0>(vp::fmt("%s on a vector", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = omv<R>(3); for(int j = 0; j < 3; j++) v(0, j) = a[j]; p(0, b[0], v); put(o, v); }, positive(0.5));
    kernel<4, 1, 0>(vp::fmt("%s on an array", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = oa3<R>(2, 2); for(int j = 0; j < 4; j++) v(0, j / 2, j % 2) = a[j]; p(0, b[0], v); put(o, v); }, positive(0.5));
    Plato::ApplyWeighting<2, 3, PF> w(f);
    kernel<3, 3, 0>(vp::fmt("%s weighting in place", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = omv<R>(3); for(int j = 0; j < 3; j++) v(0, j) = a[j]; auto z = mv(b, 0, 3); w(0, v, z); put(o, v); }, positive(0.5));
    kernel<3, 3, 0>(vp::fmt("%s weighting", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = omv<R>(3); auto in = mv(a, 0, 3); auto z = mv(b, 0, 3); w(0, in, v, z); put(o, v); }, positive(0.5));
    kernel<1, 3, 0>(vp::fmt("%s weighting of a scalar in place", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = ocv<R>(); v(0) = a[0]; auto z = mv(b, 0, 3); w(0, v, z); put(o, v); }, positive(0.5));
    kernel<1, 3, 0>(vp::fmt("%s weighting of a scalar", name), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto v = ocv<R>(); auto in = cv(a[0]); auto z = mv(b, 0, 3); w(0, in, v, z); put(o, v); }, positive(0.5));
}
template<typename PR> static void projection(const char* name, const PR& f)
{
    kernel<1, 0, 0>(vp::fmt("%s", name), [=](auto& a, auto&, auto&, auto& o) { o.push_back(f.apply(a[0])); }, positive(0.5));
    Plato::ApplyProjection<PR> p(f);
    kernel<4, 0, 0>(vp::fmt("%s of a cell", name), [=](auto& a, auto&, auto&, auto& o) { auto z = mv(a, 0, 4); o.push_back(p(0, z)); }, positive(0.5));
}
// strain-like vectors: 2-D stress kernels carry the out-of-plane component (4 terms)
template<int D> struct NS { enum { full = D == 3 ? 6 : D == 2 ? 4 : 1, v = D == 3 ? 6 : D == 2 ? 3 : 1 }; };
template<int D> static void constitutive()
{
    const int n = NS<D>::full, nv = NS<D>::v; auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); };
    kernel<NS<D>::full, 2, 0>(nm("Cauchy stress"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = omv<R>(n); auto e = mv(a, 0, n); Plato::ComputeCauchyStress<D>()(0, b[0], b[1], e, s); put(o, s); });
    kernel<NS<D>::full, 1, 0>(nm("deviatoric stress"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = omv<R>(n); auto e = mv(a, 0, n); Plato::ComputeDeviatoricStress<D>()(0, b[0], e, s); put(o, s); });
    kernel<NS<D>::full, 0, 0>(nm("deviatoric strain"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = omv<R>(n); auto e = mv(a, 0, n); Plato::ComputeDeviatoricStrain<D>()(0, e, s); put(o, s); });
    kernel<NS<D>::full, NS<D>::full, 2>(nm("elastic work"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, n); auto d = mv(b, 0, n); Plato::ComputeElasticWork<D>()(0, c[0], c[1], e, d, w); put(o, w); });
    kernel<NS<D>::full, NS<D>::full, 0>(nm("double contraction"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, n); auto d = mv(b, 0, n); Plato::DoubleDotProduct2ndOrderTensor<D>()(0, e, d, w); put(o, w); });
    Opt q; q.tol = 2e-5; q.h = 1e-4; q.ok = [=](const V& x) { double s = 0; for(double e : x) s += e * e; return s > 1e-3; };
    kernel<NS<D>::v, 0, 0>(nm("von Mises"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, nv); Plato::VonMisesYieldFunction<D>()(0, e, w); put(o, w); }, q);
    for(int strain = 0; strain < 2; strain++)
    {
        Opt e; e.tol = 5e-5; // power sums of the principal values: their order is free
        e.ref = [=](const V& x) { double c = strain ? 0.5 : 1, A[3][3] = {}, P[3][3]; for(int i = 0; i < D; i++) A[i][i] = x[i]; if(D == 2) A[0][1] = A[1][0] = c * x[2]; if(D == 3) { A[1][2] = A[2][1] = c * x[3]; A[0][2] = A[2][0] = c * x[4]; A[0][1] = A[1][0] = c * x[5]; }
            V o; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) P[i][j] = A[i][j]; for(int k = 1; k <= D; k++) { o.push_back(P[0][0] + P[1][1] + P[2][2]); double Q[3][3] = {}; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) for(int l = 0; l < 3; l++) Q[i][j] += P[i][l] * A[l][j]; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) P[i][j] = Q[i][j]; } return o; }; // distinct principal values: derivatives exist
        e.ok = [=](const V& x) { if(D == 1) return true; if(D == 2) return std::hypot(x[0] - x[1], (strain ? 1.0 : 2.0) * x[2]) > 0.2; double s = strain ? 0.5 : 1, xx = x[0], yy = x[1], zz = x[2], yz = s * x[3], xz = s * x[4], xy = s * x[5];
            double m = (xx + yy + zz) / 3, a = xx - m, b = yy - m, c = zz - m, J2 = 0.5 * (a * a + b * b + c * c) + yz * yz + xz * xz + xy * xy, J3 = a * (b * c - yz * yz) - xy * (xy * c - yz * xz) + xz * (xy * yz - b * xz); double r = J2 > 0 ? std::fabs(J3) / 2 / std::pow(J2 / 3, 1.5) : 1; return J2 > 0.05 && r < 0.9; };
        kernel<NS<D>::v, 0, 0>(nm(strain ? "eigenvalues of a strain" : "eigenvalues of a stress"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = omv<R>(D); auto t = mv(a, 0, nv); Plato::Eigenvalues<D>()(0, t, w, (bool)strain); for(int k = 1; k <= D; k++) { R p = 0.0; for(int j = 0; j < D; j++) p += k == 1 ? R(w(0, j)) : k == 2 ? R(w(0, j) * w(0, j)) : R(w(0, j) * w(0, j) * w(0, j)); o.push_back(p); } }, e);
    }
    Opt once; once.h = 1e-4; once.tol = 2e-5; // once differentiable only: a small step
    kernel<D, 0, 0>(nm("tensile energy"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, D); Plato::TensileEnergyDensity<D>()(0, e, 1.7, 0.6, w); put(o, w); }, once);
    for(int p = 1; p <= 3; p++) kernel<D, 1, 0>(vp::fmt("vector norm %dd, exponent %d", D, p), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, D); auto v = cv(b[0]); Plato::VectorPNorm<D>()(0, w, e, p, v); put(o, w); });
}
void vp::explore()
{
    penalty("SIMP", Plato::MSIMP(3.0, 1e-3)); Teuchos::ParameterList rl; rl.set<double>("Exponent", 4.0); rl.set<double>("Minimum Value", 1e-3); penalty("RAMP", Plato::RAMP(rl)); penalty("Heaviside", Plato::Heaviside(2.0, 1.5, 1e-3)); penalty("no penalty", Plato::NoPenalty());
    projection("Heaviside projection", Plato::HeavisideProjection(3.0)); projection("tanh projection", Plato::HyperbolicTangentProjection(4.0, 0.4));
    constitutive<1>(); constitutive<2>(); constitutive<3>();
    explore_elem(); explore_plastic(); explore_types();
}
