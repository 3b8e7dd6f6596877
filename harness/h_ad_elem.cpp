// P21: element kernels.
#define VP_NO_MAIN
#include "ad.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "PressureGradient.hpp"
#include "StrainDivergence.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "InterpolateFromNodal.hpp"
#include "ProjectToNode.hpp"
#include "StateValues.hpp"
#include "DotProduct.hpp"
#include "ComputeStabilization.hpp"
#include "ComplexStrain.hpp"
#include "ComplexStressDivergence.hpp"
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "RayleighDamping.hpp"
#include "InertialForces.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "TensorPNorm.hpp"
using namespace ad;
template<int D> static void kinematics()
{
    const int nn = D + 1, nv = el::nvoigt(D); auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); };
    kernel<(D + 1) * (D + 1), (D + 1) * D, 0>(nm("thermomechanical kinematics"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * nn); auto g = a3(b, 0, nn, D); auto e = omv<R>(nv), t = omv<R>(D); Plato::TMKinematics<D>()(0, e, t, s, g); put(o, e); put(o, t); });
    kernel<(D + 1) * (D + 1), (D + 1) * D, 0>(nm("electromechanical kinematics"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * nn); auto g = a3(b, 0, nn, D); auto e = omv<R>(nv), t = omv<R>(D); Plato::EMKinematics<D>()(0, e, t, s, g); put(o, e); put(o, t); });
    kernel<(D + 1) * (D + 1), (D + 1) * D, 0>(nm("stabilized kinematics"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * nn); auto g = a3(b, 0, nn, D); auto e = omv<R>(nv), t = omv<R>(D); Plato::StabilizedKinematics<D>()(0, e, t, s, g); put(o, e); put(o, t); });
    kernel<(D + 1) * (D + 2), (D + 1) * D, 0>(nm("stabilized thermomechanical kinematics"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * (D + 2)); auto g = a3(b, 0, nn, D); auto e = omv<R>(nv), p = omv<R>(D), t = omv<R>(D); Plato::StabilizedTMKinematics<D>()(0, e, p, t, s, g); put(o, e); put(o, p); put(o, t); });
    kernel<(D + 1) * 2 * D, (D + 1) * D, 0>(nm("complex strain"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * 2 * D); auto g = a3(b, 0, nn, D); auto e = oa3<R>(2, nv); Plato::ComplexStrain<D, 2 * D>()(0, s, g, e); put(o, e); });
    kernel<D + 1, (D + 1) * D, 0>(nm("pressure gradient"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn); auto g = a3(b, 0, nn, D); auto p = omv<R>(D); Plato::PressureGradient<D>(1.5)(0, p, s, g); put(o, p); });
    kernel<(D == 3 ? 6 : D == 2 ? 3 : 1), 0, 0>(nm("strain divergence"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nv); auto w = ocv<R>(); Plato::StrainDivergence<D>()(0, s, w); put(o, w); });
}
template<int D> static void divergence()
{
    const int nn = D + 1, nv = el::nvoigt(D); auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); }; enum { NV = D == 3 ? 6 : D == 2 ? 3 : 1 };
    kernel<NV, (D + 1) * D, 1>(nm("stress divergence"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nv); auto g = a3(b, 0, nn, D); auto v = cv(c[0]); auto f = omv<R>(nn * (D + 1)); Plato::StressDivergence<D, D + 1, 0>()(0, f, s, g, v, -1.5); put(o, f); });
    kernel<D, (D + 1) * D, 1>(nm("flux divergence"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, D); auto g = a3(b, 0, nn, D); auto v = cv(c[0]); auto f = omv<R>(nn * (D + 1)); Plato::FluxDivergence<D, D + 1, D>()(0, f, s, g, v, 2.0); put(o, f); });
    kernel<1, (D + 1) * D, 1>(nm("pressure divergence"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = cv(a[0]); auto g = a3(b, 0, nn, D); auto v = cv(c[0]); auto f = omv<R>(nn * (D + 1)); Plato::PressureDivergence<D, D + 1, 0>()(0, f, s, g, v, 2.0); put(o, f); });
    kernel<2 * NV, (D + 1) * D, 1>(nm("complex stress divergence"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = a3(a, 0, 2, nv); auto g = a3(b, 0, nn, D); auto v = cv(c[0]); auto f = omv<R>(nn * 2 * D); Plato::ComplexStressDivergence<D, 2 * D>()(0, v, g, s, f); put(o, f); });
    Opt p; p.ok = [](const V& x) { return x.back() > 0.05; };
    kernel<D, D, 1>(nm("stabilization"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, D), q = mv(a, 0, D); auto g = mv(b, 0, D); auto v = cv(c[0]); auto f = omv<R>(D); Plato::ComputeStabilization<D>(1.5, 0.8)(0, v, s, g, f); put(o, f); }, p);
    kernel<D, D, 0>(nm("dot product"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, D); auto g = mv(b, 0, D); auto w = ocv<R>(); Plato::DotProduct<D>()(0, s, g, w); put(o, w); });
}
template<int D> static void nodal()
{
    const int nn = D + 1; auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); }; Plato::ScalarVector bf("b", D + 1); for(int j = 0; j <= D; j++) bf(j) = (1.0 + j) / ((D + 1) * (D + 2) / 2);
    kernel<(D + 1) * (D + 1), 0, 0>(nm("interpolation"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nn * nn); auto w = ocv<R>(); auto x = omv<R>(D); auto y = omv<R>(D + 1); Plato::InterpolateFromNodal<D, D + 1, D>()(0, bf, s, w); Plato::InterpolateFromNodal<D, D + 1, 0, D>()(0, bf, s, x); Plato::StateValues()(0, bf, s, y); put(o, w); put(o, x); put(o, y); });
    kernel<D, 1, 0>(nm("projection to the nodes"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, D); auto s1 = cv(a[0]); auto v = cv(b[0]); auto f = omv<R>(nn * nn), h = omv<R>(nn * nn); Plato::ProjectToNode<D, D + 1, 0>()(0, v, bf, s, f, 1.5); Plato::ProjectToNode<D, D + 1, D>()(0, v, bf, s1, h); put(o, f); put(o, h); });
}
template<int D> static void dynamics()
{
    const int nn = D + 1, nd = 2 * D, nv = el::nvoigt(D), N = nn * nd; auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); }; enum { NV = D == 3 ? 6 : D == 2 ? 3 : 1, NN = (D + 1) * 2 * D };
    kernel<NN, NN, 0>(nm("complex damping"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto e = mv(a, 0, N); auto m = mv(b, 0, N); auto f = omv<R>(N), h = omv<R>(N); Plato::ComplexRayleighDamping<D>(0.5, 0.25)(0, e, m, f); Plato::AdjointComplexRayleighDamping<D>(0.5, 0.25)(0, e, m, h); put(o, f); put(o, h); });
    kernel<NN, NN, 0>(nm("damping"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto e = mv(a, 0, N); auto m = mv(b, 0, N); auto f = omv<R>(N); Plato::RayleighDamping<NN>(0.5, 0.25)(0, e, m, f); put(o, f); });
    kernel<NN, 0, 0>(nm("frequency response misfit"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto e = mv(a, 0, N); V d; for(int j = 0; j < N; j++) d.push_back(0.3 - 0.07 * j); auto m = mv(d, 0, N); auto w = ocv<R>(); Plato::ComputeFrequencyResponseMisfit<D>()(0, m, e, w); put(o, w); });
    kernel<2 * NV, 2 * NV, 0>(nm("complex elastic energy"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = a3(a, 0, 2, nv); auto e = a3(b, 0, 2, nv); auto w = ocv<R>(); Plato::ComplexElasticEnergy<NV>()(0, s, e, w); put(o, w); });
    kernel<2 * D, 1, 0>(nm("complex inertial energy"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nd); auto v = cv(b[0]); auto w = ocv<R>(); Plato::ComplexInertialEnergy<D>(1.5, 2.0)(0, v, s, w); put(o, w); });
}
template<int D> static void forces()
{
    const int nn = D + 1, nd = 2 * D, N = nn * nd; auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); }; enum { NN = (D + 1) * 2 * D };
    Plato::ScalarVector bf("b", D + 1); for(int j = 0; j <= D; j++) bf(j) = (1.0 + j) / ((D + 1) * (D + 2) / 2);
    kernel<2 * D, 1, 0>(nm("inertial forces"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, nd); auto v = cv(b[0]); auto f = omv<R>(N); Plato::InertialForces(2.5)(0, v, bf, s, f); put(o, f); });
    kernel<D * (D + 1), D * (D + 1), D * (D + 1), false>(nm("cell residual"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto e = mv(a, 0, D * nn), d = mv(b, 0, D * nn), m = mv(c, 0, D * nn), f = omv<R>(D * nn); Plato::structural_dynamics_cell_residual<D * (D + 1), R>(0, 1.5, e, d, m, f); put(o, f); });
}
template<int L> static void norms()
{
    Teuchos::ParameterList l; auto& q = l.sublist("Normalize").sublist("Scalar"); q.set<double>("Reference Weight", 2.0); q.set<double>("Scalar Product Weight", 1.5); auto& bq = l.sublist("Normalize").sublist("Barlat"); bq.set<double>("Reference Weight", 2.0); bq.set<int>("Barlat Exponent", 8);
    for(int t = 1; t <= 2; t++) for(int i = 0; i < 6; i++) { Teuchos::Array<double> r(6, 0.0); r[i] = 1 + 0.1 * t; if(i < 3) r[(i + t) % 3] = -0.2 * t; bq.set(vp::fmt("T%d%d", t, i), r); }
    Plato::TensorPNormFunctor<L> plain(l); Plato::WeightedNormFunctor<L> weighted(l); Plato::BarlatNormFunctor<L> barlat(l);
    Teuchos::ParameterList li; for(int t = 1; t <= 2; t++) for(int i = 0; i < 6; i++) { Teuchos::Array<double> r(6, 0.0); r[i] = 1; li.sublist("Normalize").sublist("Barlat").set(vp::fmt("T%d%d", t, i), r); } // uniaxial stress: equal principal values
    Plato::BarlatNormFunctor<L> iso(li); Opt x; x.tol = 2e-4; x.h = 1e-4;
    kernel<L, 1, 0>(vp::fmt("isotropic Barlat norm of %d components", L), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, L); auto v = cv(b[0]); iso(0, w, e, 4.0, v); put(o, w); }, x);
    for(double p : {1.0, 2.0, 3.5, 6.0})
    {
        // the norm itself (p = 1) is not differentiable at the origin
        Opt z; z.zero = p > 1; z.tol = 1e-5; 
        kernel<L, 1, 0>(vp::fmt("tensor norm of %d components, exponent %g", L, p), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, L); auto v = cv(b[0]); plain(0, w, e, p, v); put(o, w); }, z);
        kernel<L, 1, 0>(vp::fmt("weighted tensor norm of %d components, exponent %g", L, p), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, L); auto v = cv(b[0]); weighted(0, w, e, p, v); put(o, w); }, z);
        Opt y; y.zero = p > 1; y.tol = 2e-4; y.h = 1e-4;
        kernel<L, 1, 0>(vp::fmt("Barlat norm of %d components, exponent %g", L, p), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto w = ocv<R>(); auto e = mv(a, 0, L); auto v = cv(b[0]); barlat(0, w, e, p, v); put(o, w); }, y);
    }
}
void explore_elem() { forces<1>(); forces<2>(); forces<3>(); norms<1>(); norms<3>(); norms<6>(); kinematics<1>(); kinematics<2>(); kinematics<3>(); divergence<1>(); divergence<2>(); divergence<3>(); nodal<1>(); nodal<2>(); nodal<3>(); dynamics<1>(); dynamics<2>(); dynamics<3>(); }
