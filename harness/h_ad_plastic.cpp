// P21: plasticity and thermal kernels.
#define VP_NO_MAIN
#include "ad.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "TensorPNorm.hpp"
using namespace ad;
template<int D> struct PS { enum { n = D == 3 ? 6 : 4, N = 2 + 2 * n }; };
template<int D> static void plastic()
{
    const int n = PS<D>::n, N = PS<D>::N; typedef Plato::J2PlasticityUtilities<D> J; auto nm = [](const char* s) { return vp::fmt("%s %dd", s, D); };
    Opt t; t.tol = 1e-5; t.ok = [=](const V& x) { double s = 0; for(int j = 0; j < n; j++) { double e = x[j] - x[n + 2 + n + j]; s += e * e; } return s > 0.05; };
    kernel<PS<D>::n, PS<D>::N, 0, false>(nm("yield normal"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, n); auto l = mv(b, 0, N); auto v = omv<R>(n); auto w = ocv<R>(); J().computeDeviatoricStressMinusBackstressNormalized(0, s, l, v, w); put(o, v); put(o, w); }, t);
    kernel<PS<D>::N, PS<D>::N, PS<D>::n>(nm("plastic strain residual, plastic step"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, N); auto p = mv(b, 0, N); auto m = mv(c, 0, n); auto r = omv<R>(N); J().fillPlasticStrainTensorResidualPlasticStep(0, s, p, m, r); put(o, r); });
    for(double H : {0.0, 2.5}) kernel<PS<D>::N, PS<D>::N, PS<D>::n>(vp::fmt("back-stress residual, plastic step %dd, hardening %g", D, H), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, N); auto p = mv(b, 0, N); auto m = mv(c, 0, n); auto r = omv<R>(N); J().fillBackstressTensorResidualPlasticStep(0, H, s, p, m, r); put(o, r); });
    kernel<1, PS<D>::N, PS<D>::n>(nm("back-stress residual, hardening seeded"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; V pv; for(int j = 0; j < N; j++) pv.push_back(0.1 * j); auto s = mv(b, 0, N); auto p = mv(pv, 0, N); auto m = mv(c, 0, n); auto r = omv<R>(N); J().fillBackstressTensorResidualPlasticStep(0, a[0], s, p, m, r); put(o, r); });
    kernel<PS<D>::N, PS<D>::N, 0>(nm("residuals, elastic step"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, N); auto p = mv(b, 0, N); auto r = omv<R>(N); J u; u.fillPlasticStrainTensorResidualElasticStep(0, s, p, r); u.fillBackstressTensorResidualElasticStep(0, s, p, r); put(o, r); });
    kernel<PS<D>::N, PS<D>::N, 0>(nm("plastic strain misfit"), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, N); auto p = mv(b, 0, N); auto r = omv<R>(n); J().computePlasticStrainMisfit(0, s, p, r); put(o, r); });
    kernel<PS<D>::N, 0, 0>(nm("local state components"), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto s = mv(a, 0, N); auto x = ocv<R>(), y = ocv<R>(); auto e = omv<R>(n), b = omv<R>(n); J u; u.getAccumulatedPlasticStrain(0, s, x); u.getPlasticMultiplierIncrement(0, s, y); u.getPlasticStrainTensor(0, s, e); u.getBackstressTensor(0, s, b); put(o, x); put(o, y); put(o, e); put(o, b); });
    typedef Plato::SimplexPlasticity<D> P; typedef Plato::SimplexThermoPlasticity<D> TP;
    kernel<(int)P::mNumDofsPerCell, PS<D>::N, PS<D>::n>(nm("elastic strain"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; Plato::ScalarVector bf("b", D + 1); for(int j = 0; j <= D; j++) bf(j) = (1.0 + j) / ((D + 1) * (D + 2) / 2); auto g = mv(a, 0, P::mNumDofsPerCell); auto l = mv(b, 0, N); auto e = mv(c, 0, n); auto r = omv<R>(n); Plato::ThermoPlasticityUtilities<D, P>(0.5, 0.25, 2.0).computeElasticStrain(0, g, l, bf, e, r); put(o, r); });
    kernel<(int)TP::mNumDofsPerCell, PS<D>::N, PS<D>::n>(nm("elastic strain with temperature"), [=](auto& a, auto& b, auto& c, auto& o) { typedef sc<decltype(o)> R; Plato::ScalarVector bf("b", D + 1); for(int j = 0; j <= D; j++) bf(j) = (1.0 + j) / ((D + 1) * (D + 2) / 2); auto g = mv(a, 0, TP::mNumDofsPerCell); auto l = mv(b, 0, N); auto e = mv(c, 0, n); auto r = omv<R>(n); Plato::ThermoPlasticityUtilities<D, TP>(0.5, 0.25, 2.0).computeElasticStrain(0, g, l, bf, e, r); put(o, r); });
}
template<int D> static void thermal()
{
    for(int non = 0; non < 2; non++)
    {
        Teuchos::ParameterList p; p.set<bool>("Temperature Dependent", (bool)non); auto& s = p.sublist("Thermal Conductivity"); const char* I[] = {"11", "22", "33", "23", "13", "12"};
        int kk[] = {0, 1, 2, 3, 4, 5}; for(int k : kk) { int i = I[k][0] - '1', j = I[k][1] - '1'; if(i >= D || j >= D) continue; for(int q = 0; q < (non ? 3 : 1); q++) s.set<double>(std::string("c") + (non ? std::to_string(q) : "") + I[k], 1.0 / (1 + k) + 0.3 * q); }
        Teuchos::ParameterList m; m.set<bool>("Temperature Dependent", (bool)non); for(const char* q : {"Mass Density", "Specific Heat"}) if(non) { for(int j = 0; j < 3; j++) m.sublist(q).set<double>(vp::fmt("c%d", j), 0.7 + 0.2 * j + (q[0] == 'M')); } else m.set<double>(q, q[0] == 'M' ? 2.5 : 0.75);
        Teuchos::RCP<Plato::MaterialModel<D>> mat = Teuchos::rcp(new Plato::ThermalConductionModel<D>(p)), mass = Teuchos::rcp(new Plato::ThermalMassMaterial<D>(m)); Plato::ThermalFlux<D> f(mat); Plato::ThermalContent<D> h(mass); const char* w = non ? "temperature dependent" : "constant";
        kernel<D, 1, 0>(vp::fmt("thermal flux %dd, %s", D, w), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto g = mv(a, 0, D); auto t = cv(b[0]); auto q = omv<R>(D); f(0, q, g, t); put(o, q); });
        kernel<1, 1, 0>(vp::fmt("thermal content %dd, %s", D, w), [=](auto& a, auto& b, auto&, auto& o) { typedef sc<decltype(o)> R; auto g = cv(a[0]); auto t = cv(b[0]); auto q = ocv<R>(); h(0, q, g, t); put(o, q); });
        if(!non) kernel<D, 0, 0>(vp::fmt("thermal flux %dd, no temperature", D), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto g = mv(a, 0, D); auto q = omv<R>(D); f(0, q, g); put(o, q); });
        if(!non) kernel<1, 0, 0>(vp::fmt("thermal content %dd, no temperature", D), [=](auto& a, auto&, auto&, auto& o) { typedef sc<decltype(o)> R; auto g = cv(a[0]); auto q = ocv<R>(); h(0, q, g); put(o, q); });
    }
}
void explore_plastic() { plastic<2>(); plastic<3>(); thermal<1>(); thermal<2>(); thermal<3>(); }
