// P18 (strains and internal forces), P19 (interpolation, quadrature, projection), P20 (frequency domain).
#include "elem.hpp"
using namespace el; using vp::Dec;
typedef Teuchos::ParameterList PL;

#if VP_PROP == 18
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "ComplexStrain.hpp"
#include "PressureGradient.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "ComplexStressDivergence.hpp"
#include "StrainDivergence.hpp"
#include "ComputeStabilization.hpp"
#include "DotProduct.hpp"
#include "InterpolateGradientFromScalarNodal.hpp"
#if VP_PROP == 18
#include "Strain.hpp"
#include "ScalarGrad.hpp"
#endif
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexProjection.hpp"
#include "SimplexThermal.hpp"
#include "SimplexStructuralDynamics.hpp"

template<int D> static void kinematics()
{
    const auto& G = geos<D>(vp::thorough()); const int nn = D + 1; const u64 ng = G.size();
    auto run = [&](const char* name, int nd, std::function<void(int, const Plato::ScalarMultiVector&, const Plato::ScalarArray3D&, const Geo<D>&, const V&)> f) {
        const int N = nn * nd;
        vp::section(vp::fmt("%s_%d", name, D), ng * (N + 4), [&, nd, N](u64 i) { Dec d(i); const Geo<D>& g = G[d.take(ng)]; int k = d.take(N + 4), c = cell(i); V u = field(N, k); vp::input(g.str() + " field " + vp::vec_str(u)); auto s = mv(N, c, u); auto gr = a3(nn, D, c, g.G); f(c, s, gr, g, u); vp::calls(); cmp(s, c, u, "state (input)"); cmp(gr, c, g.G, "gradient (input)"); });
    };
    const int nv = nvoigt(D);
    run("stabilized", D + 1, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = mv(nv, c, V(nv, 0.0)), p = mv(D, c, {}); Plato::StabilizedKinematics<D>()(c, e, p, s, gr); cmp(e, c, strain_ref<D>(g, u, D + 1), "strain"); cmp(p, c, grad_ref<D>(g, u, D + 1, D), "pressure gradient"); });
    run("thermomechanical", D + 1, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = mv(nv, c, V(nv, 0.0)), p = mv(D, c, {}); Plato::TMKinematics<D>()(c, e, p, s, gr); cmp(e, c, strain_ref<D>(g, u, D + 1), "strain"); cmp(p, c, grad_ref<D>(g, u, D + 1, D), "temperature gradient"); });
    run("stabilized_thermomechanical", D + 2, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = mv(nv, c, V(nv, 0.0)), p = mv(D, c, {}), t = mv(D, c, {}); Plato::StabilizedTMKinematics<D>()(c, e, p, t, s, gr); cmp(e, c, strain_ref<D>(g, u, D + 2), "strain"); cmp(p, c, grad_ref<D>(g, u, D + 2, D), "pressure gradient"); cmp(t, c, grad_ref<D>(g, u, D + 2, D + 1), "temperature gradient"); });
    run("electromechanical", D + 1, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = mv(nv, c, V(nv, 0.0)), p = mv(D, c, {}); Plato::EMKinematics<D>()(c, e, p, s, gr); cmp(e, c, strain_ref<D>(g, u, D + 1), "strain"); cmp(p, c, scaled(grad_ref<D>(g, u, D + 1, D), -1), "electric field"); });
    run("complex", 2 * D, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = a3(2, nv, c, V(2 * nv, 0.0)); Plato::ComplexStrain<D, 2 * D>()(c, s, gr, e); V w = strain_ref<D>(g, u, 2 * D, 0), w2 = strain_ref<D>(g, u, 2 * D, D); w.insert(w.end(), w2.begin(), w2.end()); cmp(e, c, w, "complex strain"); });
    for(double sc : {1.0, 0.0, -2.5}) run(vp::fmt("pressure_gradient(%g)", sc).c_str(), 1, [&, sc](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}); Plato::PressureGradient<D> op1, op2(sc); if(sc == 1) op1(c, p, s, gr); else op2(c, p, s, gr); cmp(p, c, scaled(g.grad(u), sc), "pressure gradient"); });
    run("nodal_gradient", 1, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}); Plato::InterpolateGradientFromScalarNodal<D, 1>()(c, gr, s, p); cmp(p, c, g.grad(u), "gradient of a nodal field"); });
    run("nodal_gradient_last_dof", D + 2, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}); Plato::InterpolateGradientFromScalarNodal<D, D + 2, D + 1>()(c, gr, s, p); cmp(p, c, grad_ref<D>(g, u, D + 2, D + 1), "gradient of a nodal field"); });
    run("nodal_gradient_inner_dof", D + 2, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}); Plato::InterpolateGradientFromScalarNodal<D, D + 2, D>()(c, gr, s, p); cmp(p, c, grad_ref<D>(g, u, D + 2, D), "gradient of a nodal field"); });
#if VP_PROP == 18
    auto strain = [&](auto tag, const char* nm) { constexpr int ND = decltype(tag)::value; run(nm, ND, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto e = mv(nv, c, V(nv, 0.0)); Plato::Strain<D, ND>()(c, e, s, gr); cmp(e, c, strain_ref<D>(g, u, ND), "strain"); }); };
    strain(std::integral_constant<int, D>(), "strain"); strain(std::integral_constant<int, D + 1>(), "strain_mixed"); strain(std::integral_constant<int, D + 2>(), "strain_mixed_2");
    run("strain_of_gradient_matrix", D, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) {
        Omega_h::Vector<nvoigt(D)> B[(D + 1) * D]; for(int k = 0; k < (D + 1) * D; k++) { V w((D + 1) * D, 0.0); w[k] = 1; V e = strain_ref<D>(g, w, D); for(int j = 0; j < nv; j++) B[k][j] = e[j]; } auto e = mv(nv, c, {}); Plato::Strain<D>()(c, e, s, B); cmp(e, c, strain_ref<D>(g, u, D), "strain from the gradient matrix"); (void)gr; });
    run("scalar_gradient", 1, [&](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}), q = mv(D, c, {}); Plato::ScalarGrad<D>()(c, p, s, gr); cmp(p, c, g.grad(u), "scalar gradient"); Omega_h::Vector<D> B[D + 1]; for(int n = 0; n <= D; n++) for(int k = 0; k < D; k++) B[n][k] = g.G[n * D + k]; Plato::ScalarGrad<D>()(c, q, s, B); cmp(q, c, g.grad(u), "scalar gradient from vectors"); });
    for(int off = 0; off < D + 2; off++) run(vp::fmt("scalar_gradient_dof%d", off).c_str(), D + 2, [&, off](int c, const Plato::ScalarMultiVector& s, const Plato::ScalarArray3D& gr, const Geo<D>& g, const V& u) { auto p = mv(D, c, {}); Plato::ScalarGrad<D>()(c, D + 2, off, s, gr, p); V f; for(int n = 0; n <= D; n++) f.push_back(u[n * (D + 2) + off]); cmp(p, c, g.grad(f), "gradient of one dof"); });
#endif
    // rigid motions strain nothing; linear fields have their own constant gradient
    const int nw = D == 3 ? 3 : D == 2 ? 1 : 0;
    vp::section(vp::fmt("rigid_motion_%d", D), ng * vp::ipow(3, D + nw), [&, nw, nv](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; static const double A[] = {0.0, 1.0, -0.5}; double t[3] = {0, 0, 0}, W[3][3] = {}; for(int q = 0; q < D; q++) t[q] = d.pick(A); int k = 0; for(int p = 0; p < D; p++) for(int q = p + 1; q < D; q++, k++) { W[p][q] = d.pick(A); W[q][p] = -W[p][q]; }
        int c = cell(i); V u; for(int n = 0; n <= D; n++) { for(int p = 0; p < D; p++) { double x = t[p]; for(int q = 0; q < D; q++) x += W[p][q] * g.x[n][q]; u.push_back(x); } u.push_back(3.5); }
        vp::input(g.str() + " rigid " + vp::vec_str(u)); auto s = mv((int)u.size(), c, u), e = mv(nv, c, V(nv, 0.0)), p = mv(D, c, {}); auto gr = a3(D + 1, D, c, g.G); Plato::TMKinematics<D>()(c, e, p, s, gr); vp::calls(); cmp(e, c, V(nv, 0.0), "strain of a rigid motion", 1e-9, 1e-9); cmp(p, c, V(D, 0.0), "gradient of a constant", 1e-9, 1e-9);
    });
}
template<int D, int ND, int OFF> static void stress_div()
{
    const auto& G = geos<D>(vp::thorough()); const u64 ng = G.size(); const int nv = nvoigt(D), N = (D + 1) * ND;
    vp::section(vp::fmt("stress_divergence_%d_%d_%d", D, ND, OFF), ng * (nv + 4) * 4, [&](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; int k = d.take(nv + 4), q = d.take(4), c = cell(i); static const double SC[] = {1.0, 0.0, -2.0, 0.5}; double sc = SC[q], vol = q == 3 ? 3.25 : g.vol; V st = field(nv, k), o = gen(N, k + 1, i % 2 ? vp::sc() : 1.0); vp::input(g.str() + vp::fmt(" scale %g volume %g stress ", sc, vol) + vp::vec_str(st));
        auto s = mv(nv, c, st), out = mv(N, c, o); auto gr = a3(D + 1, D, c, g.G); auto v = cv(c, vol); Plato::StressDivergence<D, ND, OFF> op; if(q == 0) op(c, out, s, gr, v); else op(c, out, s, gr, v, sc); vp::calls();
        V want = o; for(int n = 0; n <= D; n++) for(int p = 0; p < D; p++) { V u((D + 1) * D, 0.0); u[n * D + p] = 1; V e = strain_ref<D>(g, u, D); double w = 0; for(int a = 0; a < nv; a++) w += st[a] * e[a]; want[n * ND + OFF + p] += sc * vol * w; } // virtual work of a unit displacement
        cmp(out, c, want, "internal force"); cmp(s, c, st, "stress (input)"); cmp(v, c, vol, "volume (input)"); cmp(gr, c, g.G, "gradient (input)");
    });
    vp::section(vp::fmt("pressure_divergence_%d_%d_%d", D, ND, OFF), ng * 3 * 4, [&](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; static const double P[] = {0.0, 1.5, -2.0}, SC[] = {1.0, 0.0, -2.0, 0.5}; double p = d.pick(P); int q = d.take(4), c = cell(i); double sc = SC[q], vol = q == 3 ? 3.25 : g.vol; V o = gen(N, q, 1.0); vp::input(g.str() + vp::fmt(" scale %g volume %g pressure %g", sc, vol, p));
        auto out = mv(N, c, o); auto pr = cv(c, p), v = cv(c, vol); auto gr = a3(D + 1, D, c, g.G); Plato::PressureDivergence<D, ND, OFF> op; if(q == 0) op(c, out, pr, gr, v); else op(c, out, pr, gr, v, sc); vp::calls();
        V want = o; for(int n = 0; n <= D; n++) for(int a = 0; a < D; a++) { V u((D + 1) * D, 0.0); u[n * D + a] = 1; V e = strain_ref<D>(g, u, D); double tr = 0; for(int b = 0; b < D; b++) tr += e[b]; want[n * ND + OFF + a] += sc * vol * p * tr; }
        cmp(out, c, want, "pressure force"); cmp(pr, c, p, "pressure (input)"); cmp(v, c, vol, "volume (input)"); cmp(gr, c, g.G, "gradient (input)");
    });
}
template<int D, int ND, int OFF> static void flux_div()
{
    const auto& G = geos<D>(vp::thorough()); const u64 ng = G.size(); const int N = (D + 1) * ND;
    vp::section(vp::fmt("flux_divergence_%d_%d_%d", D, ND, OFF), ng * (D + 4) * 4, [&](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; int k = d.take(D + 4), q = d.take(4), c = cell(i); static const double SC[] = {1.0, 0.0, -2.0, 0.5}; double sc = SC[q], vol = q == 3 ? 3.25 : g.vol; V fl = field(D, k), o = gen(N, k + 1, i % 2 ? vp::sc() : 1.0); vp::input(g.str() + vp::fmt(" scale %g volume %g flux ", sc, vol) + vp::vec_str(fl));
        auto s = mv(D, c, fl), out = mv(N, c, o); auto gr = a3(D + 1, D, c, g.G); auto v = cv(c, vol); Plato::FluxDivergence<D, ND, OFF> op; if(q == 0) op(c, out, s, gr, v); else op(c, out, s, gr, v, sc); vp::calls();
        V want = o; for(int n = 0; n <= D; n++) { V t(D + 1, 0.0); t[n] = 1; V h = g.grad(t); for(int a = 0; a < D; a++) want[n * ND + OFF] += sc * vol * fl[a] * h[a]; }
        cmp(out, c, want, "flux divergence"); cmp(s, c, fl, "flux (input)"); cmp(v, c, vol, "volume (input)"); cmp(gr, c, g.G, "gradient (input)");
    });
}
template<int D> static void others()
{
    const auto& G = geos<D>(vp::thorough()); const u64 ng = G.size(); const int nv = nvoigt(D), N = (D + 1) * 2 * D;
    vp::section(vp::fmt("complex_stress_divergence_%d", D), ng * (2 * nv + 4) * 2, [&](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; int k = d.take(2 * nv + 4), c = cell(i); double vol = d.take(2) ? 3.25 : g.vol; V st = field(2 * nv, k); vp::input(g.str() + vp::fmt(" volume %g stress ", vol) + vp::vec_str(st)); auto s = a3(2, nv, c, st), gr = a3(D + 1, D, c, g.G); auto out = mv(N, c, {}); auto v = cv(c, vol); Plato::ComplexStressDivergence<D, 2 * D>()(c, v, gr, s, out); vp::calls();
        V want(N, 0.0); for(int r = 0; r < 2; r++) for(int n = 0; n <= D; n++) for(int p = 0; p < D; p++) { V u((D + 1) * D, 0.0); u[n * D + p] = 1; V e = strain_ref<D>(g, u, D); for(int a = 0; a < nv; a++) want[n * 2 * D + r * D + p] += vol * st[r * nv + a] * e[a]; }
        cmp(out, c, want, "complex internal force"); cmp(s, c, st, "stress (input)"); cmp(v, c, vol, "volume (input)");
    });
    // implementation against implementation: forces of a stress do the work of that stress on the strain of any displacement
    vp::section(vp::fmt("adjoint_%d", D), ng * nv * (D + 1) * D, [&](u64 i) {
        Dec d(i); const Geo<D>& g = G[d.take(ng)]; int a = d.take(nv), k = d.take((D + 1) * D), c = cell(i); V st(nv, 0.0), u((D + 1) * (D + 1), 0.0); st[a] = 1.5; u[(k / D) * (D + 1) + k % D] = -2; vp::input(g.str() + vp::fmt(" stress component %d dof %d", a, k));
        auto s = mv(nv, c, st), us = mv(u.size(), c, u), e = mv(nv, c, V(nv, 0.0)), tg = mv(D, c, {}), f = mv(u.size(), c, V(u.size(), 0.0)); auto gr = a3(D + 1, D, c, g.G); auto v = cv(c, g.vol); Plato::TMKinematics<D>()(c, e, tg, us, gr); Plato::StressDivergence<D, D + 1, 0>()(c, f, s, gr, v); vp::calls(2);
        double w1 = 0, w2 = 0; for(int j = 0; j < nv; j++) w1 += g.vol * st[j] * e(c, j); for(size_t j = 0; j < u.size(); j++) w2 += f(c, j) * u[j]; vp::eq(w2, w1, "virtual work"); V tot(D, 0.0); for(int n = 0; n <= D; n++) for(int p = 0; p < D; p++) tot[p] += f(c, n * (D + 1) + p); for(double t : tot) vp::eq(t, 0, "sum of the nodal forces", 1e-9, 1e-9);
    });
    static const double A[] = {-1.0, 0.25, 2.0};
    vp::section(vp::fmt("strain_divergence_%d", D), vp::ipow(3, nv) * 3, [&](u64 i) { Dec d(i); int c = cell(i, d.take(3)); V e; for(int j = 0; j < nv; j++) e.push_back(d.pick(A)); vp::input(vp::vec_str(e)); auto s = mv(nv, c, e); auto o = cv(c, 5.0); Plato::StrainDivergence<D>()(c, s, o); vp::calls(); double t = 0; for(int j = 0; j < D; j++) t += e[j]; cmp(o, c, t, "volumetric strain"); cmp(s, c, e, "strain (input)"); });
    vp::section(vp::fmt("stabilization_%d", D), vp::ipow(3, 2 * D) * 3 * 3 * 4, [&](u64 i) {
        Dec d(i); V p, q; for(int j = 0; j < D; j++) { p.push_back(d.pick(A)); q.push_back(d.pick(A)); } static const double SC[] = {1.0, 2.5, 1e3}, MU[] = {1.0, 0.5, 40.0}, VO[] = {1.0, 0.125, 3.25, 1e-3}; double sc = d.pick(SC), mu = d.pick(MU), vol = d.pick(VO); int c = cell(i); vp::input(vp::fmt("scaling %g shear %g volume %g grad ", sc, mu, vol) + vp::vec_str(p) + " projected " + vp::vec_str(q));
        auto a = mv(D, c, p), b = mv(D, c, q), o = mv(D, c, {}); auto v = cv(c, vol); Plato::ComputeStabilization<D> op(sc, mu); op(c, v, a, b, o); vp::calls(); V w; for(int j = 0; j < D; j++) w.push_back(sc * std::cbrt(vol * vol) / (2 * mu) * (sc * p[j] - q[j])); cmp(o, c, w, "stabilization"); cmp(a, c, p, "gradient (input)"); cmp(b, c, q, "projected gradient (input)"); });
}
template<int N> static void dot() { static const double A[] = {-1.0, 0.25, 2.0}; vp::section(vp::fmt("dot_%d", N), vp::ipow(3, 2 * N) * 3, [](u64 i) { Dec d(i); int c = cell(i, d.take(3)); V a, b; double s = 0; for(int j = 0; j < N; j++) { a.push_back(d.pick(A)); b.push_back(d.pick(A)); s += a[j] * b[j]; } vp::input(vp::vec_str(a) + vp::vec_str(b)); auto x = mv(N, c, a), y = mv(N, c, b); auto o = cv(c, 9.0); Plato::DotProduct<N>()(c, x, y, o); vp::calls(); cmp(o, c, s, "dot product"); cmp(x, c, a, "operand (input)"); cmp(y, c, b, "operand (input)"); }); }
// the dof layout every kernel and every caller rely on
template<int D> static void layout()
{
    vp::section(vp::fmt("layout_%d", D), 1, [](u64) {
        const int nv = nvoigt(D), nn = D + 1; vp::input("dof layout");
        #define LAY(T, dofs) vp::eqi(T::mNumSpatialDims, D, #T " dimensions"); vp::eqi(T::mNumNodesPerCell, nn, #T " nodes"); vp::eqi(T::mNumDofsPerNode, dofs, #T " dofs per node"); vp::eqi(T::mNumDofsPerCell, nn * (dofs), #T " dofs per cell"); vp::calls();
        LAY(Plato::SimplexMechanics<D>, D) LAY(Plato::SimplexThermal<D>, 1) LAY(Plato::SimplexThermomechanics<D>, D + 1) LAY(Plato::SimplexStabilizedThermomechanics<D>, D + 2) LAY(Plato::SimplexElectromechanics<D>, D + 1) LAY(Plato::SimplexStabilizedMechanics<D>, D + 1) LAY(Plato::SimplexStructuralDynamics<D>, 2 * D)
        vp::eqi(Plato::SimplexMechanics<D>::mNumVoigtTerms, nv, "voigt"); vp::eqi(Plato::SimplexThermomechanics<D>::mNumVoigtTerms, nv, "voigt"); vp::eqi(Plato::SimplexStabilizedThermomechanics<D>::mNumVoigtTerms, nv, "voigt"); vp::eqi(Plato::SimplexElectromechanics<D>::mNumVoigtTerms, nv, "voigt"); vp::eqi(Plato::SimplexStabilizedMechanics<D>::mNumVoigtTerms, nv, "voigt");
        vp::eqi(Plato::SimplexThermomechanics<D>::mTDofOffset, D, "temperature offset"); vp::eqi(Plato::SimplexStabilizedThermomechanics<D>::mTDofOffset, D + 1, "temperature offset"); vp::eqi(Plato::SimplexStabilizedThermomechanics<D>::mPressureDofOffset, D, "pressure offset"); vp::eqi(Plato::SimplexStabilizedMechanics<D>::mPressureDofOffset, D, "pressure offset");
    });
}
template<int D> static void all() { layout<D>(); kinematics<D>(); stress_div<D, D, 0>(); stress_div<D, D + 1, 0>(); stress_div<D, D + 2, 0>(); stress_div<D, D + 1, 1>(); flux_div<D, 1, 0>(); flux_div<D, D + 1, D>(); flux_div<D, D + 2, D + 1>(); flux_div<D, D + 2, D>(); others<D>(); }
void vp::explore() { vp::mixed() = true; vp::sweep({1, 1e-6, 1e6}, [] { all<1>(); all<2>(); all<3>(); }); dot<1>(); dot<2>(); dot<3>(); dot<4>(); if(vp::thorough()) { dot<5>(); dot<6>(); } }
#endif

#if VP_PROP == 19
#include "alg/Basis.hpp"
#include "alg/Cubature.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
#include "InterpolateFromNodal.hpp"
#include "ProjectToNode.hpp"
#include "StateValues.hpp"
typedef Plato::Cubature::RefPointsView PV;
typedef Plato::Cubature::WeightsView WV;
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
template<int D, int ND, int OFF, int NUM> static void interp()
{
    const int N = (D + 1) * ND;
    vp::section(vp::fmt("interpolate_%d_%d_%d_%d", D, ND, OFF, NUM), (N + 6) * (D + 6) * 3, [=](u64 i) {
        Dec d(i); V u = field(N, d.take(N + 6)); int k = d.take(D + 6), c = cell(i, d.take(3)); V b = k <= D ? V(D + 1, 0.0) : gen(D + 1, k, 1.0); if(k <= D) b[k] = 1; vp::input(vp::fmt("dofs/node %d offset %d field ", ND, OFF) + vp::vec_str(u) + " basis " + vp::vec_str(b)); auto B = vp::sv(b); auto s = mv(N, c, u), o = mv(NUM, c, {}); auto x = cv(c, 3.0);
        Plato::InterpolateFromNodal<D, ND, OFF, NUM> f; f(c, B, s, x); f(c, B, s, o); vp::calls(2); V w(NUM, 0.0); for(int q = 0; q < NUM; q++) for(int n = 0; n <= D; n++) w[q] += b[n] * u[n * ND + OFF + q]; cmp(x, c, w[0], "interpolated dof"); cmp(o, c, w, "interpolated dofs"); cmp(s, c, u, "state (input)"); for(int n = 0; n <= D; n++) vp::check(B(n) == b[n], "the basis was changed");
        if(OFF == 0 && NUM == ND) { auto o2 = mv(ND, c, {}); Plato::StateValues()(c, B, s, o2); vp::calls(); cmp(o2, c, w, "state values"); cmp(s, c, u, "state (input)"); } });
}
template<int D, int ND, int OFF, int NUM> static void project()
{
    const int N = (D + 1) * ND;
    vp::section(vp::fmt("project_%d_%d_%d_%d", D, ND, OFF, NUM), (NUM + 4) * (D + 4) * 4 * 3 * 3, [=](u64 i) {
        Dec d(i); V q = field(NUM, d.take(NUM + 4)); int k = d.take(D + 4), a = d.take(4), c = cell(i, d.take(3)); static const double SC[] = {1.0, 0.0, -2.0, 0.5}, VO[] = {1.0, 0.125, 2.5}; double sc = SC[a], vol = d.pick(VO); V b = k <= D ? V(D + 1, 0.0) : gen(D + 1, k, 1.0); if(k <= D) b[k] = 1; if(k == D + 1) b = V(D + 1, 1.0 / (D + 1)); V o = gen(N, k + 2, i % 2 ? vp::sc() : 1.0);
        vp::input(vp::fmt("dofs/node %d offset %d scale %g volume %g values ", ND, OFF, sc, vol) + vp::vec_str(q) + " basis " + vp::vec_str(b)); auto B = vp::sv(b); auto v = cv(c, vol), q1 = cv(c, q[0]); auto s = mv(NUM, c, q), r = mv(N, c, o), r1 = mv(N, c, o); Plato::ProjectToNode<D, ND, OFF> f; if(a == 0) { f(c, v, B, s, r); f(c, v, B, q1, r1); } else { f(c, v, B, s, r, sc); f(c, v, B, q1, r1, sc); } vp::calls(2);
        V w = o, w1 = o; for(int n = 0; n <= D; n++) { w1[n * ND + OFF] += sc * b[n] * q[0] * vol; for(int j = 0; j < NUM; j++) w[n * ND + OFF + j] += sc * b[n] * q[j] * vol; } cmp(r, c, w, "projected quantity"); cmp(r1, c, w1, "projected scalar"); cmp(s, c, q, "values (input)"); cmp(v, c, vol, "volume (input)");
        double tb = 0; for(double x : b) tb += x; for(int j = 0; j < NUM; j++) { double t = 0; for(int n = 0; n <= D; n++) t += r(c, n * ND + OFF + j) - o[n * ND + OFF + j]; vp::eq(t, sc * tb * vol * q[j], "total projected", 1e-8, 1e-9); } });
}
template<int D> static void all()
{
    // quadrature: every monomial up to (and beyond) the degree; beyond it nothing is claimed
    vp::section(vp::fmt("cubature_%d", D), 8, [](u64 i) {
        int deg = (int)i - 1; vp::input(vp::fmt("dimension %d degree %d", D, deg)); int n = 0; bool t = vp::throws([&] { n = Plato::Cubature::getNumCubaturePoints(D, deg); }); vp::calls(); vp::check(t == (deg > 3), "degree %d %s", deg, t ? "rejected" : "accepted");
        if(t) { PV p("p", 5, D); WV w("w", 5); vp::calls(); vp::check(vp::throws([&] { Plato::Cubature::getCubature(D, deg, p, w); }), "an unsupported degree was accepted"); return; }
        PV p("p", n, D); WV w("w", n); Plato::Cubature::getCubature(D, deg, p, w); vp::calls(); int m = std::max(deg, 1);
        for(int a = 0; a <= m; a++) for(int b = 0; b <= (D > 1 ? m - a : 0); b++) for(int e = 0; e <= (D > 2 ? m - a - b : 0); e++) { double s = 0; for(int q = 0; q < n; q++) s += w(q) * std::pow(p(q, 0), a) * (D > 1 ? std::pow(p(q, D > 1), b) : 1) * (D > 2 ? std::pow(p(q, D > 2 ? 2 : 0), e) : 1); vp::eq(s, fact(a) * fact(b) * fact(e) / fact(a + b + e + D), vp::fmt("integral of x^%d y^%d z^%d", a, b, e).c_str(), 1e-12, 1e-14); }
        for(int q = 0; q < n; q++) { double s = 0; for(int d = 0; d < D; d++) { vp::check(p(q, d) > 0, "point outside the element"); s += p(q, d); } vp::check(s < 1, "point outside the element"); for(int r = 0; r < q; r++) { double ds = 0; for(int d = 0; d < D; d++) ds += std::fabs(p(q, d) - p(r, d)); vp::check(ds > 1e-3, "coinciding points"); } }
        for(int dn = -1; dn <= 1; dn++) for(int dd = -1; dd <= 1; dd++) for(int dw = -1; dw <= 1; dw++) { if(!dn && !dd && !dw) continue; PV p2("p", n + dn, D + dd); WV w2("w", n + dw); vp::calls(); vp::check(vp::throws([&] { Plato::Cubature::getCubature(D, deg, p2, w2); }), "views of the wrong shape (%d,%d;%d) were accepted", n + dn, D + dd, n + dw); } });
    vp::section(vp::fmt("basis_%d", D), vp::ipow(7, D), [](u64 i) {
        Dec d(i); static const double A[] = {0.0, 1.0, 0.5, 0.25, 1.0 / 3, -0.5, 2.0}; V x; for(int j = 0; j < D; j++) x.push_back(d.pick(A)); vp::input("point " + vp::vec_str(x)); Plato::Basis b(D); vp::eqi(b.basisCardinality(), D + 1, "cardinality"); PV p("p", 3, D), rc("rc", D + 1, D), v("v", D + 1, 3), vr("v", D + 1, D + 1); Kokkos::View<double***, Plato::Layout, Plato::MemSpace> g("g", D + 1, 3, D);
        Kokkos::deep_copy(rc, 9.0); Kokkos::deep_copy(v, 9.0); Kokkos::deep_copy(g, 9.0); for(int q = 0; q < 3; q++) for(int j = 0; j < D; j++) p(q, j) = q == 1 ? x[j] : 0.125 * (q + 1 + j); b.getRefCoords(rc); b.getValues(p, v); b.getGradientValues(p, g); b.getValues(rc, vr); vp::calls(4);
        for(int n = 0; n <= D; n++) for(int m = 0; m <= D; m++) vp::eq(vr(n, m), n == m, "nodal value");
        for(int q = 0; q < 3; q++) { double s = 0; V y(D, 0.0); for(int n = 0; n <= D; n++) { s += v(n, q); for(int j = 0; j < D; j++) y[j] += v(n, q) * rc(n, j); } vp::eq(s, 1, "partition of unity"); for(int j = 0; j < D; j++) vp::eq(y[j], p(q, j), "reproduced coordinate");
            for(int j = 0; j < D; j++) { double z = 0; V h(D, 0.0); for(int n = 0; n <= D; n++) { z += g(n, q, j); for(int k = 0; k < D; k++) h[k] += g(n, q, j) * rc(n, k); } vp::eq(z, 0, "gradient of one"); for(int k = 0; k < D; k++) vp::eq(h[k], j == k, "gradient of a coordinate"); } }
        for(int n = 0; n <= D; n++) for(int j = 0; j < D; j++) vp::eq(rc(n, j), n == j, "reference coordinate"); // nodes on the axes, then the origin
    });
    vp::section(vp::fmt("degree_one_rule_%d", D), 1, [](u64) {
        Plato::LinearTetCubRuleDegreeOne<D> r; vp::input("rule"); vp::calls(); vp::eq(r.getCubWeight(), 1 / fact(D), "weight"); vp::eqi(r.getNumCubPoints(), 1, "points"); auto x = r.getCubPointsCoords(); auto b = r.getBasisFunctions(); vp::eqi(x.size(), D, "coordinates"); vp::eqi(b.size(), D + 1, "basis functions"); double s = 0; for(int j = 0; j < D; j++) vp::eq(x(j), 1.0 / (D + 1), "centroid"); for(int n = 0; n <= D; n++) { vp::eq(b(n), 1.0 / (D + 1), "basis at the centroid"); s += b(n); } vp::eq(s, 1, "partition of unity"); });
    interp<D, 1, 0, 1>(); if(D > 1) interp<D, D, 0, D>(); interp<D, D + 1, D, 1>(); interp<D, D + 2, D, 2>(); interp<D, D + 2, D + 1, 1>(); interp<D, 2 * D, 0, 2 * D>(); interp<D, D + 3, 1, D>();
    project<D, 1, 0, 1>(); if(D > 1) project<D, D, 0, D>(); project<D, D + 1, D, 1>(); project<D, D + 2, D, 2>(); project<D, D + 2, 1, D>(); project<D, 2 * D, 0, 2 * D>();
}
void vp::explore()
{
    all<1>(); all<2>(); all<3>(); vp::mixed() = true;
    vp::sweep({1e-6, 1e6}, [] { interp<3, 4, 3, 1>(); interp<3, 5, 3, 2>(); interp<2, 4, 0, 4>(); interp<2, 5, 1, 2>(); interp<1, 1, 0, 1>(); project<3, 4, 3, 1>(); project<3, 3, 0, 3>(); project<2, 4, 1, 2>(); project<1, 1, 0, 1>(); });
    vp::section("cubature_bad_dimension", 4 * 5, [](u64 i) { static const int DM[] = {0, 4, -1, 7}; Dec d(i); int dim = d.pick(DM), deg = d.take(5); vp::input(vp::fmt("dimension %d degree %d", dim, deg)); PV p("p", 1, 1); WV w("w", 1); vp::calls(2); vp::check(vp::throws([&] { Plato::Cubature::getNumCubaturePoints(dim, deg); }), "accepted"); vp::check(vp::throws([&] { Plato::Cubature::getCubature(dim, deg, p, w); }), "accepted"); });
}
#endif

#if VP_PROP == 20
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "RayleighDamping.hpp"
#include "InertialForces.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
static const double M[] = {0.0, 0.5, 1.5}, K[] = {0.0, 0.25, 2.0};
// how the coefficients are given: constructor arguments, parameter list (given or default 0), constructor defaults
template<typename T> static T make(int how, double& m, double& k) { PL l; switch(how) { case 0: return T(m, k); case 1: l.set<double>("Rayleigh Mass Damping", m); l.set<double>("Rayleigh Stiffness Damping", k); return T(l); case 2: l.set<double>("Rayleigh Mass Damping", m); k = 0; return T(l); case 3: l.set<double>("Rayleigh Stiffness Damping", k); m = 0; return T(l); case 4: m = 0.025; k = 0.023; return T(); default: k = 0.023; return T(m); } }
template<int D> static void damping()
{
    for(int nn = 1; nn <= D + 1; nn++)
    {
        const int N = nn * 2 * D;
        vp::section(vp::fmt("complex_damping_%d_%d", D, nn), (N + 3) * (N + 3) * 9 * 6, [=](u64 i) {
            Dec d(i); V e = field(N, d.take(N + 3)), f = field(N, d.take(N + 3)); double m = d.pick(M), k = d.pick(K), m2 = m, k2 = k; int how = d.take(6), c = cell(i); auto E = mv(N, c, e), F = mv(N, c, f), o = mv(N, c, {}), a = mv(N, c, {}); auto x = make<Plato::ComplexRayleighDamping<D>>(how, m, k); auto y = make<Plato::AdjointComplexRayleighDamping<D>>(how, m2, k2);
            vp::input(vp::fmt("mass %g stiffness %g elastic ", m, k) + vp::vec_str(e) + " inertial " + vp::vec_str(f)); x(c, E, F, o); y(c, E, F, a); vp::calls(2); V w(N), wa(N); for(int n = 0; n < nn; n++) for(int j = 0; j < D; j++) { int r = n * 2 * D + j, q = r + D; w[r] = m * f[q] + k * e[q]; w[q] = -(m * f[r] + k * e[r]); wa[r] = -w[r]; wa[q] = -w[q]; }
            cmp(o, c, w, "damping force"); cmp(a, c, wa, "adjoint damping force"); cmp(E, c, e, "elastic force (input)"); cmp(F, c, f, "inertial force (input)"); });
    }
}
template<int N> static void plain()
{
    vp::section(vp::fmt("damping_%d", N), (N + 3) * (N + 3) * 9 * 6, [](u64 i) { Dec d(i); V e = field(N, d.take(N + 3)), f = field(N, d.take(N + 3)); double m = d.pick(M), k = d.pick(K); int how = d.take(6), c = cell(i); auto E = mv(N, c, e), F = mv(N, c, f), o = mv(N, c, {}); auto x = make<Plato::RayleighDamping<N>>(how, m, k); vp::input(vp::fmt("mass %g stiffness %g elastic ", m, k) + vp::vec_str(e) + " inertial " + vp::vec_str(f)); x(c, E, F, o); vp::calls(); V w; for(int j = 0; j < N; j++) w.push_back(m * f[j] + k * e[j]); cmp(o, c, w, "damping force"); cmp(E, c, e, "elastic force (input)"); cmp(F, c, f, "inertial force (input)"); });
    vp::section(vp::fmt("residual_%d", N), (N + 3) * (N + 3) * (N + 3) * 4, [](u64 i) { Dec d(i); V e = field(N, d.take(N + 3)), f = field(N, d.take(N + 3)), g = field(N, d.take(N + 3)), r = gen(N, 2, 1.0); static const double W[] = {0.0, 1.0, 4.0, 2.5e3}; double w2 = d.pick(W); int c = cell(i); vp::input(vp::fmt("omega^2 %g elastic ", w2) + vp::vec_str(e) + " damping " + vp::vec_str(f) + " inertial " + vp::vec_str(g)); auto E = mv(N, c, e), F = mv(N, c, f), G = mv(N, c, g), R = mv(N, c, r); Plato::structural_dynamics_cell_residual<N>(c, w2, E, F, G, R); vp::calls(); V w; for(int j = 0; j < N; j++) w.push_back(r[j] + e[j] + f[j] - w2 * g[j]); cmp(R, c, w, "residual"); cmp(E, c, e, "elastic force (input)"); cmp(F, c, f, "damping force (input)"); cmp(G, c, g, "inertial force (input)"); });
}
template<int D> static void energies()
{
    const int nv = nvoigt(D), nd = 2 * D; static const double A[] = {-1.0, 0.25, 2.0}, RHO[] = {1.0, 2.5, 0.0}, VO[] = {1.0, 0.125, 3.0}, OM[] = {0.0, 1.0, 2.5, -2.0};
    vp::section(vp::fmt("inertial_force_%d", D), vp::ipow(3, nd) * 3 * 3 * 3, [=](u64 i) { Dec d(i); V u; for(int j = 0; j < nd; j++) u.push_back(d.pick(A) * vp::sc()); double rho = d.pick(RHO), vol = d.pick(VO); int k = d.take(3), c = cell(i); V b = k == 0 ? V(D + 1, 1.0 / (D + 1)) : gen(D + 1, k, 1.0); vp::input(vp::fmt("density %g volume %g values ", rho, vol) + vp::vec_str(u) + " basis " + vp::vec_str(b)); auto s = mv(nd, c, u), o = mv(nd * (D + 1), c, {}); auto v = cv(c, vol); auto B = vp::sv(b); Plato::InertialForces op(rho); op(c, v, B, s, o); vp::calls(); V w; for(int n = 0; n <= D; n++) for(int j = 0; j < nd; j++) w.push_back(rho * vol * b[n] * u[j]); cmp(o, c, w, "inertial force"); cmp(s, c, u, "values (input)"); });
    vp::section(vp::fmt("inertial_energy_%d", D), vp::ipow(3, nd) * 4 * 3 * 3, [=](u64 i) { vp::degree(2); Dec d(i); V u; double q = 0; for(int j = 0; j < nd; j++) { u.push_back(d.pick(A) * vp::sc()); q += u[j] * u[j]; } double om = d.pick(OM), rho = d.pick(RHO), vol = d.pick(VO); int c = cell(i); vp::input(vp::fmt("omega %g density %g volume %g values ", om, rho, vol) + vp::vec_str(u)); auto s = mv(nd, c, u); auto v = cv(c, vol), o = cv(c, 5.0); Plato::ComplexInertialEnergy<D> op(om, rho); op(c, v, s, o); vp::calls(); cmp(o, c, -om * om * rho * vol * q, "inertial energy"); cmp(s, c, u, "values (input)"); });
    const int n2 = 2 * nv;
    for(int cs = 1; cs <= 2; cs++) vp::section(vp::fmt("elastic_energy_%d_%d", D, cs), (n2 + 6) * (n2 + 6) * 3, [=](u64 i) { vp::degree(2); Dec d(i); const int n = cs * nv; V a = field(n2, d.take(n2 + 6)), b = field(n2, d.take(n2 + 6)); a.resize(n); b.resize(n); int c = cell(i, d.take(3)); vp::input(vp::vec_str(a) + vp::vec_str(b)); auto s = a3(cs, nv, c, a), e = a3(cs, nv, c, b); auto o = cv(c, 5.0); Plato::ComplexElasticEnergy<(D == 3 ? 6 : D == 2 ? 3 : 1)>()(c, s, e, o); vp::calls(); double w = 0; for(int j = 0; j < n; j++) w += a[j] * b[j]; cmp(o, c, w, "elastic energy"); cmp(s, c, a, "stress (input)"); cmp(e, c, b, "strain (input)"); });
    const int N = nd * (D + 1);
    vp::section(vp::fmt("misfit_%d", D), (N + 6) * (N + 6) * 3, [=](u64 i) { vp::degree(2); Dec d(i); V a = field(N, d.take(N + 6)), b = field(N, d.take(N + 6)); int c = cell(i, d.take(3)); vp::input(vp::vec_str(a) + vp::vec_str(b)); auto x = mv(N, c, a), y = mv(N, c, b); auto o = cv(c, 5.0); Plato::ComputeFrequencyResponseMisfit<D>()(c, x, y, o); vp::calls(); double w = 0; for(int j = 0; j < N; j++) w += (a[j] - b[j]) * (a[j] - b[j]); cmp(o, c, w / 2, "misfit"); cmp(x, c, a, "experiment (input)"); cmp(y, c, b, "trial (input)"); });
}
void vp::explore() { vp::mixed() = true; vp::sweep({1, 1e-6, 1e6}, [] { damping<1>(); damping<2>(); damping<3>(); plain<2>(); plain<4>(); plain<6>(); if(vp::sc() == 1 || vp::thorough()) plain<12>(); if(vp::thorough()) plain<24>(); }); vp::mixed() = false; vp::sweep({1, 1e-6, 1e6}, [] { energies<1>(); energies<2>(); energies<3>(); }); }
#endif
