// P14: J2 plasticity state updates, with and without thermal strain.
#include "vpk.hpp"
#include <Sacado.hpp>
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
using vp::Dec; using vp::u64;
typedef std::vector<double> V;
static const double POISON = 777.25, S32 = std::sqrt(1.5), S23 = std::sqrt(2.0 / 3.0);
template<int D> struct L
{
    static const int n = D == 2 ? 4 : 6, N = D == 2 ? 10 : 14, ep = 2, bs = 2 + n;
    static bool shear(int j) { return D == 2 ? j == 2 : j > 2; }
    static double w(int j) { return shear(j) ? 2 : 1; }
    static double tr(const V& x) { return D == 2 ? x[0] + x[1] + x[3] : x[0] + x[1] + x[2]; }
};
// three cells, of which one is worked on
static Plato::ScalarMultiVector mv(int m, int c, const V& x) { Plato::ScalarMultiVector v("v", vp::NC, m); for(int a = 0; a < vp::NC; a++) for(int j = 0; j < m; j++) v(a, j) = a == c ? (x.empty() ? POISON : x[j]) : POISON + a; return v; }
static V row(const Plato::ScalarMultiVector& v, int c) { V r; for(size_t j = 0; j < v.extent(1); j++) r.push_back(v(c, j)); return r; }
static void cmp(const Plato::ScalarMultiVector& v, int c, const V& want, const char* what)
{
    for(int a = 0; a < vp::NC; a++) for(size_t j = 0; j < v.extent(1); j++) if(a != c) vp::check(v(a, j) == POISON + a, "%s: another cell was written", what); else vp::eq(v(a, j), want[j], vp::fmt("%s[%d]", what, (int)j).c_str());
}
static V gen(int n, int k, double s) { V r; for(int j = 0; j < n; j++) r.push_back(vp::sc() * s * (0.3 + 0.17 * ((j * 7 + k * 5) % 11) - 0.9 * ((j + k) % 2))); return r; }

template<int D> static V normal_ref(const V& dev, const V& st, double& norm)
{
    const int n = L<D>::n; V x(n); norm = 0; for(int j = 0; j < n; j++) { x[j] = dev[j] - st[L<D>::bs + j]; norm += L<D>::w(j) * x[j] * x[j]; } norm = std::sqrt(norm); for(auto& e : x) e /= norm; return x;
}
template<int D> static V plastic_ref(const V& prev, const V& cur, const V& N, double H)
{
    V r = cur; for(int j = 0; j < L<D>::n; j++) { r[2 + j] = prev[2 + j] + cur[1] * S32 * L<D>::w(j) * N[j]; r[L<D>::bs + j] = prev[L<D>::bs + j] + cur[1] * S23 * H * N[j]; } return r;
}
template<int D> static void updates()
{
    const int n = L<D>::n, N = L<D>::N; typedef Plato::J2PlasticityUtilities<D> J;
    static const double A[] = {-1.0, 0.25, 2.0};
    vp::section(vp::fmt("yield_normal_%d", D), vp::ipow(3, 2 * n), [n, N](u64 i) {
        Dec d(i); int c = vp::cell(i); V dev, st = gen(N, i % 5, 1); for(int j = 0; j < n; j++) dev.push_back(d.pick(A) * vp::sc()); for(int j = 0; j < n; j++) st[L<D>::bs + j] = d.pick(A) * vp::sc(); vp::input("stress " + vp::vec_str(dev) + " state " + vp::vec_str(st));
        double norm; V x = normal_ref<D>(dev, st, norm); if(!(norm > 0)) { vp::skip(); return; }
        auto ds = mv(n, c, dev), ls = mv(N, c, st), nv = mv(n, c, {}); Plato::ScalarVector nn("n", vp::NC); for(int a = 0; a < vp::NC; a++) nn(a) = POISON + a;
        J u; u.computeDeviatoricStressMinusBackstressNormalized(c, ds, ls, nv, nn); vp::calls(); cmp(nv, c, x, "normal"); vp::eq(nn(c), norm, "norm of the shifted stress"); for(int a = 0; a < vp::NC; a++) if(a != c) vp::check(nn(a) == POISON + a, "another cell was written");
        double q = 0; for(int j = 0; j < n; j++) q += L<D>::w(j) * nv(c, j) * nv(c, j); vp::eq(q, 1, "norm of the normal"); cmp(ds, c, dev, "stress (input)"); cmp(ls, c, st, "state (input)");
    });
    static const double DG[] = {0.0, 1e-6, 0.5, 2.0}, HM[] = {0.0, 1.5, 100.0};
    vp::section(vp::fmt("plastic_step_%d", D), vp::ipow(3, n) * 4 * 3 * 6, [n, N](u64 i) {
        Dec d(i); V nor; for(int j = 0; j < n; j++) nor.push_back(d.pick(A)); double dg = d.pick(DG), H = d.pick(HM); int k = d.take(6), c = vp::cell(i, k % 3); V prev = gen(N, k, 1), cur = gen(N, k + 3, 2); cur[1] = dg;
        vp::input(vp::fmt("dgamma %g H %g normal ", dg, H) + vp::vec_str(nor) + " previous " + vp::vec_str(prev)); auto p = mv(N, c, prev), s = mv(N, c, cur), nv = mv(n, c, nor), r = mv(N, c, {}); J u; V want = plastic_ref<D>(prev, cur, nor, H);
        // residuals of an arbitrary state are its distance to the updated one; after the update they vanish
        u.fillPlasticStrainTensorResidualPlasticStep(c, s, p, nv, r); u.fillBackstressTensorResidualPlasticStep(c, H, s, p, nv, r); V res(N, POISON); for(int j = 2; j < N; j++) res[j] = cur[j] - want[j]; cmp(r, c, res, "residual"); cmp(s, c, cur, "state (input)");
        u.updatePlasticStrainAndBackstressPlasticStep(c, p, nv, H, s); cmp(s, c, want, "state after a plastic step"); cmp(p, c, prev, "previous state (input)"); cmp(nv, c, nor, "normal (input)");
        auto r2 = mv(N, c, {}); u.fillPlasticStrainTensorResidualPlasticStep(c, s, p, nv, r2); u.fillBackstressTensorResidualPlasticStep(c, H, s, p, nv, r2); V zero(N, 0); zero[0] = zero[1] = POISON; cmp(r2, c, zero, "residual after the update"); vp::calls(5);
    });
    vp::section(vp::fmt("plastic_residual_split_%d", D), 6 * 2, [n, N](u64 i) { // each routine fills its own rows only
        Dec d(i); int k = d.take(6), c = vp::cell(i, k % 3); bool back = d.take(2), dummy = true; (void)dummy; V prev = gen(N, k, 1), cur = gen(N, k + 2, 1), nor = gen(n, k, 1); vp::input(vp::fmt("%s %d", back ? "back-stress" : "plastic strain", k)); auto p = mv(N, c, prev), s = mv(N, c, cur), nv = mv(n, c, nor), r = mv(N, c, {}), e = mv(N, c, {}); J u; V want = plastic_ref<D>(prev, cur, nor, 2.5);
        V a(N, POISON), b(N, POISON); int lo = back ? L<D>::bs : 2, hi = back ? N : L<D>::bs; for(int j = lo; j < hi; j++) { a[j] = cur[j] - want[j]; b[j] = cur[j] - prev[j]; }
        if(back) { u.fillBackstressTensorResidualPlasticStep(c, 2.5, s, p, nv, r); u.fillBackstressTensorResidualElasticStep(c, s, p, e); } else { u.fillPlasticStrainTensorResidualPlasticStep(c, s, p, nv, r); u.fillPlasticStrainTensorResidualElasticStep(c, s, p, e); }
        cmp(r, c, a, "plastic residual"); cmp(e, c, b, "elastic residual"); vp::calls(2);
    });
    vp::section(vp::fmt("elastic_step_%d", D), vp::ipow(3, n) * 3, [n, N](u64 i) {
        Dec d(i); int c = vp::cell(i, d.take(3)); V prev = gen(N, c, 1), cur = gen(N, c + 1, 2); for(int j = 0; j < n; j++) { prev[2 + j] = d.pick(A) * vp::sc(); prev[L<D>::bs + j] = 1 - 2 * prev[2 + j] + 0.1 * j; } vp::input("previous " + vp::vec_str(prev)); auto p = mv(N, c, prev), s = mv(N, c, cur), r = mv(N, c, {}); J u;
        u.fillPlasticStrainTensorResidualElasticStep(c, s, p, r); u.fillBackstressTensorResidualElasticStep(c, s, p, r); V res(N, POISON); for(int j = 2; j < N; j++) res[j] = cur[j] - prev[j]; cmp(r, c, res, "residual");
        u.updatePlasticStrainAndBackstressElasticStep(c, p, s); V want = prev; want[0] = cur[0]; want[1] = cur[1]; cmp(s, c, want, "state after an elastic step"); cmp(p, c, prev, "previous state (input)"); vp::calls(3);
    });
    vp::section(vp::fmt("unpack_%d", D), 3 * 8 * 32, [n, N](u64 i) {
        Dec d(i); int c = vp::cell(i, d.take(3)), k = d.take(8); V st = gen(N, k, 1), s2 = gen(N, k + 4, 3); vp::input("state " + vp::vec_str(st)); auto s = mv(N, c, st), t = mv(N, c, s2), e = mv(n, c, {}), b = mv(n, c, {}), m = mv(n, c, {}); Plato::ScalarVector a("a", vp::NC), g("g", vp::NC); J u;
        u.getAccumulatedPlasticStrain(c, s, a); u.getPlasticMultiplierIncrement(c, s, g); u.getPlasticStrainTensor(c, s, e); u.getBackstressTensor(c, s, b); u.computePlasticStrainMisfit(c, s, t, m); vp::calls(5); vp::eq(a(c), st[0], "accumulated plastic strain"); vp::eq(g(c), st[1], "plastic multiplier");
        V E(st.begin() + 2, st.begin() + 2 + n), B(st.begin() + 2 + n, st.end()), M; for(int j = 0; j < n; j++) M.push_back(st[2 + j] - s2[2 + j]); cmp(e, c, E, "plastic strain"); cmp(b, c, B, "back-stress"); cmp(m, c, M, "plastic strain misfit"); for(int x = 0; x < vp::NC; x++) if(x != c) vp::check(a(x) == 0 && g(x) == 0, "another cell was written"); cmp(s, c, st, "state (input)"); cmp(t, c, s2, "state (input)");
    });
    if(vp::sc() != 1) return;
    // histories of elastic and plastic steps: every step is done by the implementation (normal, update, residual) and by the reference
    static const double DEV2[3][4] = {{1, -0.5, 0.75, -0.5}, {-2, 1, 0, 1}, {0.5, 0.25, -1.5, -0.75}}, DEV3[3][6] = {{1, -0.5, -0.5, 0.75, 0, -1}, {-2, 1, 1, 0, 0.5, 0}, {0.5, 0.25, -0.75, -1.5, 1, 2}};
    int dep = vp::thorough() ? 7 : 5;
    for(int len = 1; len <= dep; len++)
        vp::section(vp::fmt("history_%d_%d", D, len), vp::ipow(7, len), [=](u64 i) {
            Dec d(i); V st(N, 0.0); auto prev = mv(N, 1, st), cur = mv(N, 1, st); J u; std::string in; const double H = 2.7;
            for(int k = 0; k < len; k++)
            {
                int op = d.take(7); V before = st; Kokkos::deep_copy(prev, cur);
                if(op == 0) { in += " elastic"; u.updatePlasticStrainAndBackstressElasticStep(1, prev, cur); }
                else
                {
                    int a = (op - 1) % 3; double dg = (op - 1) / 3 ? 0.5 : 0.125; V dev(n); for(int j = 0; j < n; j++) dev[j] = D == 2 ? DEV2[a][j % 4] : DEV3[a][j]; in += vp::fmt(" plastic(%d,%g)", a, dg);
                    auto ds = mv(n, 1, dev), nv = mv(n, 1, {}); Plato::ScalarVector nn("n", vp::NC); u.computeDeviatoricStressMinusBackstressNormalized(1, ds, prev, nv, nn); double norm; V x = normal_ref<D>(dev, before, norm); if(!(norm > 1e-6)) { vp::skip(); return; } cmp(nv, 1, x, "normal");
                    cur(1, 0) = before[0] + dg; cur(1, 1) = dg; u.updatePlasticStrainAndBackstressPlasticStep(1, prev, nv, H, cur); V c2 = before; c2[0] += dg; c2[1] = dg; st = plastic_ref<D>(before, c2, x, H);
                    auto r = mv(N, 1, {}); u.fillPlasticStrainTensorResidualPlasticStep(1, cur, prev, nv, r); u.fillBackstressTensorResidualPlasticStep(1, H, cur, prev, nv, r); V z(N, 0); z[0] = z[1] = POISON; cmp(r, 1, z, "residual after the update");
                }
                vp::calls(2); vp::input(in); cmp(cur, 1, st, "state"); V E(st.begin() + 2, st.begin() + 2 + n), B(st.begin() + 2 + n, st.end()); V ei = row(cur, 1), bi(ei.begin() + 2 + n, ei.end()); ei = V(ei.begin() + 2, ei.begin() + 2 + n); vp::eq(L<D>::tr(ei), 0, "trace of the plastic strain", 1e-9, 1e-10); vp::eq(L<D>::tr(bi), 0, "trace of the back-stress", 1e-9, 1e-10);
            }
        });
}
template<int D, typename Phys, bool Thermal> static void elastic(const char* name)
{
    const int n = L<D>::n, N = L<D>::N; static const double A[] = {-1.0, 0.25, 2.0}, AL[] = {0.0, 0.01}, TR[] = {0.0, 20.0}, SC[] = {1.0, 2.5};
    vp::section(vp::fmt("elastic_strain_%s_%d", name, D), vp::ipow(3, n) * 8 * 5, [=](u64 i) {
        Dec d(i); V tot; for(int j = 0; j < n; j++) tot.push_back(d.pick(A) * vp::sc()); double al = d.pick(AL), tr = d.pick(TR), sc = d.pick(SC); int k = d.take(5), c = vp::cell(i, k % 3); V st = gen(N, k, 1);
        const int nn = Phys::mNumNodesPerCell, nd = Phys::mNumDofsPerNode; V g = gen(nn * nd, k + 1, 10); Plato::ScalarVector bf("bf", nn); double T = 0, tot_w = 0; for(int a = 0; a < nn; a++) { bf(a) = (k == 0) ? 1.0 / nn : (a + 1.0 + k % 2); tot_w += bf(a); } for(int a = 0; a < nn; a++) { bf(a) /= tot_w; if(Thermal) T += bf(a) * g[a * nd + D]; }
        vp::input(vp::fmt("alpha %g Tref %g scale %g strain ", al, tr, sc) + vp::vec_str(tot) + " state " + vp::vec_str(st)); auto G = mv(nn * nd, c, g), S = mv(N, c, st), E = mv(n, c, tot), O = mv(n, c, {}); Plato::ThermoPlasticityUtilities<D, Phys> u(al, tr, sc); u.computeElasticStrain(c, G, S, bf, E, O); vp::calls();
        V want; for(int j = 0; j < n; j++) want.push_back(tot[j] - st[2 + j] - (Thermal && !L<D>::shear(j) ? al * (T * sc - tr) : 0)); cmp(O, c, want, "elastic strain"); cmp(G, c, g, "global state (input)"); cmp(S, c, st, "local state (input)"); cmp(E, c, tot, "total strain (input)");
    });
    vp::section(vp::fmt("elastic_strain_default_%s_%d", name, D), 4, [=](u64 i) { // defaults: no expansion, no reference temperature, no scaling
        const int nn = Phys::mNumNodesPerCell, nd = Phys::mNumDofsPerNode; V g = gen(nn * nd, i, 10), st = gen(N, i, 1), tot = gen(n, i + 2, 1); Plato::ScalarVector bf("bf", nn); double T = 0; for(int a = 0; a < nn; a++) { bf(a) = 1.0 / nn; if(Thermal) T += bf(a) * g[a * nd + D]; } auto G = mv(nn * nd, 1, g), S = mv(N, 1, st), E = mv(n, 1, tot), O = mv(n, 1, {}); double al = i & 1 ? 0.5 : 0.0; vp::input(vp::fmt("defaults %d", (int)i));
        if(i & 1) { Plato::ThermoPlasticityUtilities<D, Phys> u(al); u.computeElasticStrain(1, G, S, bf, E, O); } else { Plato::ThermoPlasticityUtilities<D, Phys> u; u.computeElasticStrain(1, G, S, bf, E, O); } vp::calls(); V want; for(int j = 0; j < n; j++) want.push_back(tot[j] - st[2 + j] - (Thermal && !L<D>::shear(j) ? al * T : 0)); cmp(O, 1, want, "elastic strain");
    });
}
void vp::explore()
{
    vp::mixed() = true; vp::sweep({1, 1e-6, 1e6}, [] {
    updates<2>(); updates<3>();
    elastic<2, Plato::SimplexPlasticity<2>, false>("plastic"); elastic<3, Plato::SimplexPlasticity<3>, false>("plastic");
    elastic<2, Plato::SimplexThermoPlasticity<2>, true>("thermoplastic"); elastic<3, Plato::SimplexThermoPlasticity<3>, true>("thermoplastic");
    });
}
