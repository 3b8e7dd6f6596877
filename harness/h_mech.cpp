// P13 (time integrators), P15 (stress, strain split, elastic work), P16 (tensor invariants).
#include "vpk.hpp"
#include <Sacado.hpp>
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeElasticWork.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "IsotropicMaterialUtilities.hpp"
#include "Eigenvalues.hpp"
#include "VonMisesYieldFunction.hpp"
#include "TensileEnergyDensity.hpp"
using vp::Dec; using vp::u64;
typedef std::vector<double> V;
typedef Teuchos::ParameterList PL;

#if VP_PROP == 13
static const double DT[] = {1e-6, 0.1, 0.5, 2.0}, GAM[] = {0.5, 0.6, 1.0, 0.25}, BET[] = {0.25, 1.0 / 6, 0.5, 0.3025, 1.0}, ALP[] = {0.5, 1.0, 0.25, 2.0 / 3}, ST[] = {-1.5, 0.0, 2.0};
struct S3 { double u, v, a; };
static S3 newmark(const S3& p, double a, double dt, double g, double b) { return {p.u + dt * p.v + dt * dt / 2 * ((1 - 2 * b) * p.a + 2 * b * a), p.v + dt * ((1 - g) * p.a + g * a), a}; }
struct Vecs { Plato::ScalarVector u, up, v, vp_, a, ap; };
static Vecs vecs(const std::vector<S3>& n, const std::vector<S3>& p)
{
    V x[6]; for(size_t i = 0; i < n.size(); i++) { x[0].push_back(n[i].u); x[1].push_back(p[i].u); x[2].push_back(n[i].v); x[3].push_back(p[i].v); x[4].push_back(n[i].a); x[5].push_back(p[i].a); }
    return {vp::sv(x[0]), vp::sv(x[1]), vp::sv(x[2]), vp::sv(x[3]), vp::sv(x[4]), vp::sv(x[5])};
}
static PL nlist(double g, double b) { PL p; p.set<double>("Newmark Gamma", g); p.set<double>("Newmark Beta", b); return p; }
static void cmp(const Plato::ScalarVector& r, const V& want, double scale, const char* what) { vp::calls(); vp::eqi(r.size(), want.size(), "length"); for(size_t i = 0; i < want.size(); i++) vp::eq(r(i), want[i], what, 1e-9, 1e-11 * (1 + scale)); }
static void kept(const Vecs& w, const std::vector<S3>& n, const std::vector<S3>& p) { for(size_t i = 0; i < n.size(); i++) vp::check(w.u(i) == n[i].u && w.v(i) == n[i].v && w.a(i) == n[i].a && w.up(i) == p[i].u && w.vp_(i) == p[i].v && w.ap(i) == p[i].a, "an input vector was modified"); }
static void newmark_step()
{
    // all parameters x step sizes x previous states x new accelerations; three-entry vectors whose entries differ
    const u64 per = 3 * 3 * 3 * 3;
    vp::section("newmark_step", 4 * 5 * 4 * per, [](u64 i) {
        Dec d(i); double g = d.pick(GAM), b = d.pick(BET), dt = d.pick(DT); u64 k = d.v; std::vector<S3> p, n;
        for(int e = 0; e < 3; e++) { Dec q((k + 29 * e) % (3 * 3 * 3 * 3)); S3 s = {q.pick(ST), q.pick(ST), q.pick(ST)}; p.push_back(s); n.push_back(newmark(s, q.pick(ST), dt, g, b)); }
        vp::input(vp::fmt("gamma %g beta %g dt %g prev (%g,%g,%g) a %g", g, b, dt, p[0].u, p[0].v, p[0].a, n[0].a));
        PL l = nlist(g, b); Plato::NewmarkIntegrator<int> I(l); Vecs w = vecs(n, p);
        double s = 1 / (b * dt * dt) * 5;
        cmp(I.v_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt), V(3, 0), s * g * dt, "velocity residual at the update");
        cmp(I.a_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt), V(3, 0), s, "acceleration residual at the update"); kept(w, n, p);
        // away from the update the residual is the distance to it
        for(auto& x : n) { x.v += 0.75; x.a -= 1.25; } w = vecs(n, p);
        cmp(I.v_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt), V(3, 0.75), s * g * dt, "velocity residual"); cmp(I.a_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt), V(3, -1.25), s, "acceleration residual");
    });
    vp::section("newmark_gradients", 4 * 5 * 4 * 2, [](u64 i) {
        Dec d(i); double g = d.pick(GAM), b = d.pick(BET), dt = d.pick(DT); bool other = d.take(2);
        vp::input(vp::fmt("gamma %g beta %g dt %g", g, b, dt)); PL l = nlist(g, b); Plato::NewmarkIntegrator<int> I(l);
        std::vector<S3> p = {{0, 0, 0}}, n = {{0, 0, 0}}; if(other) { p[0] = {1, 2, -3}; n[0] = {-2, 1, 0.5}; }
        auto R = [&](int which, int var, double h) { auto P = p, N = n; double* x[] = {&N[0].u, &P[0].u, &N[0].v, &P[0].v, &N[0].a, &P[0].a}; *x[var] += h; Vecs w = vecs(N, P); vp::calls(); auto r = which ? I.a_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt) : I.v_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt); return r(0); };
        double s = 1 / (b * dt * dt);
        auto D = [&](int which, int var, double got, const char* what) { vp::calls(); double fd = (R(which, var, 2) - R(which, var, -2)) / 4; vp::eq(got, fd, what, 1e-8, 1e-10 * (1 + s * (which ? 1 : g * dt))); };
        D(0, 0, I.v_grad_u(dt), "dRv/du"); D(0, 1, I.v_grad_u_prev(dt), "dRv/du_prev"); D(0, 2, 1, "dRv/dv"); D(0, 3, I.v_grad_v_prev(dt), "dRv/dv_prev"); D(0, 4, 0, "dRv/da"); D(0, 5, I.v_grad_a_prev(dt), "dRv/da_prev");
        D(1, 0, I.a_grad_u(dt), "dRa/du"); D(1, 1, I.a_grad_u_prev(dt), "dRa/du_prev"); D(1, 2, 0, "dRa/dv"); D(1, 3, I.a_grad_v_prev(dt), "dRa/dv_prev"); D(1, 4, 1, "dRa/da"); D(1, 5, I.a_grad_a_prev(dt), "dRa/da_prev");
        // the reported numbers themselves
        vp::eq(I.v_grad_u(dt), -g / (b * dt), "v_grad_u"); vp::eq(I.v_grad_u_prev(dt), g / (b * dt), "v_grad_u_prev"); vp::eq(I.v_grad_v_prev(dt), g / b - 1, "v_grad_v_prev", 1e-9, 1e-12); vp::eq(I.v_grad_a_prev(dt), (g / (2 * b) - 1) * dt, "v_grad_a_prev", 1e-9, 1e-15);
        vp::eq(I.a_grad_u(dt), -1 / (b * dt * dt), "a_grad_u"); vp::eq(I.a_grad_u_prev(dt), 1 / (b * dt * dt), "a_grad_u_prev"); vp::eq(I.a_grad_v_prev(dt), 1 / (b * dt), "a_grad_v_prev"); vp::eq(I.a_grad_a_prev(dt), 1 / (2 * b) - 1, "a_grad_a_prev", 1e-9, 1e-12);
    });
    // every history of accelerations and step sizes up to the depth: marching by the implementation's own residuals follows the exact solution
    int dep = vp::thorough() ? 6 : 4;
    for(int n = 1; n <= dep; n++)
        vp::section(vp::fmt("newmark_history_%d", n), 3 * 3 * vp::ipow(3 * 2, n), [n](u64 i) {
            static const double P3[3][2] = {{0.5, 0.25}, {0.6, 0.3025}, {0.5, 1.0 / 6}}, D2[] = {0.1, 0.5}, A[] = {-1.0, 0.0, 2.0};
            Dec d(i); auto& q = P3[d.take(3)]; double g = q[0], b = q[1]; PL l = nlist(g, b); Plato::NewmarkIntegrator<int> I(l);
            static const S3 S0[] = {{0, 0, 0}, {1, -2, 0.5}, {-1, 0.5, 2}}; S3 s = S0[d.take(3)]; std::string in = vp::fmt("gamma %g beta %g from (%g,%g,%g)", g, b, s.u, s.v, s.a);
            S3 imp = s; // marched with the implementation: new v and a from its residuals evaluated at v=a=0
            bool constant = true; double u0 = s.u, v0 = s.v, a0 = s.a, t = 0;
            for(int k = 0; k < n; k++)
            {
                double dt = d.pick(D2), a = d.pick(A); in += vp::fmt(" a=%g dt=%g", a, dt); vp::input(in);
                S3 r = newmark(s, a, dt, g, b); Vecs w = vecs({{r.u, 0, 0}}, {imp}); vp::calls(2);
                S3 m = {r.u, -I.v_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt)(0), -I.a_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt)(0)};
                vp::eq(m.v, r.v, "velocity after the step", 1e-8, 1e-8); vp::eq(m.a, r.a, "acceleration after the step", 1e-8, 1e-8);
                imp = m; s = r; t += dt; if(a != a0) constant = false;
                if(constant) { vp::eq(imp.v, v0 + a0 * t, "constant acceleration: velocity", 1e-8, 1e-8); vp::eq(r.u, u0 + v0 * t + a0 * t * t / 2, "constant acceleration: displacement", 1e-8, 1e-8); }
            }
        });
    vp::section("newmark_parameters", 4, [](u64 i) { PL p; if(i & 1) p.set<double>("Newmark Gamma", 0.5); if(i & 2) p.set<double>("Newmark Beta", 0.25); vp::input(vp::fmt("given %d", (int)i)); vp::calls(); bool t = vp::throws([&] { Plato::NewmarkIntegrator<int> I(p); }); vp::eqi(t, i != 3, "a missing integration parameter is an error"); });
}
static void trapezoid()
{
    vp::section("trapezoid_step", 5 * 4 * 27, [](u64 i) {
        Dec d(i); int ai = d.take(5); double al = ai < 4 ? ALP[ai] : 0.5, dt = d.pick(DT); u64 k = d.v; PL l; if(ai < 4) l.set<double>("Trapezoid Alpha", al); // the last one takes the default
        Plato::Parabolic::TrapezoidIntegrator<int> I(l); V u, up, v, vp_;
        for(int e = 0; e < 3; e++) { Dec q((k + 10 * e) % 27); double a = q.pick(ST), b = q.pick(ST), c = q.pick(ST); up.push_back(a); vp_.push_back(b); v.push_back(c); u.push_back(a + dt * ((1 - al) * b + al * c)); }
        vp::input(vp::fmt("alpha %g dt %g u_prev %g v_prev %g v %g", al, dt, up[0], vp_[0], v[0])); double s = 5 / (al * dt);
        auto U = vp::sv(u), UP = vp::sv(up), W = vp::sv(v), WP = vp::sv(vp_); cmp(I.v_value(U, UP, W, WP, dt), V(3, 0), s, "velocity residual at the update");
        for(int e = 0; e < 3; e++) vp::check(U(e) == u[e] && UP(e) == up[e] && W(e) == v[e] && WP(e) == vp_[e], "an input vector was modified");
        for(auto& x : v) x += 0.75; cmp(I.v_value(U, UP, vp::sv(v), WP, dt), V(3, 0.75), s, "velocity residual");
        vp::eq(I.v_grad_u(dt), -1 / (al * dt), "v_grad_u"); vp::eq(I.v_grad_u_prev(dt), 1 / (al * dt), "v_grad_u_prev"); vp::eq(I.v_grad_v_prev(dt), (1 - al) / al, "v_grad_v_prev", 1e-9, 1e-12);
        auto R = [&](double a, double b, double c) { vp::calls(); return I.v_value(vp::sv({u[0] + a}), vp::sv({up[0] + b}), vp::sv({v[0]}), vp::sv({vp_[0] + c}), dt)(0); };
        double tol = 1e-10 * (1 + s); vp::eq((R(2, 0, 0) - R(-2, 0, 0)) / 4, I.v_grad_u(dt), "dR/du", 1e-8, tol); vp::eq((R(0, 2, 0) - R(0, -2, 0)) / 4, I.v_grad_u_prev(dt), "dR/du_prev", 1e-8, tol); vp::eq((R(0, 0, 2) - R(0, 0, -2)) / 4, I.v_grad_v_prev(dt), "dR/dv_prev", 1e-8, tol);
    });
    int dep = vp::thorough() ? 6 : 4;
    for(int n = 1; n <= dep; n++)
        vp::section(vp::fmt("trapezoid_history_%d", n), 3 * 3 * vp::ipow(6, n), [n](u64 i) {
            static const double A3[] = {0.5, 1.0, 2.0 / 3}, D2[] = {0.1, 0.5}, W[] = {-1.0, 0.0, 2.0}, S0[3][2] = {{0, 0}, {1, 2}, {-1, -1}};
            Dec d(i); double al = d.pick(A3); auto& s = S0[d.take(3)]; double u = s[0], v = s[1]; PL l; l.set<double>("Trapezoid Alpha", al); Plato::Parabolic::TrapezoidIntegrator<int> I(l); std::string in = vp::fmt("alpha %g from (%g,%g)", al, u, v);
            for(int k = 0; k < n; k++)
            {
                double dt = d.pick(D2), w = d.pick(W), un = u + dt * ((1 - al) * v + al * w); in += vp::fmt(" v=%g dt=%g", w, dt); vp::input(in); vp::calls();
                double m = -I.v_value(vp::sv({un}), vp::sv({u}), vp::sv({0}), vp::sv({v}), dt)(0); vp::eq(m, w, "rate after the step", 1e-8, 1e-8); u = un; v = m;
            }
        });
}
// magnitudes of state and step size and the length of the vectors: displacements in units of s dt^2, velocities in s dt, accelerations in s
static void scaled()
{
    static const double DTS[] = {1e-7, 1e-4, 0.01, 1.0, 30.0, 1e4}, SS[] = {1.0, 1e-8, 1e8}, X[] = {-1.5, 0.25, 0.0, 2.0, -0.75, 1.0, 3.5};
    vp::section("scaled_steps", 4 * 5 * 6 * 3 * 2, [=](u64 i) {
        Dec d(i); double g = d.pick(GAM), b = d.pick(BET), dt = d.pick(DTS), S = d.pick(SS); int N = d.take(2) ? 700 : 1 + (int)(i % 40); std::vector<S3> p, n; V wv, wa;
        for(int e = 0; e < N; e++)
        {
            S3 a = {X[e % 7] * S * dt * dt, X[(3 * e + 1) % 7] * S * dt, X[(e / 7 + 2) % 7] * S}; S3 r = newmark(a, X[(5 * e + 3) % 7] * S, dt, g, b); double ev = X[(e + 4) % 7] * S * dt, ea = X[(2 * e + 5) % 7] * S, eu = X[(e / 3) % 7] * S * dt * dt;
            r.u += eu; r.v += ev; r.a += ea; p.push_back(a); n.push_back(r); wv.push_back(ev - g / (b * dt) * eu); wa.push_back(ea - eu / (b * dt * dt));
        }
        vp::input(vp::fmt("gamma %g beta %g dt %g magnitude %g length %d", g, b, dt, S, N)); PL l = nlist(g, b); Plato::NewmarkIntegrator<int> I(l); Vecs w = vecs(n, p); vp::calls(2);
        auto rv = I.v_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt), ra = I.a_value(w.u, w.up, w.v, w.vp_, w.a, w.ap, dt); vp::eqi(rv.size(), N, "length"); vp::eqi(ra.size(), N, "length");
        for(int e = 0; e < N; e++) { vp::eq(rv(e), wv[e], "velocity residual", 1e-9, 1e-10 * S * dt); vp::eq(ra(e), wa[e], "acceleration residual", 1e-9, 1e-10 * S); } kept(w, n, p);
    });
    vp::section("scaled_rates", 4 * 6 * 3 * 2, [=](u64 i) {
        Dec d(i); double al = d.pick(ALP), dt = d.pick(DTS), S = d.pick(SS); int N = d.take(2) ? 700 : 1 + (int)(i % 40); PL l; l.set<double>("Trapezoid Alpha", al); Plato::Parabolic::TrapezoidIntegrator<int> I(l); V u, up, v, vq, w;
        for(int e = 0; e < N; e++) { double a = X[e % 7] * S * dt, b = X[(3 * e + 1) % 7] * S, c = X[(e / 7 + 2) % 7] * S, ev = X[(e + 4) % 7] * S, eu = X[(e / 3) % 7] * S * dt; up.push_back(a); vq.push_back(b); v.push_back(c + ev); u.push_back(a + dt * ((1 - al) * b + al * c) + eu); w.push_back(ev - eu / (al * dt)); }
        vp::input(vp::fmt("alpha %g dt %g magnitude %g length %d", al, dt, S, N)); vp::calls(); auto r = I.v_value(vp::sv(u), vp::sv(up), vp::sv(v), vp::sv(vq), dt); vp::eqi(r.size(), N, "length");
        for(int e = 0; e < N; e++) vp::eq(r(e), w[e], "velocity residual", 1e-9, 1e-10 * S);
        vp::eq(I.v_grad_u(dt), -1 / (al * dt), "v_grad_u", 1e-12, 0); vp::eq(I.v_grad_u_prev(dt), 1 / (al * dt), "v_grad_u_prev", 1e-12, 0); vp::eq(I.v_grad_v_prev(dt), (1 - al) / al, "v_grad_v_prev", 1e-9, 1e-12);
    });
}
void vp::explore() { newmark_step(); trapezoid(); scaled(); }
#endif

#if VP_PROP == 15
template<int D> struct Voigt { static const int n = D == 1 ? 1 : D == 2 ? 4 : 6; };
// symmetric tensor of a Voigt vector; the shear entries are multiplied by f
struct T3 { double a[3][3]; double tr() const { return a[0][0] + a[1][1] + a[2][2]; } };
static T3 tens(int D, const V& v, double f)
{
    T3 t{}; auto S = [&](int i, int j, double x) { t.a[i][j] = t.a[j][i] = x; };
    if(D == 1) S(0, 0, v[0]); if(D == 2) { S(0, 0, v[0]); S(1, 1, v[1]); S(0, 1, f * v[2]); S(2, 2, v[3]); } if(D == 3) { S(0, 0, v[0]); S(1, 1, v[1]); S(2, 2, v[2]); S(1, 2, f * v[3]); S(0, 2, f * v[4]); S(0, 1, f * v[5]); } return t;
}
static V unten(int D, const T3& t, double f)
{
    if(D == 1) return {t.a[0][0]}; if(D == 2) return {t.a[0][0], t.a[1][1], f * t.a[0][1], t.a[2][2]}; return {t.a[0][0], t.a[1][1], t.a[2][2], f * t.a[1][2], f * t.a[0][2], f * t.a[0][1]};
}
static T3 lin(const T3& x, double a, double sph) { T3 r; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) r.a[i][j] = a * x.a[i][j] + (i == j ? sph : 0); return r; }
static double ddot(const T3& x, const T3& y) { double s = 0; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) s += x.a[i][j] * y.a[i][j]; return s; }
static const double AL[] = {-1.0, 0.0, 0.5, 2.0}, MOD[][2] = {{25, 3}, {1.5, 0.5}, {0, 2}, {7, 0}, {1e9, 4e8}};
static const double POISON = 777.25;
// Cells 0..2; only cell `c` is evaluated: the others keep the poison
template<int D> struct Work
{
    static const int n = Voigt<D>::n; Plato::ScalarMultiVector in, out; Plato::ScalarVector s; int c; V e;
    Work(u64& k, int cell) : in("in", vp::NC, n), out("out", vp::NC, n), s("s", vp::NC), c(cell) { Dec d(k); for(int j = 0; j < n; j++) e.push_back(d.pick(AL) * vp::sc()); k = d.v; for(int a = 0; a < vp::NC; a++) { s(a) = POISON; for(int j = 0; j < n; j++) { in(a, j) = a == c ? e[j] : 13.0 + a + j; out(a, j) = POISON; } } }
    void others() { for(int a = 0; a < vp::NC; a++) for(int j = 0; j < n; j++) { vp::check(in(a, j) == (a == c ? e[j] : 13.0 + a + j), "an input entry was modified"); if(a != c) vp::check(out(a, j) == POISON, "another cell was written"); } }
    V got() { V r; for(int j = 0; j < n; j++) r.push_back(out(c, j)); return r; }
};
static bool same(const V& a, const V& b, double sc) { for(size_t i = 0; i < a.size(); i++) if(!vp::near(a[i], b[i], 1e-9, 1e-11 * (1 + sc))) return false; return true; }
static void cmpv(const V& got, const V& want, const char* what, double sc) { for(size_t i = 0; i < got.size(); i++) vp::eq(got[i], want[i], vp::fmt("%s component %d", what, (int)i).c_str(), 1e-9, 1e-11 * (1 + sc)); }
template<int D> static void dim()
{
    const u64 N = vp::ipow(4, Voigt<D>::n);
    vp::section(vp::fmt("cauchy_stress_%d", D), N * 5 * 3 * (D == 1 ? 32 : 1), [N](u64 i) {
        u64 k = i / 3 % (N * 5); Work<D> w(k, vp::cell(i)); double K = MOD[k][0], G = MOD[k][1]; vp::input(vp::fmt("K %g G %g strain ", K, G) + vp::vec_str(w.e)); Plato::ComputeCauchyStress<D> f; f(w.c, K, G, w.in, w.out); vp::calls(); w.others();
        T3 e = tens(D, w.e, 0.5); double tr = e.tr(), lam = K - 2 * G / 3; V law = unten(D, lin(e, 2 * G, lam * tr), 1), got = w.got(); double sc = 4 * (K + G);
        if(!same(got, law, sc))
        {
            // recorded defects: both are fixed by the unit tests' expected values (see known_findings.txt)
            if(D == 3) { double t2 = w.e[0] + w.e[1] + w.e[3]; V q = unten(D, lin(e, 2 * G, lam * t2), 1); if(same(got, q, sc)) { vp::known("cauchy3d-trace", "3-D Cauchy stress uses strain component 3 (a shear) instead of 2 in the trace"); return; } }
            if(D == 1) { V q = {2 * G * (w.e[0] - tr / 3) + K * tr / 3}; if(same(got, q, sc)) { vp::known("cauchy1d-bulk", "1-D Cauchy stress adds K*trace/3 instead of K*trace"); return; } }
        }
        cmpv(got, law, "Cauchy stress", sc);
    });
    vp::section(vp::fmt("deviatoric_stress_%d", D), N * 5 * 3 * (D == 1 ? 32 : 1), [N](u64 i) {
        u64 k = i / 3 % (N * 5); Work<D> w(k, vp::cell(i)); double G = MOD[k][1]; vp::input(vp::fmt("G %g strain ", G) + vp::vec_str(w.e)); Plato::ComputeDeviatoricStress<D> f; f(w.c, G, w.in, w.out); vp::calls(); w.others();
        T3 e = tens(D, w.e, 0.5); cmpv(w.got(), unten(D, lin(e, 2 * G, -2 * G * e.tr() / 3), 1), "deviatoric stress", 4 * G); if(D > 1) vp::eq(tens(D, w.got(), 1).tr(), 0, "trace of the deviatoric stress", 1e-9, 1e-10 * (1 + G));
    });
    vp::section(vp::fmt("deviatoric_strain_%d", D), N * 3 * (D == 3 ? 1 : 32), [N](u64 i) {
        u64 k = i / 3 % N; Work<D> w(k, vp::cell(i)); vp::input("strain " + vp::vec_str(w.e)); Plato::ComputeDeviatoricStrain<D> f; f(w.c, w.in, w.out); vp::calls(); w.others();
        T3 e = tens(D, w.e, 1); cmpv(w.got(), unten(D, lin(e, 1, -e.tr() / 3), 1), "deviatoric strain", 4); if(D > 1) vp::eq(tens(D, w.got(), 1).tr(), 0, "trace of the deviatoric strain");
    });
    vp::section(vp::fmt("elastic_work_%d", D), N * 5 * 3 * (D == 1 ? 32 : 1), [N](u64 i) {
        u64 k = i / 3 % (N * 5); Work<D> w(k, vp::cell(i)); double K = MOD[k][0], G = MOD[k][1]; vp::input(vp::fmt("K %g G %g strain ", K, G) + vp::vec_str(w.e));
        vp::degree(2); T3 e = tens(D, w.e, 1), dv = lin(e, 1, -e.tr() / 3); V dev = unten(D, dv, 1); for(int j = 0; j < Work<D>::n; j++) w.out(w.c, j) = dev[j];
        Plato::ComputeElasticWork<D> f; f(w.c, G, K, w.in, w.out, w.s); vp::calls(); w.others(); for(int a = 0; a < vp::NC; a++) if(a != w.c) vp::check(w.s(a) == POISON, "another cell was written"); cmpv(w.got(), dev, "deviatoric strain (input)", 0);
        double want = D == 1 ? G * dev[0] * dev[0] + K / 2 * w.e[0] * w.e[0] : 0.5 * ddot(lin(e, 2 * G, (K - 2 * G / 3) * e.tr()), e);
        vp::eq(w.s(w.c), want, "elastic work", 1e-9, 1e-9 * (1 + K + G)); vp::check(w.s(w.c) >= -1e-9 * (1 + K + G) * vp::unit(), "negative elastic work %g", w.s(w.c));
    });
    vp::section(vp::fmt("double_dot_%d", D), vp::ipow(3, 2 * Voigt<D>::n) * (D == 1 ? 64 : 1), [](u64 i) {
        const int n = Voigt<D>::n; static const double A3[] = {-1.0, 0.5, 2.0}; Dec d(i); V a, b; for(int j = 0; j < n; j++) a.push_back(d.pick(A3) * vp::sc()); for(int j = 0; j < n; j++) b.push_back(d.pick(A3) * vp::sc()); vp::degree(2);
        vp::input(vp::vec_str(a) + vp::vec_str(b)); const int c = vp::cell(i, 1); static Plato::ScalarMultiVector A("a", 1002, n), B("b", 1002, n); static Plato::ScalarVector o("o", 1002); for(int j = 0; j < n; j++) { A(c, j) = a[j]; B(c, j) = b[j]; A(c - 1, j) = 9; B(c - 1, j) = 9; } o(c - 1) = o(c) = POISON;
        Plato::DoubleDotProduct2ndOrderTensor<D> f; f(c, A, B, o); vp::calls(); vp::eq(o(c), ddot(tens(D, a, 1), tens(D, b, 1)), "double contraction"); vp::check(o(c - 1) == POISON, "another cell was written");
    });
}
static void moduli()
{
    static const double E[] = {1e-3, 1.0, 200e9, 3.5}, NU[] = {0.0, 0.3, 0.499, -0.5, 0.25};
    vp::section("moduli", 4 * 5, [](u64 i) {
        Dec d(i); double e = d.pick(E), n = d.pick(NU); vp::input(vp::fmt("E %g nu %g", e, n)); vp::calls(4); double K = Plato::compute_bulk_modulus(e, n), G = Plato::compute_shear_modulus(e, n);
        vp::eq(G, e / (2 * (1 + n)), "shear modulus"); vp::eq(K, e / (3 * (1 - 2 * n)), "bulk modulus"); vp::eq(9 * K * G / (3 * K + G), e, "Young's modulus from K and G"); vp::eq((3 * K - 2 * G) / (2 * (3 * K + G)), n, "Poisson's ratio from K and G", 1e-9, 1e-9);
        PL p; p.sublist("Material Model").sublist("Isotropic Linear Elastic").set<double>("Youngs Modulus", e).set<double>("Poissons Ratio", n); vp::eq(Plato::compute_bulk_modulus(p), K, "bulk modulus from a list"); vp::eq(Plato::compute_shear_modulus(p), G, "shear modulus from a list");
        auto l = p.sublist("Material Model").sublist("Isotropic Linear Elastic"); vp::eq(Plato::parse_elastic_modulus(l), e, "Young's modulus"); vp::eq(Plato::parse_poissons_ratio(l), n, "Poisson's ratio");
    });
    vp::section("moduli_presence", 16, [](u64 i) {
        vp::input(vp::fmt("material %d sublist %d E %d nu %d", (int)(i & 1), (int)(i >> 1 & 1), (int)(i >> 2 & 1), (int)(i >> 3 & 1))); PL p, q; if(i & 4) q.set<double>("Youngs Modulus", 2.0); if(i & 8) q.set<double>("Poissons Ratio", 0.25);
        if(i & 1) { p.sublist("Material Model"); if(i & 2) p.sublist("Material Model").set("Isotropic Linear Elastic", q); else p.sublist("Material Model").set("Another Model", q); } vp::calls(4);
        bool ok = i == 15; vp::eqi(vp::throws([&] { vp::eq(Plato::compute_bulk_modulus(p), 2.0 / 1.5, "bulk"); }), !ok, "bulk modulus rejected"); vp::eqi(vp::throws([&] { vp::eq(Plato::compute_shear_modulus(p), 0.8, "shear"); }), !ok, "shear modulus rejected");
        vp::eqi(vp::throws([&] { Plato::parse_elastic_modulus(q); }), !(i & 4), "Young's modulus rejected"); vp::eqi(vp::throws([&] { Plato::parse_poissons_ratio(q); }), !(i & 8), "Poisson's ratio rejected");
    });
}
void vp::explore() { vp::sweep({1, 1.0371, 1e-7, 1e6}, [] { dim<1>(); dim<2>(); dim<3>(); }); moduli(); }
#endif

#if VP_PROP == 16
static const double POISON = 777.25;
// eigenvalues of a symmetric 3x3 matrix, by the characteristic polynomial and two Newton polishings, independent of the implementation's rotations
static V eig3(const double a[3][3])
{
    double q = (a[0][0] + a[1][1] + a[2][2]) / 3, p1 = a[0][1] * a[0][1] + a[0][2] * a[0][2] + a[1][2] * a[1][2], p2 = 2 * p1; for(int i = 0; i < 3; i++) p2 += (a[i][i] - q) * (a[i][i] - q);
    if(p2 == 0) return {q, q, q};
    double p = std::sqrt(p2 / 6), b[3][3]; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) b[i][j] = (a[i][j] - (i == j ? q : 0)) / p;
    double r = (b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0])) / 2;
    double ph = std::acos(std::max(-1.0, std::min(1.0, r))) / 3; V e = {q + 2 * p * std::cos(ph), 0, q + 2 * p * std::cos(ph + 2 * M_PI / 3)}; e[1] = 3 * q - e[0] - e[2]; std::sort(e.begin(), e.end()); return e;
}
static double worst6 = 0;
static void eigen()
{
    static const double A[] = {-2.0, -0.5, 0.0, 1.0, 3.0}; static const int IT[] = {6, 12, 20};
    const int na = vp::thorough() ? 5 : 4;
    vp::section("eigenvalues_3d", vp::ipow(na, 6) * 2 * 3, [na](u64 i) {
        Dec d(i); const int c = vp::cell(i, 1); bool strain = d.take(2); int it = d.pick(IT); Plato::ScalarMultiVector v("v", vp::NC, 6), e("e", vp::NC, 3); V x; for(int j = 0; j < 6; j++) { x.push_back(A[d.take(na)] * vp::sc()); v(c, j) = x[j]; v(0, j) = 5; } for(int j = 0; j < 3; j++) e(0, j) = e(c, j) = POISON;
        vp::input(vp::fmt("%s, %d iterations ", strain ? "strain" : "stress", it) + vp::vec_str(x)); Plato::Eigenvalues<3> f; if(it != 6) f.setNumFixedIterations(it); f(c, v, e, strain); vp::calls();
        double s = strain ? 0.5 : 1, a[3][3] = {{x[0], s * x[5], s * x[4]}, {s * x[5], x[1], s * x[3]}, {s * x[4], s * x[3], x[2]}}; V w = eig3(a), g = {e(c, 0), e(c, 1), e(c, 2)}; std::sort(g.begin(), g.end());
        vp::eq(g[0] + g[1] + g[2], x[0] + x[1] + x[2], "sum of the eigenvalues"); for(int j = 0; j < 3; j++) { if(it == 6) worst6 = std::max(worst6, std::fabs(g[j] - w[j])); vp::eq(g[j], w[j], "eigenvalue", 0, it == 6 ? 1e-4 : 1e-7); } // see DESIGN: six rotations, the default, leave an error; more do not
        for(int j = 0; j < 3; j++) vp::check(e(0, j) == POISON, "another cell was written"); for(int j = 0; j < 6; j++) vp::check(v(c, j) == x[j], "the tensor was modified");
    });
    if(getenv("VP_KEEP_STDOUT")) printf("largest error after six rotations: %g\n", worst6);
    static const double B[] = {-3.0, -1.0, -0.5, -1e-9, 0.0, 1e-9, 0.25, 1.0, 1.6, 4.0};
    vp::section("eigenvalues_2d", 10 * 10 * 10 * 2, [](u64 i) {
        Dec d(i); const int c = vp::cell(i, 1); bool strain = d.take(2); Plato::ScalarMultiVector v("v", vp::NC, 3), e("e", vp::NC, 2); V x; for(int j = 0; j < 3; j++) { x.push_back(d.pick(B) * vp::sc()); v(c, j) = x[j]; v(0, j) = 5; } for(int j = 0; j < 2; j++) e(0, j) = e(c, j) = POISON;
        vp::input(std::string(strain ? "strain " : "stress ") + vp::vec_str(x)); Plato::Eigenvalues<2> f; f(c, v, e, strain); vp::calls(); double m = (x[0] + x[1]) / 2, h = (x[0] - x[1]) / 2, t = x[2] * (strain ? 0.5 : 1), r = std::sqrt(h * h + t * t);
        vp::eq(std::min(e(c, 0), e(c, 1)), m - r, "smaller eigenvalue"); vp::eq(std::max(e(c, 0), e(c, 1)), m + r, "larger eigenvalue"); for(int j = 0; j < 2; j++) vp::check(e(0, j) == POISON, "another cell was written"); for(int j = 0; j < 3; j++) vp::check(v(c, j) == x[j], "the tensor was modified");
    });
    vp::section("eigenvalues_1d", 10 * 2 * 16, [](u64 i) { Dec d(i); const int c = vp::cell(i, 1); bool strain = d.take(2); Plato::ScalarMultiVector v("v", vp::NC, 1), e("e", vp::NC, 1); v(c, 0) = d.pick(B) * vp::sc(); v(0, 0) = 5; e(0, 0) = POISON; vp::input(vp::fmt("%g", v(c, 0))); Plato::Eigenvalues<1> f; f(c, v, e, strain); vp::calls(); vp::eq(e(c, 0), v(c, 0), "eigenvalue"); vp::check(e(0, 0) == POISON, "another cell was written"); });
}
static void invariants()
{
    static const double A[] = {-2.0, -0.5, 0.0, 1.0, 3.0};
    vp::section("von_mises_3d", vp::ipow(5, 6), [](u64 i) {
        Dec d(i); const int c = vp::cell(i, 1); Plato::ScalarMultiVector s("s", vp::NC, 6); Plato::ScalarVector o("o", vp::NC); V x; for(int j = 0; j < 6; j++) { x.push_back(d.pick(A) * vp::sc()); s(c, j) = x[j]; s(0, j) = 4; } o(0) = POISON; vp::input(vp::vec_str(x)); Plato::VonMisesYieldFunction<3> f; f(c, s, o); vp::calls(2);
        double m = (x[0] + x[1] + x[2]) / 3, q = 0; for(int j = 0; j < 3; j++) q += (x[j] - m) * (x[j] - m) + 2 * x[3 + j] * x[3 + j]; vp::eq(o(c), std::sqrt(1.5 * q), "von Mises stress"); double v0 = o(c);
        for(int j = 0; j < 3; j++) s(c, j) += 2.5 * vp::sc(); f(c, s, o); vp::eq(o(c), v0, "von Mises stress with added pressure"); vp::check(o(0) == POISON, "another cell was written");
    });
    vp::section("von_mises_2d", 125, [](u64 i) { Dec d(i); const int c = vp::cell(i, 1); Plato::ScalarMultiVector s("s", vp::NC, 3); Plato::ScalarVector o("o", vp::NC); V x; for(int j = 0; j < 3; j++) { x.push_back(d.pick(A) * vp::sc()); s(c, j) = x[j]; s(0, j) = 4; } o(0) = POISON; vp::input(vp::vec_str(x)); Plato::VonMisesYieldFunction<2> f; f(c, s, o); vp::calls(); vp::eq(o(c), std::sqrt(x[0] * x[0] - x[0] * x[1] + x[1] * x[1] + 3 * x[2] * x[2]), "plane-stress von Mises stress"); vp::check(o(0) == POISON, "another cell was written"); });
    vp::section("von_mises_1d", 5 * 64, [](u64 i) { const int c = vp::cell(i, 1); i %= 5; Plato::ScalarMultiVector s("s", vp::NC, 1); Plato::ScalarVector o("o", vp::NC); s(c, 0) = A[i] * vp::sc(); s(0, 0) = 4; o(0) = POISON; vp::input(vp::fmt("%g", A[i])); Plato::VonMisesYieldFunction<1> f; f(c, s, o); vp::calls(); vp::eq(o(c), A[i] * vp::sc(), "uniaxial stress"); vp::check(o(0) == POISON, "another cell was written"); });
}
template<int D> static void tensile()
{
    static const double A[] = {-2.0, -0.5, -1e-6, 0.0, 1e-6, 1.0, 3.0}, L[][2] = {{0, 1}, {1.5, 0.5}, {2, 0}, {-0.25, 1}};
    vp::section(vp::fmt("tensile_energy_%d", D), vp::ipow(7, D) * 4, [](u64 i) {
        Dec d(i); const int c = vp::cell(i, 1); auto& l = L[d.take(4)]; Plato::ScalarMultiVector s("s", vp::NC, D); Plato::ScalarVector o("o", vp::NC); V x; double tr = 0, w = 0; for(int j = 0; j < D; j++) { x.push_back(d.pick(A) * vp::sc()); s(c, j) = x[j]; s(0, j) = 4; tr += x[j]; if(x[j] > 0) w += l[1] * x[j] * x[j]; } if(tr > 0) w += l[0] / 2 * tr * tr; o(0) = POISON;
        vp::input(vp::fmt("lambda %g mu %g ", l[0], l[1]) + vp::vec_str(x)); vp::degree(2); Plato::TensileEnergyDensity<D> f; f(c, s, l[0], l[1], o); vp::calls(); vp::eq(o(c), w, "tensile energy", 1e-9, 1e-15); vp::check(o(0) == POISON, "another cell was written");
    });
}
void vp::explore() { vp::sweep({1, 1.0371, 1e-6, 1e6}, [] { eigen(); invariants(); tensile<1>(); tensile<2>(); tensile<3>(); }); }
#endif
