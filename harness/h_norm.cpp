// P17: tensor and vector p-norm measures, their factory, their p-th root and its chain rule.
#include "vpk.hpp"
#include <Sacado.hpp>
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
using vp::Dec; using vp::u64;
typedef std::vector<double> V;
typedef Teuchos::ParameterList PL;
static const double POISON = 777.25;
struct Plain { typedef double ResultScalarType, ControlScalarType, ConfigScalarType; };
template<int N> struct Ad { typedef Sacado::Fad::SFad<double, N> ResultScalarType; typedef double ControlScalarType, ConfigScalarType; };

// eigenvalues of a symmetric 3x3 matrix by cyclic Jacobi rotations (reference; ordering irrelevant to the norm)
static V eig3(double a[3][3])
{
    for(int it = 0; it < 60; it++)
        for(int p = 0; p < 2; p++) for(int q = p + 1; q < 3; q++)
        {
            if(std::fabs(a[p][q]) < 1e-300) continue;
            double th = 0.5 * std::atan2(2 * a[p][q], a[q][q] - a[p][p]), c = std::cos(th), s = std::sin(th), b[3][3], r[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
            r[p][p] = c; r[q][q] = c; r[p][q] = s; r[q][p] = -s; // R^T A R
            for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { b[i][j] = 0; for(int k = 0; k < 3; k++) for(int l = 0; l < 3; l++) b[i][j] += r[k][i] * a[k][l] * r[l][j]; }
            memcpy(a, b, sizeof b);
        }
    return {a[0][0], a[1][1], a[2][2]};
}
struct Spec { int kind = 0; double p = 2, w = 1, ref = 1; int be = 6; const double (*t1)[6] = nullptr, (*t2)[6] = nullptr; }; // kind 0 plain, 1 weighted, 2 Barlat
static double density_ref(const Spec& s, const V& t)
{
    if(s.kind < 2) { double q = 0; for(double x : t) q += x * x; return std::sqrt(s.w * q) / s.ref; }
    double f[6] = {0, 0, 0, 0, 0, 0}; if(t.size() == 6) for(int i = 0; i < 6; i++) f[i] = t[i]; else if(t.size() == 3) { f[0] = t[0]; f[1] = t[1]; f[5] = t[2]; } else f[0] = t[0];
    double m = (f[0] + f[1] + f[2]) / 3; for(int i = 0; i < 3; i++) f[i] -= m; V e[2]; const double (*T[2])[6] = {s.t1, s.t2};
    for(int k = 0; k < 2; k++) { double g[6]; for(int i = 0; i < 6; i++) { g[i] = 0; for(int j = 0; j < 6; j++) g[i] += T[k][i][j] * f[j]; } double a[3][3] = {{g[0], g[5], g[4]}, {g[5], g[1], g[3]}, {g[4], g[3], g[2]}}; e[k] = eig3(a); }
    double q = 0; for(double x : e[0]) for(double y : e[1]) q += std::pow(std::fabs(x - y), s.be); return std::pow(q / 4, 1.0 / s.be) / s.ref;
}
static double cell_ref(const Spec& s, const V& t, double vol) { return std::pow(density_ref(s, t), s.p) * vol; }
static double T_ID[6][6] = {{1,0,0,0,0,0},{0,1,0,0,0,0},{0,0,1,0,0,0},{0,0,0,1,0,0},{0,0,0,0,1,0},{0,0,0,0,0,1}}, T_ZERO[6][6] = {}, T_DIAG[6][6] = {{1.5,0,0,0,0,0},{0,0.5,0,0,0,0},{0,0,1,0,0,0},{0,0,0,0.7,0,0},{0,0,0,0,1.3,0},{0,0,0,0,0,2}}, T_B[6][6] = {{0,-0.07,-0.94,0,0,0},{-0.48,0,-0.98,0,0,0},{-0.95,-0.59,0,0,0,0},{0,0,0,1.1,0,0},{0,0,0,0,0.76,0},{0,0,0,0,0,1.4}}, T_FULL[6][6];
static void mats() { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) T_FULL[i][j] = 0.1 * ((i * 5 + j * 3) % 7) - 0.2 + (i == j) * 0.8; }
static PL list(const Spec& s, bool giveW, bool giveRef, bool giveBe, const char* type = nullptr)
{
    PL l; l.set<double>("Exponent", s.p); if(s.kind == 0 && !type) return l;
    PL& n = l.sublist("Normalize"); n.set<std::string>("Type", type ? type : s.kind == 1 ? "Scalar" : "Barlat"); PL& q = n.sublist(s.kind == 2 ? "Barlat" : "Scalar");
    if(giveRef) q.set<double>("Reference Weight", s.ref); if(giveW) q.set<double>("Scalar Product Weight", s.w); if(giveBe) q.set<int>("Barlat Exponent", s.be);
    if(s.kind == 2) for(int k = 0; k < 2; k++) for(int i = 0; i < 6; i++) q.set<Teuchos::Array<double>>(vp::fmt("T%d%d", k + 1, i), Teuchos::Array<double>((k ? s.t2 : s.t1)[i], (k ? s.t2 : s.t1)[i] + 6));
    return l;
}
// three cells with different tensors and volumes, evaluated in one call
template<int L> static void value(const Spec& s, const PL& l, const V& t, int c, double tol)
{
    static const double VOL[] = {0.5, 2.0, 0.125}; Plato::TensorNormFactory<L, Plain> f; auto n = f.create(l); vp::check(!n.is_null(), "the factory made no norm");
    const int nc = vp::NC; Plato::ScalarVector r("r", nc), v("v", nc); Plato::ScalarMultiVector x("x", nc, L), z("z", nc, L + 1); V want; std::vector<V> ts(nc);
    for(int a = 0; a < nc; a++) { r(a) = POISON; v(a) = VOL[(a + c) % 3]; for(int j = 0; j < L; j++) { double y = a == c ? t[j] : vp::sc() * (0.75 + 0.5 * ((a + 2 * j) % 3) - (j % 2)); x(a, j) = y; ts[a].push_back(y); } want.push_back(cell_ref(s, ts[a], v(a))); }
    n->evaluate(r, x, z, v); vp::calls(); vp::degree(0); double big = *std::max_element(want.begin(), want.end()); for(int a = 0; a < nc; a++) { vp::eq(r(a), want[a], vp::fmt("norm of cell %d", a).c_str(), tol, vp::sc() == 1 ? 1e-12 : 1e-12 * big); vp::check(v(a) == VOL[(a + c) % 3], "the volume was changed"); for(int j = 0; j < L; j++) vp::check(x(a, j) == ts[a][j], "the tensor was changed"); }
    double tot = 0; for(double w : want) tot += w; double q = tot; n->postEvaluate(q); vp::eq(q, std::pow(tot, 1 / s.p), "p-th root", 1e-9, vp::sc() == 1 ? 1e-11 : 0);
    for(int a = 0; a < nc; a++) vp::check(r(a) >= 0, "negative norm");
}
template<int L> static void values()
{
    static const double A[] = {0.0, -1.0, 0.5, 2.0}, P[] = {1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 2.5, 0.5, 1.75};
    vp::section(vp::fmt("plain_%d", L), vp::ipow(4, L) * 9 * 3, [](u64 i) { Dec d(i); V t; for(int j = 0; j < L; j++) t.push_back(d.pick(A) * vp::sc()); Spec s; s.p = d.pick(P); int c = vp::cell(i, d.take(3), 61); vp::input(vp::fmt("p %g tensor ", s.p) + vp::vec_str(t)); value<L>(s, list(s, 0, 0, 0), t, c, 1e-9); });
    static const double W[] = {1.0, 3.0, 0.25}, R[] = {1.0, 250.0, 0.5};
    if(vp::sc() != 1 && L == 6) return; // the magnitude sweep takes the plain norm for six components and every norm for fewer
    vp::section(vp::fmt("weighted_%d", L), vp::ipow(vp::thorough() ? 4 : 3, L) * 9 * 9 * 4, [](u64 i) {
        Dec d(i); V t; for(int j = 0; j < L; j++) t.push_back(A[d.take(vp::thorough() ? 4 : 3)] * vp::sc()); Spec s; s.kind = 1; s.p = d.pick(P); s.w = d.pick(W); s.ref = d.pick(R); bool gw = d.take(2), gr = d.take(2); if(!gw) s.w = 1; if(!gr) s.ref = 1;
        vp::input(vp::fmt("p %g weight %g%s reference %g%s tensor ", s.p, s.w, gw ? "" : " (default)", s.ref, gr ? "" : " (default)") + vp::vec_str(t)); value<L>(s, list(s, gw, gr, 0), t, vp::cell(i, (int)(i % 3), 61), 1e-9); });
    static const double B3[] = {-1.0, 0.0, 2.0}, BT[] = {-1.0, 0.0, 0.5, 2.0}; static const int BE[] = {6, 2, 4, 8}; static const double (*TM[])[6] = {T_ID, T_ZERO, T_DIAG, T_B, T_FULL}; static const double BP[] = {1.0, 4.0, 2.5};
    const int nt = vp::thorough() && L == 6 ? 4 : 3; (void)nt;
    vp::section(vp::fmt("barlat_%d", L), vp::ipow(nt, L) * 25 * 4 * 2 * 3, [nt](u64 i) {
        Dec d(i); V t; for(int j = 0; j < L; j++) t.push_back((nt == 4 ? BT[d.take(4)] : B3[d.take(3)]) * vp::sc()); Spec s; s.kind = 2; int a = d.take(5), b = d.take(5), e = d.take(4); s.t1 = TM[a]; s.t2 = TM[b]; s.be = BE[e]; bool gr = d.take(2); s.ref = gr ? 2.5 : 1; s.p = d.pick(BP);
        vp::input(vp::fmt("Barlat T%d T%d exponent %d%s reference %g p %g stress ", a, b, s.be, e ? "" : " (default)", s.ref, s.p) + vp::vec_str(t)); value<L>(s, list(s, 0, gr, e > 0), t, vp::cell(i, (int)(i % 3), 61), 1e-6); });
    // gradient by automatic differentiation, then the chain rule of the p-th root, against the derivative of the reference
    if(vp::sc() != 1) return;
    static const double G[] = {-1.0, 0.5, 2.0};
    vp::section(vp::fmt("gradient_%d", L), vp::ipow(3, L) * 5 * 3, [](u64 i) {
        Dec d(i); V t; for(int j = 0; j < L; j++) t.push_back(d.pick(G)); Spec s; s.p = P[1 + d.take(5)]; s.kind = d.take(3); if(s.kind == 1) { s.w = 3; s.ref = 0.5; } if(s.kind == 2) { s.t1 = T_DIAG; s.t2 = T_B; s.ref = 2.5; if(L == 1) { s.kind = 0; s.ref = 1; } }
        vp::input(vp::fmt("kind %d p %g tensor ", s.kind, s.p) + vp::vec_str(t)); typedef typename Ad<L>::ResultScalarType F; auto n = Plato::TensorNormFactory<L, Ad<L>>().create(list(s, 1, 1, 1));
        Plato::ScalarVectorT<F> r("r", 2); Plato::ScalarMultiVectorT<F> x("x", 2, L); Plato::ScalarMultiVector z("z", 2, L + 1); Plato::ScalarVector v("v", 2); v(0) = 0.5; v(1) = 2; std::vector<V> ts(2, t); for(int j = 0; j < L; j++) ts[1][j] = t[(j + 1) % L] + 0.25 * j + 0.5;
        for(int c = 0; c < 2; c++) for(int j = 0; j < L; j++) x(c, j) = F(L, j, ts[c][j]); n->evaluate(r, x, z, v); double tot = 0; for(int c = 0; c < 2; c++) { vp::eq(r(c).val(), cell_ref(s, ts[c], v(c)), "value", 1e-6); tot += r(c).val(); }
        Plato::ScalarVector g("g", 2 * L); for(int c = 0; c < 2; c++) for(int j = 0; j < L; j++) g(c * L + j) = r(c).dx(j); n->postEvaluate(g, tot); double q = tot; n->postEvaluate(q); vp::calls(3);
        for(int c = 0; c < 2; c++) for(int j = 0; j < L; j++)
        {
            const double h = 1e-5; double f[4]; int k = 0; for(double sh : {2 * h, h, -h, -2 * h}) { auto y = ts; y[c][j] += sh; f[k++] = std::pow(cell_ref(s, y[0], 0.5) + cell_ref(s, y[1], 2), 1 / s.p); }
            vp::eq(g(c * L + j), (-f[0] + 8 * f[1] - 8 * f[2] + f[3]) / (12 * h), vp::fmt("d norm / d tensor(%d,%d)", c, j).c_str(), 1e-4, 1e-4 * q);
        }
    });
}
void vp::explore()
{
    mats(); vp::sweep({1, 1e-6, 1e6}, [] { values<1>(); values<3>(); values<6>(); });
    static const double P[] = {1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 2.5, 0.5}, RV[] = {1e-6, 0.5, 1.0, 4.0, 1e6};
    vp::section("post_evaluate", 8 * 5 * 5 * 3, [](u64 i) {
        Dec d(i); double p = d.pick(P), rv = d.pick(RV); int n = d.take(5), kind = d.take(3); Spec s; s.p = p; s.kind = kind; s.t1 = s.t2 = T_ID; auto N = Plato::TensorNormFactory<6, Plain>().create(list(s, 0, 0, 0)); vp::input(vp::fmt("p %g value %g entries %d kind %d", p, rv, n, kind));
        V g; for(int j = 0; j < n; j++) g.push_back(1.5 * j - 1); auto v = vp::sv(g); N->postEvaluate(v, rv); for(int j = 0; j < n; j++) vp::eq(v(j), g[j] * std::pow(rv, 1 / p - 1) / p, "gradient"); double x = rv; N->postEvaluate(x); vp::eq(x, std::pow(rv, 1 / p), "value"); vp::calls(2); });
    vp::section("factory", 6, [](u64 i) {
        Spec s; s.p = 3; V t = {1, -2, 0.5, 3, 0, 1}; s.t1 = s.t2 = T_ID; vp::input(vp::fmt("factory %d", (int)i));
        if(i == 0) { PL l = list(s, 0, 0, 0, "Unknown"); value<6>(s, l, t, 0, 1e-9); } // an unknown normalization is the plain norm
        else if(i == 1) { PL l; vp::calls(); vp::check(vp::throws([&] { Plato::TensorNormFactory<6, Plain>().create(l); }), "a missing exponent was accepted"); }
        else if(i == 2) { PL l; l.set<double>("Exponent", 2.0); l.sublist("Normalize"); vp::calls(); vp::check(vp::throws([&] { Plato::TensorNormFactory<6, Plain>().create(l); }), "a missing normalization type was accepted"); }
        else if(i == 3) { s.kind = 2; for(int k = 0; k < 12; k++) { PL l = list(s, 0, 0, 0); l.sublist("Normalize").sublist("Barlat").remove(vp::fmt("T%d%d", k / 6 + 1, k % 6)); vp::calls(); vp::check(vp::throws([&] { Plato::TensorNormFactory<6, Plain>().create(l); }), "a missing row %d was accepted", k); } }
        else if(i == 4) { s.kind = 1; PL l = list(s, 0, 0, 0); l.sublist("Normalize").remove("Scalar"); value<6>(s, l, t, 1, 1e-9); }
        else { PL l; l.set<double>("Exponent", 3.0); value<6>(s, l, t, 2, 1e-9); } });
    static const double A[] = {0.0, -1.0, 0.5, 2.0, -3.0};
    for(int L = 1; L <= 3; L++)
        vp::section(vp::fmt("vector_%d", L), vp::ipow(5, L) * 6 * 3 * 3, [L](u64 i) {
            Dec d(i); V t; for(int j = 0; j < L; j++) t.push_back(d.pick(A)); static const int VP[] = {1, 2, 3, 4, 6, 12}; int p = d.pick(VP), c = vp::cell(i, d.take(3)); double vol = 0.5 + d.take(3); vp::input(vp::fmt("p %d volume %g vector ", p, vol) + vp::vec_str(t));
            Plato::ScalarVector r("r", vp::NC), v("v", vp::NC); Plato::ScalarMultiVector x("x", vp::NC, L); for(int a = 0; a < vp::NC; a++) { r(a) = POISON; v(a) = a == c ? vol : POISON; for(int j = 0; j < L; j++) x(a, j) = a == c ? t[j] : POISON; }
            if(L == 1) Plato::VectorPNorm<1>()(c, r, x, p, v); else if(L == 2) Plato::VectorPNorm<2>()(c, r, x, p, v); else Plato::VectorPNorm<3>()(c, r, x, p, v); vp::calls(); Spec s; s.p = p; for(int a = 0; a < vp::NC; a++) if(a == c) vp::eq(r(a), cell_ref(s, t, vol), "vector p-norm"); else vp::check(r(a) == POISON, "another cell was written");
            typedef Sacado::Fad::SFad<double, 3> F; bool zero = true; for(double e : t) if(e) zero = false; if(zero) return; Plato::ScalarVectorT<F> rf("r", vp::NC); Plato::ScalarMultiVectorT<F> xf("x", vp::NC, L); for(int j = 0; j < L; j++) xf(c, j) = F(3, j, t[j]);
            if(L == 1) Plato::VectorPNorm<1>()(c, rf, xf, p, v); else if(L == 2) Plato::VectorPNorm<2>()(c, rf, xf, p, v); else Plato::VectorPNorm<3>()(c, rf, xf, p, v); double q = 0; for(double e : t) q += e * e; vp::eq(rf(c).val(), r(c), "value with automatic derivatives"); for(int j = 0; j < L; j++) vp::eq(rf(c).dx(j), vol * p * std::pow(q, p / 2.0 - 1) * t[j], "derivative");
        });
}
