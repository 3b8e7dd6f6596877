// P06 (sparse algebra = dense algebra), P07 (condensation), P08 (Dirichlet constraints).
#include "vpk.hpp"
#include "Plato_Solve.hpp"
#include "PlatoMathHelpers.hpp"
#include "ApplyConstraints.hpp"
typedef Plato::CrsMatrixType Crs;
typedef Teuchos::RCP<Crs> Mat;
typedef Plato::OrdinalType O;
typedef Plato::ScalarVectorT<O> OV;
using vp::u64; using vp::Dec; using vp::fmt;

struct Dense
{
    int m, n; std::vector<double> a;
    Dense(int r = 0, int c = 0) : m(r), n(c), a(r * c, 0.0) {}
    double& operator()(int i, int j) { return a[i * n + j]; }
    double operator()(int i, int j) const { return a[i * n + j]; }
};
static Dense mul(const Dense& A, const Dense& B) { Dense C(A.m, B.n); for(int i = 0; i < A.m; i++) for(int j = 0; j < B.n; j++) { double s = 0; for(int k = 0; k < A.n; k++) s += A(i, k) * B(k, j); C(i, j) = s; } return C; }

// block matrix with br x bc blocks on an mb x nb block grid; bit (i*nb+j) of pat says that block is stored
// kind > 0: a named pattern of any size instead of the bits, on (i/div, j/div): 1 tridiagonal, 2 arrow, 3 full, 4 scattered, 5 band of half width 4
struct Spec { int mb, nb, br, bc; u64 pat; int order; int seed; int kind, div; };
static bool stored(const Spec& s, int i, int j)
{
    if(!s.kind) return s.pat >> (i * s.nb + j) & 1;
    if(s.div) { i /= s.div; j /= s.div; }
    switch(s.kind) { case 1: return std::abs(i - j) <= 1; case 2: return i == j || !i || !j; case 3: return true; case 4: return i == j || (i * j + i + j) % 5 == 0; default: return std::abs(i - j) <= 4; }
}
static int ZEROS = 0; // 1: every third stored value is an explicit zero
static double value(int seed, int k) { if(ZEROS && (k + seed + k / 7) % 3 == 0) return 0.0; int v = ((k * 7 + seed * 5 + 3) % 13) - 6; return vp::sc() * (v == 0 ? 0.5 : v * 0.75); }
static Mat make(const Spec& s, Dense& D, bool positive = false)
{
    std::vector<O> rm(1, 0), ci; std::vector<double> en; D = Dense(s.mb * s.br, s.nb * s.bc); int k = 0;
    for(int i = 0; i < s.mb; i++)
    {
        std::vector<int> cols; for(int j = 0; j < s.nb; j++) if(stored(s, i, j)) cols.push_back(j);
        if(s.order == 1) std::reverse(cols.begin(), cols.end());
        if(s.order == 2 && cols.size() > 1) std::rotate(cols.begin(), cols.begin() + 1, cols.end());
        for(int j : cols)
        {
            ci.push_back(j);
            for(int a = 0; a < s.br; a++) for(int b = 0; b < s.bc; b++) { double v = value(s.seed, k++); if(positive) v = vp::sc() + std::fabs(v); en.push_back(v); D(i * s.br + a, j * s.bc + b) = v; }
        }
        rm.push_back(ci.size());
    }
    typename Crs::RowMapVector R("rm", rm.size()); for(size_t i = 0; i < rm.size(); i++) R(i) = rm[i];
    typename Crs::OrdinalVector C("ci", ci.size()); for(size_t i = 0; i < ci.size(); i++) C(i) = ci[i];
    typename Crs::ScalarVector E("en", en.size()); for(size_t i = 0; i < en.size(); i++) E(i) = en[i];
    return Teuchos::rcp(new Crs(R, C, E, s.mb * s.br, s.nb * s.bc, s.br, s.bc));
}
// what the matrix object stands for, from its own maps; stored twice means summed
static Dense todense(const Crs& A)
{
    int br = A.numRowsPerBlock(), bc = A.numColsPerBlock(); Dense D(A.numRows(), A.numCols());
    auto R = A.rowMap(); auto C = A.columnIndices(); auto E = A.entries();
    vp::eqi(R.size(), A.numRows() / br + 1, "row map length"); vp::eqi(R(0), 0, "row map start"); vp::eqi(R(R.size() - 1), C.size(), "row map end");
    vp::eqi(E.size(), C.size() * br * bc, "number of entries");
    for(size_t i = 0; i + 1 < R.size(); i++)
    {
        vp::check(R(i) <= R(i + 1), "row map decreases at %zu", i); std::set<int> seen;
        for(O p = R(i); p < R(i + 1); p++)
        {
            vp::check(C(p) >= 0 && (C(p) + 1) * bc <= A.numCols(), "column %d out of range", (int)C(p));
            vp::check(seen.insert(C(p)).second, "column %d stored twice in block row %zu", (int)C(p), i);
            for(int a = 0; a < br; a++) for(int b = 0; b < bc; b++) D(i * br + a, C(p) * bc + b) += E(p * br * bc + a * bc + b);
        }
    }
    return D;
}
static void same(const Dense& got, const Dense& want, const char* what)
{
    vp::eqi(got.m, want.m, "rows"); vp::eqi(got.n, want.n, "cols");
    for(int i = 0; i < got.m; i++) for(int j = 0; j < got.n; j++) vp::eq(got(i, j), want(i, j), fmt("%s(%d,%d)", what, i, j).c_str());
}
static Dense flat(const OV& R, const OV& C, const Plato::ScalarVector& V, int m, int n)
{
    Dense D(m, n); vp::eqi(R.size(), m + 1, "flat row map length"); vp::eqi(R(0), 0, "flat row map start"); vp::eqi(R(m), C.size(), "flat row map end"); vp::eqi(C.size(), V.size(), "flat lengths");
    for(int i = 0; i < m; i++) for(O p = R(i); p < R(i + 1); p++) { vp::check(C(p) >= 0 && C(p) < n, "flat column %d", (int)C(p)); D(i, C(p)) += V(p); }
    return D;
}
static std::string str(const Spec& s) { return fmt("%dx%d blocks of %dx%d %s %llx order %d", s.mb, s.nb, s.br, s.bc, s.kind ? "pattern kind" : "pattern", s.kind ? (unsigned long long)s.kind : (unsigned long long)s.pat, s.order) + (vp::sc() == 1 ? "" : fmt(" magnitude %g", vp::sc())); }
static std::vector<Spec> shapes(int maxm, int maxn, int maxb, int orders, int seed)
{
    std::vector<Spec> r;
    for(int m = 1; m <= maxm; m++) for(int n = 1; n <= maxn; n++) for(int a = 1; a <= maxb; a++) for(int b = 1; b <= maxb; b++) for(int o = 0; o < orders; o++)
        for(u64 p = 0; p < (1ull << (m * n)); p++) r.push_back({m, n, a, b, p, o, seed});
    return r;
}
static u64 copies(u64 n) { return n; }

static bool same_vec(const std::vector<double>& a, const Plato::ScalarVector& b) { for(size_t i = 0; i < a.size(); i++) if(a[i] != b(i)) return false; return true; }

// solves M x = b by elimination with pivoting; false if singular
static bool solve(Dense M, std::vector<double> b, std::vector<double>& x)
{
    int n = M.m; for(int c = 0; c < n; c++)
    {
        int p = c; for(int i = c; i < n; i++) if(std::fabs(M(i, c)) > std::fabs(M(p, c))) p = i;
        if(std::fabs(M(p, c)) < 1e-9 * std::min(1.0, vp::sc())) return false;
        for(int j = 0; j < n; j++) std::swap(M(p, j), M(c, j)); std::swap(b[p], b[c]);
        for(int i = 0; i < n; i++) if(i != c) { double f = M(i, c) / M(c, c); for(int j = c; j < n; j++) M(i, j) -= f * M(c, j); b[i] -= f * b[c]; }
    }
    x.resize(n); for(int i = 0; i < n; i++) x[i] = b[i] / M(i, i); return true;
}

#if VP_PROP == 8
template<int ND> static void constrain_case(int nb, u64 pat, bool block, bool sym, u64 mask, int valsel, double scale, int dup, int order, int kind = 0, const std::vector<int>* list = nullptr, u64 zeros = 0, double rhsf = 3)
{
    // structurally symmetric pattern with full diagonal: bit per (i<j) pair
    Spec s; s.mb = s.nb = block ? nb : nb * ND; s.br = s.bc = block ? ND : 1; s.order = order; s.seed = 2; s.pat = 0; s.kind = kind; s.div = block ? 0 : ND;
    int N = nb * ND, k = 0;
    if(!kind) for(int i = 0; i < nb; i++) for(int j = i; j < nb; j++)
    {
        bool on = i == j || (pat >> k & 1); if(i != j) k++;
        if(!on) continue;
        if(block) { s.pat |= 1ull << (i * nb + j) | 1ull << (j * nb + i); }
        else for(int a = 0; a < ND; a++) for(int b = 0; b < ND; b++) { s.pat |= 1ull << ((i * ND + a) * N + j * ND + b) | 1ull << ((j * ND + b) * N + i * ND + a); }
    }
    Dense A0; Mat A = make(s, A0);
    // diagonally dominant, so that every reduced system can be solved; symmetric if asked
    { auto R = A->rowMap(); auto C = A->columnIndices(); auto E = A->entries(); int b = s.br;
      for(size_t i = 0; i + 1 < R.size(); i++) for(O p = R(i); p < R(i + 1); p++) for(int x = 0; x < b; x++) for(int y = 0; y < b; y++)
      { int r = i * b + x, c = C(p) * b + y; double v = A0(r, c); if(sym && r < c) v = A0(c, r); if(r == c) v = ((kind ? 2000 : 40) + r) * vp::sc(); else if(zeros) { int q = r * N + c; if(kind ? (q * 5 + q / 7) % 3 == 0 : (zeros >> q & 1)) v = 0.0; } E(p * b * b + x * b + y) = v; } }
    A0 = todense(*A);
    std::vector<double> rhs(N); for(int i = 0; i < N; i++) rhs[i] = value(5, i) * rhsf;
    std::vector<int> dofs; if(list) dofs = *list; else for(int i = 0; i < N; i++) if(mask >> i & 1) dofs.push_back(i);
    if(dup == 1 && !dofs.empty()) dofs.push_back(dofs[0]);
    if(dup == 2) std::reverse(dofs.begin(), dofs.end());
    auto bc = [&](int d) { return valsel == 0 ? 0.0 : valsel == 1 ? 2.0 + d : (d % 2 ? -1.5 : 0.25); };
    Plato::LocalOrdinalVector bd("d", dofs.size()); Plato::ScalarVector bv("v", dofs.size()); for(size_t i = 0; i < dofs.size(); i++) { bd(i) = dofs[i]; bv(i) = bc(dofs[i]); }
    auto b = vp::sv(rhs); std::string in = str(s) + " dofs "; for(int d : dofs) in += fmt("%d=%g ", d, bc(d)); vp::input(in + fmt("scale %g symmetric %d dofs/node %d", scale, sym, ND));
    vp::calls();
    if(block) { if(scale == 1.0) Plato::applyBlockConstraints<ND>(A, b, bd, bv); else Plato::applyBlockConstraints<ND>(A, b, bd, bv, scale); }
    else { if(scale == 1.0) Plato::applyConstraints<ND>(A, b, bd, bv); else Plato::applyConstraints<ND>(A, b, bd, bv, scale); }
    Dense A1 = todense(*A);
    // exact form of the constrained system
    Dense W = A0; std::vector<double> w = rhs; std::vector<char> fix(N, 0); for(int d : dofs) fix[d] = 1;
    for(int i = 0; i < N; i++) for(int j = 0; j < N; j++)
    {
        if(fix[i] || fix[j]) W(i, j) = (i == j) ? 1.0 : 0.0;
        if(!fix[i] && fix[j]) w[i] -= A0(i, j) * scale * bc(j);
    }
    for(int i = 0; i < N; i++) if(fix[i]) w[i] = scale * bc(i);
    same(A1, W, "matrix");
    for(int i = 0; i < N; i++) vp::eq(b(i), w[i], fmt("rhs(%d)", i).c_str());
    // and what it is for: prescribed values are met and the free equations hold with them
    std::vector<double> x, g(N); for(int i = 0; i < N; i++) g[i] = b(i);
    if(solve(A1, g, x))
        for(int i = 0; i < N; i++)
        {
            if(fix[i]) vp::eq(x[i], scale * bc(i), "prescribed value of the solution");
            else { double r = 0; for(int j = 0; j < N; j++) r += A0(i, j) * x[j]; vp::eq(r, rhs[i], "free equation at the solution", 1e-8, kind ? 1e-6 : 1e-8); }
        }
    if(sym) for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) vp::check(A1(i, j) == A1(j, i), "symmetry lost at (%d,%d)", i, j);
    (void)same_vec;
}
#endif

void vp::explore()
{
    const bool T = thorough();
#if VP_PROP == 6
    {
        auto S = shapes(3, 3, 3, 3, 0);
        section("matrix_times_vector", S.size(), [&](u64 i) {
            const Spec& s = S[i]; vp::input(str(s)); Dense D; Mat A = make(s, D); std::vector<double> x(D.n), y(D.m); for(int k = 0; k < D.n; k++) x[k] = value(3, k); for(int k = 0; k < D.m; k++) y[k] = value(4, k);
            auto X = sv(x), Y = sv(y); vp::calls(2); Plato::MatrixTimesVectorPlusVector(A, X, Y);
            for(int r = 0; r < D.m; r++) { double w = y[r]; for(int c = 0; c < D.n; c++) w += D(r, c) * x[c]; eq(Y(r), w, fmt("y(%d)", r).c_str()); }
            Plato::MatrixTimesVectorPlusVector(A, X, Y); // accumulates again
            for(int r = 0; r < D.m; r++) { double w = y[r]; for(int c = 0; c < D.n; c++) w += 2 * D(r, c) * x[c]; eq(Y(r), w, fmt("second y(%d)", r).c_str()); }
            for(int c = 0; c < D.n; c++) eq(X(c), x[c], "input changed"); same(todense(*A), D, "matrix changed"); });
        auto S4 = shapes(T ? 4 : 2, T ? 4 : 4, T ? 2 : 2, 1, 1);
        section("matrix_times_vector_wide", S4.size(), [&](u64 i) {
            const Spec& s = S4[i]; vp::input(str(s)); Dense D; Mat A = make(s, D); std::vector<double> x(D.n), y(D.m); for(int k = 0; k < D.n; k++) x[k] = value(3, k); for(int k = 0; k < D.m; k++) y[k] = value(4, k);
            auto X = sv(x), Y = sv(y); vp::calls(); Plato::MatrixTimesVectorPlusVector(A, X, Y);
            for(int r = 0; r < D.m; r++) { double w = y[r]; for(int c = 0; c < D.n; c++) w += D(r, c) * x[c]; eq(Y(r), w, fmt("y(%d)", r).c_str()); } });
        section("shape_errors_vector", 4 * 9 * 9 * 9, [&](u64 i) {
            Dec d(i); int nb = 1 + d.take(2), mb = 1 + d.take(2); int br = 1 + d.take(3), bc = 1 + d.take(3); int xs = d.take(9), ys = d.take(9);
            Spec s{mb, nb, br, bc, (1ull << (mb * nb)) - 1, 0, 0}; Dense D; Mat A = make(s, D); Plato::ScalarVector X("x", xs), Y("y", ys); vp::input(str(s) + fmt(" x %d y %d", xs, ys)); vp::calls();
            bool bad = throws([&] { Plato::MatrixTimesVectorPlusVector(A, X, Y); });
            vp::check(bad == (xs != D.n || ys != D.m), bad ? "matching shapes rejected" : "mismatched shapes accepted"); obs(bad); });
    }
    {
        auto S = shapes(3, 3, 3, 3, 1);
        section("flatten_and_restore", S.size(), [&](u64 i) {
            const Spec& s = S[i]; vp::input(str(s)); Dense D; Mat A = make(s, D); OV R, C; Plato::ScalarVector V; vp::calls(3);
            Plato::getDataAsNonBlock(A, R, C, V); same(flat(R, C, V, D.m, D.n), D, "flattened");
            Mat B = Teuchos::rcp(new Crs(D.m, D.n, s.br, s.bc)); Plato::setDataFromNonBlock(B, R, C, V); same(todense(*B), D, "restored");
            auto cc = B->columnIndices(); auto rr = B->rowMap(); for(size_t q = 0; q + 1 < rr.size(); q++) for(O p = rr(q) + 1; p < rr(q + 1); p++) check(cc(p - 1) < cc(p), "columns not ascending");
            same(todense(*A), D, "source changed"); });
        section("flatten_subblock", S.size() / 27 * 27 * 9 / 9 * 0 + [] { u64 n = 0; for(int m = 1; m <= 3; m++) for(int k = 1; k <= 3; k++) n += 1ull << (m * k); return n; }() * 3 * 4 * 4, [&](u64 i) {
            // one row of a full block matrix: stride 1..4 rows per block, every offset
            Dec d(i); int bc = 1 + d.take(3), stride = 1 + d.take(4), off = d.take(4); u64 q = d.v; int m = 1, n = 1;
            for(m = 1; m <= 3; m++) { bool hit = false; for(n = 1; n <= 3; n++) { u64 w = 1ull << (m * n); if(q < w) { hit = true; break; } q -= w; } if(hit) break; }
            Spec s{m, n, 1, bc, q, (int)(q % 3), 2}; vp::input(str(s) + fmt(" stride %d offset %d", stride, off)); if(off >= stride) { vp::skip(); return; }
            Dense D; Mat A = make(s, D); OV R, C; Plato::ScalarVector V; vp::calls(); Plato::getDataAsNonBlock(A, R, C, V, stride, off);
            Dense W(D.m * stride, D.n); for(int r = 0; r < D.m; r++) for(int c = 0; c < D.n; c++) W(r * stride + off, c) = D(r, c);
            same(flat(R, C, V, W.m, W.n), W, "sub-block"); });
        // sorting: every permutation of up to 5 (6) columns in two rows
        const int L = T ? 7 : 6;
        std::vector<std::vector<int>> perms; for(int n = 0; n <= L; n++) { std::vector<int> p(n); for(int k = 0; k < n; k++) p[k] = k; do perms.push_back(p); while(std::next_permutation(p.begin(), p.end())); }
        section("sort_columns", perms.size() * 2, [&](u64 i) {
            auto p = perms[i / 2]; std::vector<O> rm, ci; if(i % 2) rm = {0, (O)p.size(), (O)p.size(), (O)(p.size() + 2)}; else rm = {0, 2, (O)(p.size() + 2), (O)(p.size() + 2)};
            if(i % 2) { for(int c : p) ci.push_back(2 * c + 1); ci.push_back(7); ci.push_back(0); } else { ci = {9, 4}; for(int c : p) ci.push_back(2 * c + 1); }
            OV R("r", rm.size()), C("c", ci.size()); Plato::ScalarVector V("v", ci.size()); for(size_t k = 0; k < rm.size(); k++) R(k) = rm[k]; for(size_t k = 0; k < ci.size(); k++) { C(k) = ci[k]; V(k) = 100 + 3 * ci[k] + (k > 0); }
            std::vector<std::pair<int, double>> w; std::string in; for(size_t k = 0; k < ci.size(); k++) { w.push_back({ci[k], V(k)}); in += fmt("%d ", (int)ci[k]); } vp::input(in);
            for(size_t r = 0; r + 1 < rm.size(); r++) std::stable_sort(w.begin() + rm[r], w.begin() + rm[r + 1], [](const std::pair<int, double>& a, const std::pair<int, double>& b) { return a.first < b.first; });
            vp::calls(); Plato::sortColumnEntries(R, C, V); for(size_t k = 0; k < ci.size(); k++) { eqi(C(k), w[k].first, "column"); eq(V(k), w[k].second, "value"); } });
    }
    {
        // products: every pair of patterns
        struct Sh { int m, l, n; }; std::vector<Sh> sh; for(int m = 1; m <= 2; m++) for(int l = 1; l <= 2; l++) for(int n = 1; n <= 2; n++) sh.push_back({m, l, n});
        sh.push_back({1, 3, 1}); sh.push_back({3, 1, 3}); if(T) { sh.push_back({3, 2, 3}); sh.push_back({2, 3, 3}); sh.push_back({3, 3, 2}); sh.push_back({2, 3, 2}); }
        for(auto& q : sh)
        {
            const int maxb = (q.m * q.l + q.l * q.n > 8) ? 2 : 3; u64 np = 1ull << (q.m * q.l + q.l * q.n);
            section(fmt("product_%d%d%d", q.m, q.l, q.n), np * maxb * maxb * maxb * 2, [&, maxb, q](u64 i) {
                Dec d(i); int r = 1 + d.take(maxb), k = 1 + d.take(maxb), c = 1 + d.take(maxb), o = d.take(2) * 1; u64 pa = d.take(1ull << (q.m * q.l)), pb = d.v;
                Spec sa{q.m, q.l, r, k, pa, o, 0}, sb{q.l, q.n, k, c, pb, o ? 2 : 0, 1}; vp::input(str(sa) + " * " + str(sb)); Dense A, B; Mat MA = make(sa, A), MB = make(sb, B);
                Mat C = Teuchos::rcp(new Crs(A.m, B.n, r, c)); vp::calls(); Plato::MatrixMatrixMultiply(MA, MB, C); same(todense(*C), mul(A, B), "product"); same(todense(*MA), A, "A changed"); same(todense(*MB), B, "B changed"); });
        }
        section("shape_errors_product", ipow(3, 6), [&](u64 i) {
            Dec d(i); int a = 1 + d.take(3), b = 1 + d.take(3), c = 1 + d.take(3), e = 1 + d.take(3), f = 1 + d.take(3), g = 1 + d.take(3); Dense A, B;
            Mat MA = make({a, b, 1, 1, (1ull << (a * b)) - 1, 0, 0}, A), MB = make({c, e, 1, 1, (1ull << (c * e)) - 1, 0, 1}, B), C = Teuchos::rcp(new Crs(f, g, 1, 1)); vp::input(fmt("%dx%d * %dx%d -> %dx%d", a, b, c, e, f, g)); vp::calls();
            bool bad = throws([&] { Plato::MatrixMatrixMultiply(MA, MB, C); }); vp::check(bad == (b != c || f != a || g != e), bad ? "matching shapes rejected" : "mismatched shapes accepted"); obs(bad);
            if(!bad) same(todense(*C), mul(A, B), "product"); });
    }
    {
        // A - (rows of B placed at one row of every block)
        std::vector<std::pair<int, int>> g = {{1, 1}, {1, 2}, {2, 1}, {2, 2}}; if(T) { g.push_back({2, 3}); g.push_back({3, 2}); }
        for(auto& q : g)
        {
            u64 np = 1ull << (q.first * q.second);
            section(fmt("minus_%d%d", q.first, q.second), np * np * 3 * 3 * 3 * 2, [&, q, np](u64 i) {
                Dec d(i); int br = 1 + d.take(3), bc = 1 + d.take(3), off = d.take(3), o = d.take(2); u64 pa = d.take(np), pb = d.v; if(off >= br) { vp::skip(); return; }
                Spec sa{q.first, q.second, br, bc, pa, o, 0}, sb{q.first, q.second, 1, bc, pb, o ? 2 : 0, 1}; vp::input(str(sa) + " - " + str(sb) + fmt(" at row %d", off)); Dense A, B; Mat MA = make(sa, A), MB = make(sb, B);
                Dense W = A; for(int r = 0; r < B.m; r++) for(int c = 0; c < B.n; c++) W(r * br + off, c) -= B(r, c); vp::calls(); Plato::MatrixMinusMatrix(MA, MB, off); same(todense(*MA), W, "difference"); same(todense(*MB), B, "B changed"); });
        }
        // tall blocks, every row of the block; stored zeros
        section("minus_tall", 16 * 16 * 4 * 6 * 2, [&](u64 i) {
            Dec d(i); ZEROS = d.take(2); struct Z { ~Z() { ZEROS = 0; } } z_; int br = 3 + d.take(4), off = d.take(6); u64 pa = d.take(16), pb = d.v; if(off >= br) { vp::skip(); return; }
            Spec sa{2, 2, br, 2, pa, (int)(pb % 3), 0}, sb{2, 2, 1, 2, pb, (int)(pa % 3), 1}; vp::input(str(sa) + " - " + str(sb) + fmt(" at row %d", off)); Dense A, B; Mat MA = make(sa, A), MB = make(sb, B);
            Dense W = A; for(int r = 0; r < B.m; r++) for(int c = 0; c < B.n; c++) W(r * br + off, c) -= B(r, c); vp::calls(); Plato::MatrixMinusMatrix(MA, MB, off); same(todense(*MA), W, "difference"); same(todense(*MB), B, "subtrahend changed"); });
        section("shape_errors_minus", 9, [&](u64 i) { Dec d(i); int a = 1 + d.take(3), b = 1 + d.take(3); Dense A, B; Mat MA = make({1, a, 1, 1, (1ull << a) - 1, 0, 0}, A), MB = make({1, b, 1, 1, (1ull << b) - 1, 0, 0}, B); vp::input(fmt("1x%d - 1x%d", a, b)); vp::calls();
            bool bad = throws([&] { Plato::MatrixMinusMatrix(MA, MB, 0); }); vp::check(bad == (a != b), "shape check"); obs(bad); });
    }
    {
        // histories: every sequence of operations on one matrix agrees with the dense model at every step
        const unsigned K = T ? 5 : 4;
        // matrices far beyond the exhaustive patterns, in five regular patterns, at three magnitudes
        vp::sweep({1, 1e-9, 1e9}, [&] { const int NL = T ? 60 : 24;
        section("large", (u64)NL * 5 * 3 * 5, [&](u64 i) {
            static const int BL[5][3] = {{1, 1, 1}, {2, 3, 1}, {3, 3, 3}, {4, 1, 2}, {1, 2, 4}}; Dec d(i); int kind = 1 + d.take(5), o = d.take(3); auto& bl = BL[d.take(5)]; int n = 4 + d.v, m = n + (int)(i % 3), l = n - (int)(i % 2);
            Spec sa{n, m, bl[0], bl[1], 0, o, 0, kind, 0}, sb{m, l, bl[1], bl[2], 0, (o + 1) % 3, 1, 1 + kind % 5, 0}; vp::input(str(sa) + " * " + str(sb)); Dense A, B; Mat MA = make(sa, A), MB = make(sb, B); vp::calls(5);
            std::vector<double> x(A.n), y(A.m); for(int k = 0; k < A.n; k++) x[k] = value(3, k) / vp::sc(); for(int k = 0; k < A.m; k++) y[k] = value(4, k); auto X = sv(x), Y = sv(y); Plato::MatrixTimesVectorPlusVector(MA, X, Y);
            for(int r = 0; r < A.m; r++) { double w = y[r]; for(int c = 0; c < A.n; c++) w += A(r, c) * x[c]; eq(Y(r), w, fmt("y(%d)", r).c_str(), 1e-9, 1e-9); }
            OV R, C; Plato::ScalarVector V; Plato::getDataAsNonBlock(MA, R, C, V); same(flat(R, C, V, A.m, A.n), A, "flattened"); Mat Q = Teuchos::rcp(new Crs(A.m, A.n, sa.br, sa.bc)); Plato::setDataFromNonBlock(Q, R, C, V); same(todense(*Q), A, "restored");
            Mat P = Teuchos::rcp(new Crs(A.m, B.n, sa.br, sb.bc)); Plato::MatrixMatrixMultiply(MA, MB, P); vp::degree(2); { Dense W = mul(A, B), G = todense(*P); for(int r = 0; r < W.m; r++) for(int c = 0; c < W.n; c++) eq(G(r, c), W(r, c), fmt("product(%d,%d)", r, c).c_str(), 1e-9, 1e-9); } vp::degree(1); same(todense(*MA), A, "A changed"); same(todense(*MB), B, "B changed");
            Spec se{n, m, 1, bl[1], 0, (o + 2) % 3, 2, 1 + (kind + 1) % 5, 0}; Dense E; Mat ME = make(se, E); int off = n % bl[0]; Dense W = A; for(int r = 0; r < E.m; r++) for(int c = 0; c < E.n; c++) W(r * bl[0] + off, c) -= E(r, c); Plato::MatrixMinusMatrix(MA, ME, off); same(todense(*MA), W, "difference"); same(todense(*ME), E, "subtrahend changed"); });
        });
        // few rows, many columns: wider than any fixed-size buffer one might use
        static const int WD[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 400};
        section("wide", 20 * 3 * 3 * 2 * 2, [&](u64 i) {
            Dec d(i); int n = d.pick(WD), o = d.take(3), bc = 1 + d.take(3), br = 1 + d.take(2); ZEROS = d.take(2); int nn = (n + bc - 1) / bc; struct Z { ~Z() { ZEROS = 0; } } z_;
            Spec s{2, nn, br, bc, 0, o, 0, 3, 0}; vp::input(str(s)); Dense D; Mat A = make(s, D); std::vector<double> x(D.n), y(D.m); for(int k = 0; k < D.n; k++) x[k] = 1 + k % 11; for(int k = 0; k < D.m; k++) y[k] = k; auto X = sv(x), Y = sv(y); vp::calls(4);
            Plato::MatrixTimesVectorPlusVector(A, X, Y); for(int r = 0; r < D.m; r++) { double w = y[r]; for(int c = 0; c < D.n; c++) w += D(r, c) * x[c]; eq(Y(r), w, fmt("y(%d)", r).c_str()); }
            OV R, C; Plato::ScalarVector V; Plato::getDataAsNonBlock(A, R, C, V); same(flat(R, C, V, D.m, D.n), D, "flattened"); Mat B = Teuchos::rcp(new Crs(D.m, D.n, s.br, s.bc)); Plato::setDataFromNonBlock(B, R, C, V); same(todense(*B), D, "restored");
            Dense P; Mat MP = make({nn, 2, bc, 2, 0, (o + 1) % 3, 1, 3, 0}, P); Mat Q = Teuchos::rcp(new Crs(D.m, P.n, br, 2)); Plato::MatrixMatrixMultiply(A, MP, Q); same(todense(*Q), mul(D, P), "wide times tall");
            Mat U = Teuchos::rcp(new Crs(P.m, D.n, bc, bc)); Dense E; Mat ME = make({2, nn, 2, bc, 0, o, 2, 3, 0}, E); if(n <= 130) { Plato::MatrixMatrixMultiply(MP, ME, U); same(todense(*U), mul(P, E), "tall times wide"); } });
        section("sort_wide", 20 * 6, [&](u64 i) {
            Dec d(i); int n = d.pick(WD), how = d.take(6); std::vector<int> c(n); for(int k = 0; k < n; k++) c[k] = how == 0 ? k : how == 1 ? n - 1 - k : how == 2 ? (k + n / 2) % n : how == 3 ? (k == n - 1 ? 0 : k + 1) : how == 4 ? (k == 0 ? n - 1 : k - 1) : (k % 2 ? n - 1 - k / 2 : k / 2);
            OV R("r", 3), C("c", n + 2); Plato::ScalarVector V("v", n + 2); R(1) = n; R(2) = n + 2; for(int k = 0; k < n; k++) { C(k) = c[k]; V(k) = 10 * c[k] + 1; } C(n) = 5; C(n + 1) = 1; V(n) = 51; V(n + 1) = 11; vp::input(fmt("%d columns, arrangement %d", n, how)); vp::calls();
            Plato::sortColumnEntries(R, C, V); for(int k = 0; k < n; k++) { eqi(C(k), k, "column"); eq(V(k), 10 * k + 1, "value"); } eqi(C(n), 1, "second row"); eq(V(n), 11, "second row"); eqi(C(n + 1), 5, "second row"); eq(V(n + 1), 51, "second row"); });
        section("histories", ipow(6, K) * 4, [&](u64 i) {
            Dec d(i); int b = 1 + d.take(2); u64 pat = d.take(2) ? 0xB : 0x6; Dense A, B, C, S1; Mat M = make({2, 2, b, b, pat, 0, 0}, A), MB = make({2, 2, 1, b, 0x9, 0, 1}, B), MC = make({2, 2, b, b, 0x7, 1, 2}, C); std::string h = fmt("b=%d pat=%llx: ", b, (unsigned long long)pat);
            for(unsigned k = 0; k < K; k++)
            {
                int o = d.take(6); vp::calls(); static const char* nm[] = {"minus(0) ", "minus(last) ", "times C ", "C times ", "flatten+restore ", "row-sum scale "}; h += nm[o]; vp::input(h);
                if(o < 2) { int off = o ? b - 1 : 0; Plato::MatrixMinusMatrix(M, MB, off); for(int r = 0; r < B.m; r++) for(int c = 0; c < B.n; c++) A(r * b + off, c) -= B(r, c); }
                else if(o == 2) { Mat N = Teuchos::rcp(new Crs(A.m, A.n, b, b)); Plato::MatrixMatrixMultiply(M, MC, N); M = N; A = mul(A, C); }
                else if(o == 3) { Mat N = Teuchos::rcp(new Crs(A.m, A.n, b, b)); Plato::MatrixMatrixMultiply(MC, M, N); M = N; A = mul(C, A); }
                else if(o == 4) { OV R, Q; Plato::ScalarVector V; Plato::getDataAsNonBlock(M, R, Q, V); Plato::setDataFromNonBlock(M, R, Q, V); }
                else { Dense P; Mat MP = make({2, 2, b, b, 0xF, 0, 3}, P, true); Plato::RowSummedInverseMultiply(MP, M); for(int r = 0; r < A.m; r++) { double s = 0; for(int c = 0; c < P.n; c++) s += P(r, c); for(int c = 0; c < A.n; c++) A(r, c) /= s; } }
                same(todense(*M), A, "state");
            } });
    }
#elif VP_PROP == 7
    {
        auto S = shapes(3, 3, 3, 2, 3);
        section("row_sum", S.size(), [&](u64 i) {
            const Spec& s = S[i]; vp::input(str(s)); Dense D; Mat A = make(s, D); Plato::RowSum f(A); Plato::ScalarVector v("v", D.m); for(int r = 0; r < D.m; r++) v(r) = r; vp::calls(s.mb);
            for(int b = 0; b < s.mb; b++) f(b, v); for(int r = 0; r < D.m; r++) { double w = r; for(int c = 0; c < D.n; c++) w += D(r, c); eq(v(r), w, fmt("row sum %d", r).c_str()); } });
        section("diagonal_inverse", S.size(), [&](u64 i) {
            const Spec& s = S[i]; vp::input(str(s)); Dense D; Mat A = make(s, D); Plato::DiagonalInverseMultiply f(A); Plato::ScalarVector v("v", D.m); for(int r = 0; r < D.m; r++) v(r) = r % 2 ? -1.5 - r : 2 + r; vp::calls();
            int b = i % s.mb; f(b, v); Dense W = D; for(int r = b * s.br; r < (b + 1) * s.br; r++) for(int c = 0; c < D.n; c++) W(r, c) /= v(r); same(todense(*A), W, "scaled"); for(int r = 0; r < D.m; r++) eq(v(r), r % 2 ? -1.5 - r : 2 + r, "diagonal changed"); });
        section("row_summed_inverse", S.size(), [&](u64 i) {
            const Spec& s = S[i]; Dense D, C; Mat A = make(s, D), M = make({s.mb, s.mb, s.br, s.br, (1ull << (s.mb * s.mb)) - 1, s.order, 1}, C, true); vp::input(str(s)); vp::calls(); Plato::RowSummedInverseMultiply(M, A);
            Dense W = D; for(int r = 0; r < D.m; r++) { double q = 0; for(int c = 0; c < C.n; c++) q += C(r, c); for(int c = 0; c < D.n; c++) W(r, c) /= q; } same(todense(*A), W, "scaled"); same(todense(*M), C, "mass matrix changed"); });
        // row-sum matrices with every pattern that leaves no row empty
        section("row_summed_patterns", 512 * 9, [&](u64 i) {
            Dec d(i); int br = 1 + d.take(3), bc = 1 + d.take(3); u64 p = d.v; for(int r = 0; r < 3; r++) if(!(p >> (3 * r) & 7)) { vp::skip(); vp::input("empty row"); return; }
            Dense D, C; Mat A = make({3, 2, br, bc, 0x35, 0, 0}, D), M = make({3, 3, br, br, p, 1, 1}, C, true); vp::input(fmt("pattern %llx", (unsigned long long)p)); vp::calls(); Plato::RowSummedInverseMultiply(M, A);
            Dense W = D; for(int r = 0; r < D.m; r++) { double q = 0; for(int c = 0; c < C.n; c++) q += C(r, c); for(int c = 0; c < D.n; c++) W(r, c) /= q; } same(todense(*A), W, "scaled"); });
        // x = b / row sum, for every pattern that leaves no row empty
        auto rs = [&](auto tag, u64 i) {
            constexpr int N = decltype(tag)::value; Dec d(i); int nb = 1 + d.take(3); u64 p = d.v % (1ull << (nb * nb)); vp::input(fmt("%d dofs/node, %d nodes, pattern %llx", N, nb, (unsigned long long)p)); for(int r = 0; r < nb; r++) if(!(p >> (nb * r) & ((1 << nb) - 1))) { vp::skip(); return; }
            Dense C; Mat A = make({nb, nb, N, N, p, (int)(i % 2), 1}, C, true); Plato::ScalarVector x("x", nb * N), b("b", nb * N); for(int k = 0; k < nb * N; k++) { x(k) = 50 + k; b(k) = value(1, k); } vp::calls(); Plato::Solve::RowSummed<N>(A, x, b);
            for(int k = 0; k < nb * N; k++) { double q = 0; for(int c = 0; c < C.n; c++) q += C(k, c); eq(x(k), value(1, k) / q, fmt("x(%d)", k).c_str()); eq(b(k), value(1, k), "right-hand side changed"); } same(todense(*A), C, "matrix changed"); };
        section("row_summed_solve_1", 3 * 512, [&](u64 i) { rs(std::integral_constant<int, 1>(), i); });
        section("row_summed_solve_2", 3 * 512, [&](u64 i) { rs(std::integral_constant<int, 2>(), i); });
        section("row_summed_solve_3", 3 * 512, [&](u64 i) { rs(std::integral_constant<int, 3>(), i); });
        auto iw = [&](auto tag, u64 i) {
            constexpr int I = decltype(tag)::value; Dec d(i); int nb = 1 + d.take(3); static const double sc[] = {1, -1, 0.5, 3}; double s = d.pick(sc); int useDefault = d.take(2);
            Plato::InverseWeight<I> f; Plato::ScalarVector rs("r", nb * I), rh("h", nb * I), lh("l", nb * I); for(int k = 0; k < nb * I; k++) { rs(k) = k % 2 ? -2.0 - k : 1.0 + k; rh(k) = value(1, k); lh(k) = 77; } int b = d.take(nb); vp::input(fmt("%d dofs/node node %d scale %g", I, b, s)); vp::calls();
            if(useDefault) { f(b, rs, rh, lh); s = 1; } else f(b, rs, rh, lh, s);
            for(int k = 0; k < nb * I; k++) eq(lh(k), k / I == b ? s * rh(k) / rs(k) : 77, fmt("lhs(%d)", k).c_str()); };
        section("inverse_weight_1", 3 * 4 * 2 * 3, [&](u64 i) { iw(std::integral_constant<int, 1>(), i); });
        section("inverse_weight_2", 3 * 4 * 2 * 3, [&](u64 i) { iw(std::integral_constant<int, 2>(), i); });
        section("inverse_weight_3", 3 * 4 * 2 * 3, [&](u64 i) { iw(std::integral_constant<int, 3>(), i); });
    }
    {
        // A - B RowSum(C)^-1 D written into one row of every block of A: every pattern of A, B and D
        const int NB = 2; u64 np = 1ull << (NB * NB);
        section("condense", np * np * np * (T ? 3 * 3 * 3 : 2 * 2 * 2) * 3, [&](u64 i) {
            Dec d(i); int mb = T ? 3 : 2; int r = 1 + d.take(mb), k = 1 + d.take(mb), c = 1 + d.take(mb), off = d.take(3); u64 pa = d.take(np), pb = d.take(np), pd = d.v; if(off >= r) { vp::skip(); return; }
            Dense A, B, C, D; Mat MA = make({NB, NB, r, c, pa, (int)(pb % 2), 0}, A), MB = make({NB, NB, 1, k, pb, (int)(pd % 2), 1}, B), MC = make({NB, NB, k, k, 0xF, 0, 2}, C, true), MD = make({NB, NB, k, c, pd, (int)(pa % 2), 3}, D);
            vp::input(fmt("A pattern %llx blocks %dx%d, B %llx 1x%d, D %llx, row %d", (unsigned long long)pa, r, c, (unsigned long long)pb, k, (unsigned long long)pd, off)); vp::calls(); Plato::Condense(MA, MB, MC, MD, off);
            Dense E = D; for(int q = 0; q < D.m; q++) { double s = 0; for(int w = 0; w < C.n; w++) s += C(q, w); for(int w = 0; w < D.n; w++) E(q, w) /= s; }
            Dense P = mul(B, E), W = A; for(int q = 0; q < P.m; q++) for(int w = 0; w < P.n; w++) W(q * r + off, w) -= P(q, w);
            same(todense(*MA), W, "condensed"); same(todense(*MB), B, "B changed"); same(todense(*MC), C, "C changed"); });
        // far beyond the exhaustive patterns, at three magnitudes
        vp::sweep({1, 1e-9, 1e9}, [&] { const int NL = T ? 40 : 16;
        section("large", (u64)NL * 5 * 3 * 3 * 3, [&](u64 i) {
            Dec d(i); int kind = 1 + d.take(5), o = d.take(3), r = 1 + d.take(3), k = 1 + d.take(3), n = 4 + d.v, c = 1 + (int)(i % 4), off = n % r; Dense A, B, C, D; Spec sa{n, n, r, c, 0, o, 0, kind, 0};
            Mat MA = make(sa, A), MB = make({n, n, 1, k, 0, (o + 1) % 3, 1, 1 + kind % 5, 0}, B), MC = make({n, n, k, k, 0, o, 2, 1 + (kind + 2) % 5, 0}, C, true), MD = make({n, n, k, c, 0, (o + 2) % 3, 3, 1 + (kind + 3) % 5, 0}, D); vp::input(str(sa)); vp::calls(3);
            Plato::RowSum f(MD); Plato::ScalarVector v("v", D.m); for(int b = 0; b < n; b++) f(b, v); for(int q = 0; q < D.m; q++) { double w = 0; for(int e = 0; e < D.n; e++) w += D(q, e); eq(v(q), w, fmt("row sum %d", q).c_str(), 1e-9, 1e-10); }
            Dense E = D; for(int q = 0; q < D.m; q++) { double t = 0; for(int w = 0; w < C.n; w++) t += C(q, w); for(int w = 0; w < D.n; w++) E(q, w) /= t; }
            Dense P = mul(B, E), W = A; for(int q = 0; q < P.m; q++) for(int w = 0; w < P.n; w++) W(q * r + off, w) -= P(q, w); Plato::Condense(MA, MB, MC, MD, off); same(todense(*MA), W, "condensed"); same(todense(*MB), B, "B changed"); same(todense(*MC), C, "C changed"); });
        });
        section("condense_tall", 16 * 16 * 4 * 6 * 2, [&](u64 i) {
            Dec d(i); ZEROS = d.take(2); struct Z { ~Z() { ZEROS = 0; } } z_; int r = 3 + d.take(4), off = d.take(6); u64 pa = d.take(16), pb = d.v, pd = (pa * 7 + pb * 5 + 3) & 15; if(off >= r) { vp::skip(); return; } Dense A, B, C, D;
            Mat MA = make({2, 2, r, r, pa, (int)(pb % 3), 0}, A), MB = make({2, 2, 1, 3, pb, (int)(pa % 3), 1}, B), MC = make({2, 2, 3, 3, 0xF, 0, 2}, C, true), MD = make({2, 2, 3, r, pd, 0, 3}, D); vp::input(fmt("%d rows per block, row %d, patterns %llx %llx", r, off, (unsigned long long)pa, (unsigned long long)pb)); vp::calls();
            Plato::Condense(MA, MB, MC, MD, off); Dense E = D; for(int q = 0; q < D.m; q++) { double t = 0; for(int w = 0; w < C.n; w++) t += C(q, w); for(int w = 0; w < D.n; w++) E(q, w) /= t; }
            Dense P = mul(B, E), W = A; for(int q = 0; q < P.m; q++) for(int w = 0; w < P.n; w++) W(q * r + off, w) -= P(q, w); same(todense(*MA), W, "condensed"); same(todense(*MB), B, "B changed"); same(todense(*MC), C, "C changed"); });
        section("condense_3", 512 * 9, [&](u64 i) {
            Dec d(i); int r = 1 + d.take(3), off = d.take(3); u64 p = d.v; if(off >= r) { vp::skip(); return; } Dense A, B, C, D;
            Mat MA = make({3, 3, r, r, p, 0, 0}, A), MB = make({3, 3, 1, 3, (p * 37 + 11) & 511, 1, 1}, B), MC = make({3, 3, 3, 3, 511, 0, 2}, C, true), MD = make({3, 3, 3, r, (p * 101 + 5) & 511, 2, 3}, D); vp::input(fmt("pattern %llx rows %d row %d", (unsigned long long)p, r, off)); vp::calls();
            Plato::Condense(MA, MB, MC, MD, off); Dense E = D; for(int q = 0; q < D.m; q++) { double s = 0; for(int w = 0; w < C.n; w++) s += C(q, w); for(int w = 0; w < D.n; w++) E(q, w) /= s; }
            Dense P = mul(B, E), W = A; for(int q = 0; q < P.m; q++) for(int w = 0; w < P.n; w++) W(q * r + off, w) -= P(q, w); same(todense(*MA), W, "condensed"); });
    }
#else
    {
        static const double sc[] = {1.0, 0.0, 0.5, -2.0};
        auto sec = [&](const char* nm, auto tag, int nb, bool block) {
            constexpr int ND = decltype(tag)::value; u64 np = 1ull << (nb * (nb - 1) / 2), nm_ = 1ull << (nb * ND);
            section(fmt("%s_%d_nodes%d", nm, ND, nb), np * nm_ * 2 * 3 * 4 * 3 * 2, [=](u64 i) { Dec d(i); bool sym = d.take(2); int vs = d.take(3); double s = sc[d.take(4)]; int dup = d.take(3), order = d.take(2); u64 pat = d.take(np), mask = d.v; constrain_case<ND>(nb, pat, block, sym, mask, vs, s, dup, order); }); };
        std::integral_constant<int, 1> c1; std::integral_constant<int, 2> c2; std::integral_constant<int, 3> c3; std::integral_constant<int, 4> c4;
        sec("block", c1, 1, true); sec("block", c1, 3, true); sec("block", c2, 1, true); sec("block", c2, 2, true); sec("block", c3, 1, true); sec("block", c3, 2, true); sec("block", c4, 1, true); if(T) { sec("block", c2, 3, true); sec("block", c1, 4, true); sec("block", c4, 2, true); }
        sec("plain", c1, 1, false); sec("plain", c1, 2, false); sec("plain", c1, 3, false); sec("plain", c1, 4, false); sec("plain", c2, 2, false); sec("plain", c3, 2, false);
        if(T) sec("plain", c2, 3, false);
        // stored zeros at every subset of the off-diagonal places (so a zero may face a non-zero across the diagonal), right-hand sides of any size
        auto zer = [&](const char* nm, auto tag, int nb, bool block) {
            constexpr int ND = decltype(tag)::value; const int N = nb * ND; const u64 nz = 1ull << (N * N - N), nm_ = 1ull << N;
            section(fmt("zeros_%s_%d_nodes%d", nm, ND, nb), nz * nm_ * 9, [=](u64 i) { Dec d(i); static const double rf[] = {3, 3e5, 3e-5}; double f = d.pick(rf); d.take(3); u64 mask = d.take(nm_), z = d.v, zz = 0; int k = 0;
                for(int r = 0; r < N; r++) for(int c = 0; c < N; c++) if(r != c) { if(z >> k & 1) zz |= 1ull << (r * N + c); k++; }
                constrain_case<ND>(nb, (1ull << (nb * (nb - 1) / 2)) - 1, block, false, mask, (int)(i / 3 % 3), 1.0, 0, 0, 0, nullptr, zz, f); }); };
        zer("block", c1, 3, true); zer("block", c2, 1, true); zer("block", c3, 1, true); zer("block", c1, 2, true); zer("plain", c1, 3, false); zer("plain", c2, 1, false); zer("plain", c1, 2, false); if(T) { zer("block", c2, 2, true); zer("plain", c1, 4, false); }
        // far beyond the exhaustive patterns: every single dof, one component of every node, whole nodes, all but one node, everything, at three magnitudes
        auto big = [&](const char* nm, auto tag, bool block) {
            constexpr int ND = decltype(tag)::value; const int NL = T ? 14 : 7;
            vp::sweep({1, 1e-6, 1e6}, [&] { section(fmt("large_%s_%d", nm, ND), (u64)NL * 5 * 2 * 2 * (10 * ND + ND + 4), [=](u64 i) {
                Dec d(i); int kind = 1 + d.take(5), vs = 1 + d.take(2), order = d.take(2), w = d.take(10 * ND + ND + 4), n = 4 + 3 * d.v, N = n * ND; std::vector<int> l;
                if(w < 10 * ND) l.push_back((w * 7 + n) % N); else if((w -= 10 * ND) < ND) { for(int k = w; k < N; k += ND) l.push_back(k); } else { w -= ND; for(int k = 0; k < N; k++) if(w == 0 ? (k / ND) % 3 == 0 : w == 1 ? k / ND != n / 2 : w == 2 ? true : k / ND < n / 2) l.push_back(k); }
                constrain_case<ND>(n, 0, block, i % 2, 0, vs, w % 2 ? 1.0 : 0.5, i % 3, order, kind, &l, i % 5 == 2 && i % 2 == 0, w % 3 == 1 ? 3e5 : 3.0); }); }); };
        big("block", c1, true); big("block", c2, true); big("block", c3, true); big("block", c4, true); big("plain", c1, false); big("plain", c3, false);
    }
#endif
    (void)copies;
}
