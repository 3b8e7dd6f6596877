// A serial stand-in for the part of Omega_h that /repo calls: small fixed-size algebra, shared arrays, simplex meshes with their
// entities and adjacencies, sets, tags, and a writer that records what it is given. Written from Omega_h's documented interface;
// no verdict depends on it beyond holding the mesh (the harness builds every mesh and computes every reference by itself).
#pragma once
#include <Kokkos_Core.hpp>
#include <Teuchos_ParameterList.hpp>
#include <mpi.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define OMEGA_H_INLINE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_CHECK(c) do { if(!(c)) throw std::runtime_error("Omega_h check failed: " #c); } while(0)
enum Omega_h_Family { OMEGA_H_SIMPLEX = 0, OMEGA_H_HYPERCUBE = 1 };
enum Omega_h_Parting { OMEGA_H_ELEM_BASED = 0, OMEGA_H_GHOSTED = 1, OMEGA_H_VERT_BASED = 2 };
namespace Omega_h
{
typedef std::int8_t I8; typedef std::int32_t I32; typedef std::int64_t I64; typedef I32 Int; typedef I32 LO; typedef I64 GO; typedef double Real; typedef I32 ClassId;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
constexpr Real PI = 3.141592653589793;
template<typename T> OMEGA_H_INLINE T max2(T a, T b) { return (b > a) ? b : a; }
template<typename T> OMEGA_H_INLINE T min2(T a, T b) { return (b < a) ? b : a; }
template<typename T> OMEGA_H_INLINE T square(T a) { return a * a; }

// fixed-size algebra: a matrix is a row of columns
template<typename T, int n> struct Few
{
    T a[n ? n : 1];
    OMEGA_H_INLINE Few() {} OMEGA_H_INLINE Few(std::initializer_list<T> l) { int i = 0; for(auto& x : l) a[i++] = x; }
    enum { size = n };
    OMEGA_H_INLINE T& operator[](int i) { return a[i]; } OMEGA_H_INLINE const T& operator[](int i) const { return a[i]; }
    OMEGA_H_INLINE T* data() { return a; } OMEGA_H_INLINE const T* data() const { return a; }
};
template<int n> struct Vector : Few<Real, n>
{
    OMEGA_H_INLINE Vector() {} OMEGA_H_INLINE Vector(std::initializer_list<Real> l) : Few<Real, n>(l) {}
    OMEGA_H_INLINE Real& operator()(int i) { return this->a[i]; } OMEGA_H_INLINE const Real& operator()(int i) const { return this->a[i]; }
};
template<int m, int n> struct Matrix : Few<Vector<m>, n>
{
    OMEGA_H_INLINE Matrix() {} OMEGA_H_INLINE Matrix(std::initializer_list<Vector<m>> l) : Few<Vector<m>, n>(l) {}
    OMEGA_H_INLINE Real& operator()(int i, int j) { return this->a[j][i]; } OMEGA_H_INLINE const Real& operator()(int i, int j) const { return this->a[j][i]; }
};
template<int d> using Tensor = Matrix<d, d>;
template<int n> OMEGA_H_INLINE Vector<n> operator+(Vector<n> x, Vector<n> y) { for(int i = 0; i < n; i++) x[i] += y[i]; return x; }
template<int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> x, Vector<n> y) { for(int i = 0; i < n; i++) x[i] -= y[i]; return x; }
template<int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> x) { for(int i = 0; i < n; i++) x[i] = -x[i]; return x; }
template<int n> OMEGA_H_INLINE Vector<n> operator*(Vector<n> x, Real s) { for(int i = 0; i < n; i++) x[i] *= s; return x; }
template<int n> OMEGA_H_INLINE Vector<n> operator*(Real s, Vector<n> x) { return x * s; }
template<int n> OMEGA_H_INLINE Vector<n> operator/(Vector<n> x, Real s) { for(int i = 0; i < n; i++) x[i] /= s; return x; }
template<int n> OMEGA_H_INLINE Real operator*(Vector<n> x, Vector<n> y) { Real s = 0; for(int i = 0; i < n; i++) s += x[i] * y[i]; return s; }
template<int n> OMEGA_H_INLINE Real inner_product(Vector<n> x, Vector<n> y) { return x * y; }
template<int n> OMEGA_H_INLINE Real norm(Vector<n> x) { return std::sqrt(x * x); }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> operator+(Matrix<m, n> x, Matrix<m, n> y) { for(int j = 0; j < n; j++) x[j] = x[j] + y[j]; return x; }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> operator-(Matrix<m, n> x, Matrix<m, n> y) { for(int j = 0; j < n; j++) x[j] = x[j] - y[j]; return x; }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, n> x, Real s) { for(int j = 0; j < n; j++) x[j] = x[j] * s; return x; }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> operator*(Real s, Matrix<m, n> x) { return x * s; }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> operator/(Matrix<m, n> x, Real s) { for(int j = 0; j < n; j++) x[j] = x[j] / s; return x; }
template<int m, int n> OMEGA_H_INLINE Vector<m> operator*(Matrix<m, n> x, Vector<n> v) { Vector<m> r; for(int i = 0; i < m; i++) { r[i] = 0; for(int j = 0; j < n; j++) r[i] += x(i, j) * v[j]; } return r; }
template<int m, int n, int p> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, p> x, Matrix<p, n> y) { Matrix<m, n> r; for(int j = 0; j < n; j++) r[j] = x * y[j]; return r; }
template<int m, int n> OMEGA_H_INLINE Matrix<n, m> transpose(Matrix<m, n> x) { Matrix<n, m> r; for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) r(j, i) = x(i, j); return r; }
template<int m, int n> OMEGA_H_INLINE Matrix<m, n> outer_product(Vector<m> x, Vector<n> y) { Matrix<m, n> r; for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) r(i, j) = x[i] * y[j]; return r; }
template<int d> OMEGA_H_INLINE Tensor<d> identity_tensor() { Tensor<d> r; for(int i = 0; i < d; i++) for(int j = 0; j < d; j++) r(i, j) = i == j; return r; }
template<int d> OMEGA_H_INLINE Tensor<d> identity_matrix() { return identity_tensor<d>(); }
inline Vector<1> vector_1(Real x) { return {x}; } inline Vector<2> vector_2(Real x, Real y) { return {x, y}; } inline Vector<3> vector_3(Real x, Real y, Real z) { return {x, y, z}; }
inline Tensor<3> tensor_3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i) { Tensor<3> r; r(0, 0) = a; r(0, 1) = b; r(0, 2) = c; r(1, 0) = d; r(1, 1) = e; r(1, 2) = f; r(2, 0) = g; r(2, 1) = h; r(2, 2) = i; return r; }
OMEGA_H_INLINE Real determinant(Matrix<1, 1> m) { return m(0, 0); }
OMEGA_H_INLINE Real determinant(Matrix<2, 2> m) { return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); }
OMEGA_H_INLINE Real determinant(Matrix<3, 3> m) { return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
template<int d> OMEGA_H_INLINE Matrix<d, d> invert(Matrix<d, d> m)
{
    Matrix<d, d> r; const Real D = determinant(m);
    if(d == 1) { r(0, 0) = 1 / D; return r; }
    for(int i = 0; i < d; i++) for(int j = 0; j < d; j++)
    {
        if(d == 2) r(i, j) = ((i + j) % 2 ? -1 : 1) * m(1 - j, 1 - i) / D;
        else { int a = (j + 1) % d, b = (j + 2) % d, c = (i + 1) % d, e = (i + 2) % d; r(i, j) = (m(a, c) * m(b, e) - m(a, e) * m(b, c)) / D; }
    }
    return r;
}
template<int d> struct DiagDecomp { Tensor<d> q; Vector<d> l; };
template<int d> inline DiagDecomp<d> decompose_eigen_jacobi(Tensor<d> m) // m = q diag(l) transpose(q)
{
    Tensor<d> q = identity_tensor<d>();
    for(int sweep = 0; sweep < 100; sweep++) for(int p = 0; p < d; p++) for(int r = p + 1; r < d; r++)
    {
        if(std::fabs(m(p, r)) < 1e-300) continue;
        Real t = (m(r, r) - m(p, p)) / (2 * m(p, r)), g = (t >= 0 ? 1 : -1) / (std::fabs(t) + std::sqrt(1 + t * t)), c = 1 / std::sqrt(1 + g * g), s = g * c;
        for(int k = 0; k < d; k++) { Real x = m(k, p), y = m(k, r); m(k, p) = c * x - s * y; m(k, r) = s * x + c * y; }
        for(int k = 0; k < d; k++) { Real x = m(p, k), y = m(r, k); m(p, k) = c * x - s * y; m(r, k) = s * x + c * y; }
        for(int k = 0; k < d; k++) { Real x = q(k, p), y = q(k, r); q(k, p) = c * x - s * y; q(k, r) = s * x + c * y; }
    }
    // largest first, as Omega_h sorts them
    DiagDecomp<d> o; int id[d]; for(int i = 0; i < d; i++) id[i] = i; std::sort(id, id + d, [&](int a, int b) { return m(a, a) > m(b, b); });
    for(int i = 0; i < d; i++) { o.l[i] = m(id[i], id[i]); o.q[i] = q[id[i]]; } return o;
}
template<int d> inline DiagDecomp<d> sort_by_magnitude(DiagDecomp<d> x) { return x; }

// arrays: handles to shared storage
template<typename T> class Write
{
    Kokkos::View<T*, Kokkos::LayoutRight, Kokkos::HostSpace> v;
public:
    Write() {} Write(const Kokkos::View<T*, Kokkos::LayoutRight, Kokkos::HostSpace>& x) : v(x) {}
    template<class... P> Write(const Kokkos::View<T*, P...>& x) : v("w", x.extent(0)) { for(size_t i = 0; i < x.extent(0); i++) v(i) = x(i); }
    Write(LO n, const std::string& = "") : v("w", n) {} Write(LO n, T x, const std::string& = "") : v("w", n) { for(LO i = 0; i < n; i++) v(i) = x; }
    Write(std::initializer_list<T> l, const std::string& = "") : v("w", l.size()) { size_t i = 0; for(auto& x : l) v(i++) = x; }
    T& operator[](LO i) const { return v(i); } LO size() const { return v.extent(0); } T* data() const { return v.data(); } auto view() const { return v; } bool exists() const { return v.data(); }
};
template<typename T> class Read
{
    Write<T> w;
public:
    Read() {} Read(const Write<T>& x) : w(x) {} Read(LO n, T x, const std::string& = "") : w(n, x) {} Read(std::initializer_list<T> l, const std::string& = "") : w(l) {}
    const T& operator[](LO i) const { return w[i]; } LO size() const { return w.size(); } const T* data() const { return w.data(); } T get(LO i) const { return w[i]; } T first() const { return w[0]; } T last() const { return w[w.size() - 1]; }
    Kokkos::View<const T*, Kokkos::LayoutRight, Kokkos::HostSpace> view() const { return w.view(); } bool exists() const { return w.exists(); }
};
typedef Read<LO> LOs; typedef Read<Real> Reals; typedef Read<GO> GOs; typedef Read<I8> Bytes;
template<typename T> class HostWrite
{
    Write<T> w;
public:
    HostWrite() {} HostWrite(LO n, const std::string& = "") : w(n) {} HostWrite(const Write<T>& x) : w(x) {} HostWrite(std::initializer_list<T> l, const std::string& = "") : w(l) {}
    T& operator[](LO i) const { return w[i]; } LO size() const { return w.size(); } T* data() const { return w.data(); } Write<T> write() const { return w; } T get(LO i) const { return w[i]; } void set(LO i, T x) const { w[i] = x; }
};
template<typename T> class HostRead
{
    Read<T> r;
public:
    HostRead() {} HostRead(const Read<T>& x) : r(x) {} const T& operator[](LO i) const { return r[i]; } LO size() const { return r.size(); } const T* data() const { return r.data(); } T get(LO i) const { return r[i]; }
};
struct Graph { LOs a2ab, ab2b; };
struct Adj : Graph { Read<I8> codes; };

// boundary entities of a simplex, outward when the simplex is positively oriented
inline int side_vertex(int dim, int side, int k)
{
    static const int T2[3][2] = {{0, 1}, {1, 2}, {2, 0}}, T3[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
    return dim == 1 ? side : dim == 2 ? T2[side][k] : T3[side][k];
}
inline Vector<1> get_side_vector(Few<Vector<1>, 2>, Int s) { return {s ? 1.0 : -1.0}; }
inline Vector<2> get_side_vector(Few<Vector<2>, 3> p, Int s) { auto a = p[side_vertex(2, s, 0)], b = p[side_vertex(2, s, 1)]; return {b[1] - a[1], a[0] - b[0]}; }
inline Vector<3> get_side_vector(Few<Vector<3>, 4> p, Int s)
{
    auto o = p[side_vertex(3, s, 0)], a = p[side_vertex(3, s, 1)] - o, b = p[side_vertex(3, s, 2)] - o;
    return {(a[1] * b[2] - a[2] * b[1]) / 2, (a[2] * b[0] - a[0] * b[2]) / 2, (a[0] * b[1] - a[1] * b[0]) / 2};
}

struct Comm { int rank() const { return 0; } int size() const { return 1; } MPI_Comm get_impl() const { return MPI_COMM_SELF; } void barrier() const {} }; typedef std::shared_ptr<Comm> CommPtr;
struct Library { CommPtr c = std::make_shared<Comm>(); Library() {} Library(int*, char***) {} CommPtr world() { return c; } CommPtr self() { return c; } };
struct TagSetRecord {}; typedef std::array<std::map<std::string, int>, 4> TagSet;

class Mesh
{
    struct Tag { int comps; Reals data; };
    int d = 0; LO nv = 0, ne = 0; LOs e2v; Reals x; std::vector<std::vector<LO>> sides; LOs e2s, s2v; std::map<std::string, Tag> tags[4];
public:
    Mesh() {} Mesh(Library*) {}
    Library* library() const { static Library l; return &l; } CommPtr comm() const { return library()->world(); }
    void build(int dim, LO nverts, const std::vector<LO>& conn, const std::vector<Real>& xyz)
    {
        d = dim; nv = nverts; ne = conn.size() / (d + 1); Write<LO> c(conn.size()); for(size_t i = 0; i < conn.size(); i++) c[i] = conn[i]; e2v = c; Write<Real> y(xyz.size()); for(size_t i = 0; i < xyz.size(); i++) y[i] = xyz[i]; x = y;
        for(auto& t : tags) t.clear(); tags[0]["coordinates"] = Tag{d, x};
        std::map<std::vector<LO>, LO> id; std::vector<std::vector<LO>> up; sides.clear(); Write<LO> es(ne * (d + 1));
        for(LO e = 0; e < ne; e++) for(int s = 0; s <= d; s++)
        {
            std::vector<LO> f; for(int k = 0; k < d; k++) f.push_back(e2v[e * (d + 1) + side_vertex(d, s, k)]); auto key = f; std::sort(key.begin(), key.end());
            auto it = id.find(key); if(it == id.end()) { it = id.insert({key, (LO)sides.size()}).first; sides.push_back(f); } es[e * (d + 1) + s] = it->second;
        }
        e2s = es; Write<LO> sv(sides.size() * d); for(size_t s = 0; s < sides.size(); s++) for(int k = 0; k < d; k++) sv[s * d + k] = sides[s][k]; s2v = sv;
    }
    Int dim() const { return d; } LO nverts() const { return nv; } LO nelems() const { return ne; } LO nents(Int k) const { return k == 0 ? nv : k == d ? ne : k == d - 1 ? (LO)sides.size() : throw std::runtime_error("nents"); } LO nfaces() const { return nents(2); } LO nedges() const { return nents(1); }
    LOs ask_elem_verts() const { return e2v; } Reals coords() const { return tags[0].at("coordinates").data; } void set_coords(const Reals& c) { tags[0]["coordinates"].data = c; }
    LOs ask_verts_of(Int k) const { if(k == d) return e2v; if(k == d - 1) return s2v; throw std::runtime_error("ask_verts_of"); }
    Adj ask_down(Int from, Int to) const { Adj a; if(from == d && to == 0) a.ab2b = e2v; else if(from == d && to == d - 1) a.ab2b = e2s; else if(from == d - 1 && to == 0) a.ab2b = s2v; else throw std::runtime_error("ask_down"); return a; }
    Adj ask_up(Int from, Int to) const
    {
        if(to != d) throw std::runtime_error("ask_up"); const LOs down = from == 0 ? e2v : from == d - 1 ? e2s : throw std::runtime_error("ask_up"); const LO n = nents(from); std::vector<std::vector<std::pair<LO, int>>> u(n);
        for(LO e = 0; e < ne; e++) for(int k = 0; k <= d; k++) u[down[e * (d + 1) + k]].push_back({e, k});
        Write<LO> o(n + 1), b(ne * (d + 1)); Write<I8> c(ne * (d + 1)); LO t = 0; for(LO i = 0; i < n; i++) { o[i] = t; for(auto& p : u[i]) { b[t] = p.first; c[t++] = p.second << 3; } } o[n] = t; Adj a; a.a2ab = o; a.ab2b = b; a.codes = c; return a;
    }
    Graph ask_star(Int k) const // vertices that share an element, without the vertex itself
    {
        if(k != 0) throw std::runtime_error("ask_star"); std::vector<std::vector<LO>> s(nv); for(LO e = 0; e < ne; e++) for(int i = 0; i <= d; i++) for(int j = 0; j <= d; j++) if(i != j) s[e2v[e * (d + 1) + i]].push_back(e2v[e * (d + 1) + j]);
        std::vector<LO> b; Write<LO> o(nv + 1); for(LO i = 0; i < nv; i++) { o[i] = b.size(); std::sort(s[i].begin(), s[i].end()); s[i].erase(std::unique(s[i].begin(), s[i].end()), s[i].end()); b.insert(b.end(), s[i].begin(), s[i].end()); } o[nv] = b.size();
        Write<LO> w(b.size()); for(size_t i = 0; i < b.size(); i++) w[i] = b[i]; return Graph{o, w};
    }
    void set_parting(Omega_h_Parting, bool = false) {}
    template<typename T> void add_tag(Int k, const std::string& n, Int comps, const Read<T>& a, bool = false) { put(k, n, comps, a); } template<typename T> void add_tag(Int k, const std::string& n, Int comps) { tags[k][n] = Tag{comps, Reals()}; }
    template<typename T> void set_tag(Int k, const std::string& n, const Read<T>& a, bool = false) { put(k, n, tags[k].at(n).comps, a); }
    bool has_tag(Int k, const std::string& n) const { return tags[k].count(n); } void remove_tag(Int k, const std::string& n) { tags[k].erase(n); } Int ntags(Int k) const { return tags[k].size(); }
    template<typename T> Read<T> get_array(Int k, const std::string& n) const { return tags[k].at(n).data; }
    std::vector<std::string> tag_names(Int k) const { std::vector<std::string> r; for(auto& t : tags[k]) r.push_back(t.first); return r; }
    Int tag_components(Int k, const std::string& n) const { return tags[k].at(n).comps; }
    std::vector<Real> tag_data(Int k, const std::string& n) const { auto& t = tags[k].at(n); return std::vector<Real>(t.data.data(), t.data.data() + t.data.size()); }
private:
    template<typename T> void put(Int k, const std::string& n, Int comps, const Read<T>& a) { Write<Real> w(a.size()); for(LO i = 0; i < a.size(); i++) w[i] = a[i]; if(a.size() != comps * nents(k)) throw std::runtime_error("tag '" + n + "' has the wrong length"); tags[k][n] = Tag{comps, w}; }
};
inline void build_from_elems_and_coords(Mesh* m, Omega_h_Family, Int dim, const LOs& ev, const Reals& x) { m->build(dim, x.size() / dim, std::vector<LO>(ev.data(), ev.data() + ev.size()), std::vector<Real>(x.data(), x.data() + x.size())); }
// the box of Omega_h, without its renumbering
inline Mesh build_box(const CommPtr&, Omega_h_Family, Real X, Real Y, Real Z, LO nx, LO ny, LO nz, bool = false)
{
    Mesh m; const int d = nz ? 3 : ny ? 2 : 1; std::vector<Real> x; std::vector<LO> c; auto id = [=](LO i, LO j, LO k) { return i + (nx + 1) * (j + (ny + 1) * k); };
    for(LO k = 0; k <= (d > 2 ? nz : 0); k++) for(LO j = 0; j <= (d > 1 ? ny : 0); j++) for(LO i = 0; i <= nx; i++) { x.push_back(X * i / nx); if(d > 1) x.push_back(Y * j / ny); if(d > 2) x.push_back(Z * k / nz); }
    for(LO k = 0; k < (d > 2 ? nz : 1); k++) for(LO j = 0; j < (d > 1 ? ny : 1); j++) for(LO i = 0; i < nx; i++)
    {
        if(d == 1) { c.insert(c.end(), {i, i + 1}); continue; }
        if(d == 2) { LO a = id(i, j, 0), b = id(i + 1, j, 0), e = id(i + 1, j + 1, 0), f = id(i, j + 1, 0); c.insert(c.end(), {a, b, e, e, f, a}); continue; }
        LO v[8]; for(int n = 0; n < 8; n++) v[n] = id(i + (n & 1), j + ((n >> 1) & 1), k + (n >> 2)); const int T[6][4] = {{0, 1, 3, 7}, {0, 3, 2, 7}, {0, 2, 6, 7}, {0, 6, 4, 7}, {0, 4, 5, 7}, {0, 5, 1, 7}}; for(auto& t : T) for(int n : t) c.push_back(v[n]);
    }
    m.build(d, x.size() / d, c, x); return m;
}
inline void classify_by_angles(Mesh*, Real) {}
inline Mesh read_mesh_file(const std::string& f, const CommPtr&) { throw std::runtime_error("no mesh files here: " + f); }

// sets
enum { ELEM_SET = 0, SIDE_SET = 1, NODE_SET = 2 };
typedef std::map<std::string, LOs> MeshDimSets; typedef std::array<MeshDimSets, 3> MeshSets; struct ClassPair { int dim; LO id; }; typedef std::map<std::string, std::vector<ClassPair>> ClassSets; typedef std::array<ClassSets, 3> Assoc;
inline void update_assoc(Assoc*, const Teuchos::ParameterList&) {} inline MeshSets invert(Mesh*, const Assoc&) { return MeshSets(); } inline Assoc get_box_assoc(int) { return Assoc(); } inline Assoc read_assoc_file(Mesh*, const std::string&) { return Assoc(); }

// output: what would have been written is kept
namespace vtk
{
struct Record { std::string path; int step; double time; std::map<std::string, std::pair<int, std::vector<Real>>> nodal, cellwise; };
inline std::vector<Record>& records() { static std::vector<Record> r; return r; }
inline TagSet get_all_vtk_tags(Mesh* m, Int) { TagSet t; for(int k : {0, (int)m->dim()}) for(auto& n : m->tag_names(k)) t[k][n] = m->tag_components(k, n); return t; }
inline void keep(const std::string& p, Mesh* m, int step, double time, const TagSet& t) { Record r; r.path = p; r.step = step; r.time = time; for(auto& n : t[0]) r.nodal[n.first] = {n.second, m->tag_data(0, n.first)}; for(auto& n : t[m->dim()]) r.cellwise[n.first] = {n.second, m->tag_data(m->dim(), n.first)}; records().push_back(r); }
class Writer
{
    std::string p; Mesh* m; int n = 0;
public:
    Writer(const std::string& path, Mesh* mesh, Int = -1, Real = 0.0) : p(path), m(mesh) {}
    void write(Int step, Real t, const TagSet& s) { keep(p, m, step, t, s); n = step + 1; } void write(Real t, const TagSet& s) { keep(p, m, n++, t, s); } void write(Real t) { write(t, get_all_vtk_tags(m, m->dim())); }
};
inline void write_parallel(const std::string& p, Mesh* m, const TagSet& t, bool = false) { keep(p, m, 0, 0, t); } inline void write_parallel(const std::string& p, Mesh* m, Int d = -1, bool = false) { keep(p, m, 0, 0, get_all_vtk_tags(m, d)); } inline void write_vtu(const std::string& p, Mesh* m, Int d = -1, bool = false) { write_parallel(p, m, d); }
}
namespace exodus { inline void write(const std::string& p, Mesh* m, bool = false, int = 0) { vtk::write_parallel(p, m); } }

// expressions over points
class any { public: Reals r; any() {} any(const Reals& x) : r(x) {} }; template<typename T> inline T any_cast(const any& a) { return a.r; }
class ExprReader
{
    LO n; std::map<std::string, Reals> vars; std::string s; size_t p = 0; LO pt = 0;
    void ws() { while(p < s.size() && isspace((unsigned char)s[p])) p++; } bool eat(char c) { ws(); if(p < s.size() && s[p] == c) { p++; return true; } return false; }
    Real sum() { Real v = term(); for(;;) { if(eat('+')) v += term(); else if(eat('-')) v -= term(); else return v; } }
    Real term() { Real v = factor(); for(;;) { if(eat('*')) v *= factor(); else if(eat('/')) v /= factor(); else return v; } }
    Real factor() { if(eat('-')) return -factor(); Real v = atom(); if(eat('^')) v = std::pow(v, factor()); return v; }
    Real atom()
    {
        if(eat('(')) { Real v = sum(); if(!eat(')')) throw std::runtime_error("expression: ) expected"); return v; }
        ws(); if(p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.')) { size_t k; Real v = std::stod(s.substr(p), &k); p += k; return v; }
        size_t b = p; while(p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++; std::string w = s.substr(b, p - b);
        if(eat('(')) { Real v = sum(); if(!eat(')')) throw std::runtime_error("expression: ) expected"); if(w == "sin") return std::sin(v); if(w == "cos") return std::cos(v); if(w == "exp") return std::exp(v); if(w == "sqrt") return std::sqrt(v); throw std::runtime_error("expression: function " + w); }
        if(w == "pi") return PI; auto it = vars.find(w); if(it == vars.end()) throw std::runtime_error("expression: unknown " + w); return it->second[pt];
    }
public:
    ExprReader(LO points, Int) : n(points) {} void register_variable(const std::string& k, const any& v) { vars[k] = v.r; } void repeat(any&) {}
    any read_string(const std::string& e, const std::string&) { Write<Real> w(n); for(pt = 0; pt < n; pt++) { s = e; p = 0; w[pt] = sum(); ws(); if(p != s.size()) throw std::runtime_error("expression: trailing text in " + e); } return any(w); }
};
inline void update_parameters_from_file(const std::string& f, Teuchos::ParameterList*, const Comm&) { throw std::runtime_error("no input files here: " + f); }
// marks
inline LOs collect_marked(const Read<I8>& m) { std::vector<LO> r; for(LO i = 0; i < m.size(); i++) if(m[i]) r.push_back(i); Write<LO> w(r.size()); for(size_t i = 0; i < r.size(); i++) w[i] = r[i]; return w; }
} // namespace Omega_h
