// Imposing prescribed values on an elemental system: for every matrix, right-hand side and value.
// VCFLAGS: timeout=200 link=anifem++/fem/tetdofmap.cpp
#include "dofmodel.h"
#include <set>
using namespace vcx; using namespace Ani::DofT;
struct Sys { int m, n; std::vector<double> a, f, u, A0, F0; DenseMatrix<> A, F;
    Sys(int m, int n): m(m), n(n), a(m * n), f(m), u(n) { fill_real(a.data(), m * n, "a"); fill_real(f.data(), m, "f"); A0 = a; F0 = f; A.Init(a.data(), m, n, m * n); F.Init(f.data(), m, 1, m); }
    double res0(int i) const { double s = -F0[i]; for (int j = 0; j < n; ++j) s += A0[i + m * j] * u[j]; return s; }     // residual of the original equation i
    double res(int i) const { double s = -f[i]; for (int j = 0; j < n; ++j) s += a[i + m * j] * u[j]; return s; }
    void free_u() { fill_real(u.data(), n, "u"); }
};
// rows R[k] of the tests and columns C[k] of the unknowns are constrained; values b[k] (hasF: right-hand side handled)
static void constrained(Sys& s, const std::vector<int>& R, const std::vector<int>& C, const std::vector<double>& b, bool withF, bool unit) {
    std::vector<int> row(s.m, -1), col(s.n, -1); for (unsigned k = 0; k < R.size(); ++k) row[R[k]] = k, col[C[k]] = k;
    for (int i = 0; i < s.m; ++i) for (int j = 0; j < s.n; ++j) {
        double w = (row[i] >= 0 || col[j] >= 0) ? (unit && row[i] >= 0 && row[i] == col[j] ? 1.0 : 0.0) : s.A0[i + s.m * j];
        vc_eq(s.a[i + s.m * j], w, row[i] < 0 && col[j] < 0 ? "free unknowns keep their coefficients" : "coefficients of constrained equations and unknowns");
    }
    if (!withF) return;
    s.free_u(); for (unsigned k = 0; k < C.size(); ++k) if (unit) { double keep = s.u[C[k]]; vc_eq(s.res(R[k]), keep - b[k], "the constrained equation says unknown = value"); s.u[C[k]] = b[k]; }
    for (int i = 0; i < s.m; ++i) if (row[i] < 0) {
        vc_eq(s.res(i), s.res0(i), "other equations hold for the same free unknowns");
        double w = s.F0[i]; for (unsigned k = 0; k < C.size(); ++k) w -= s.A0[i + s.m * C[k]] * b[k]; vc_eq(s.f[i], w, "right-hand side of the other equations");
    }
}
VC(scalar_dir) { int n = vc_choose("n", 1, 6), k = vc_choose("k", 0, n - 1); Sys s(n, n); double b = vc_real("b", -2, 2); applyDir(s.A, s.F, k, b); constrained(s, {k}, {k}, {b}, true, true); }
VC(scalar_matrix) { int n = vc_choose("n", 1, 6), k = vc_choose("k", 0, n - 1); Sys s(n, n); applyDirMatrix(s.A, k); constrained(s, {k}, {k}, {}, false, true); for (int i = 0; i < n; ++i) vc_eq(s.f[i], s.F0[i], "right-hand side untouched"); }
VC(scalar_residual) { int n = vc_choose("n", 1, 6), k = vc_choose("k", 0, n - 1); Sys s(n, n); applyDirResidual(s.F, k); for (int i = 0; i < n; ++i) vc_eq(s.f[i], i == k ? 0 : s.F0[i], "only the requested entry is zeroed"); }
VC(scalar_nonexists) { int m = vc_choose("m", 1, 5), n = vc_choose("n", 1, 5), k = vc_choose("k", 0, std::min(m, n) - 1); Sys s(m, n); int v = vc_choose("rhs", 0, 1); if (v) applyDirNonExists(s.A, s.F, k); else applyDirNonExists(s.A, k); constrained(s, {k}, {k}, {}, false, false); for (int i = 0; i < m; ++i) vc_eq(s.f[i], v && i == k ? 0 : s.F0[i], "only the requested entry of the right-hand side is zeroed"); }
VC(repeated) { int n = 5; Sys s(n, n); double b[3]; fill_real(b, 3, "b"); static const int o[6][3] = {{0, 2, 4}, {4, 2, 0}, {1, 0, 3}, {3, 4, 1}, {2, 1, 0}, {0, 1, 2}}; int c = vc_choose("order", 0, 5); for (int k = 0; k < 3; ++k) applyDir(s.A, s.F, o[c][k], b[k]); constrained(s, {o[c][0], o[c][1], o[c][2]}, {o[c][0], o[c][1], o[c][2]}, {b[0], b[1], b[2]}, true, true); }
// selections of geometric parts
using P = std::shared_ptr<BaseDofMap>;
static P leaf(std::array<uint, 6> n) { return std::make_shared<UniteDofMap>(n); }
static P vec(int d, P b) { return std::make_shared<VectorDofMap>(d, b); }
static P com(std::vector<P> v) { return std::make_shared<ComplexDofMap>(v); }
struct MapM { P map; Model m; };
static MapM pick(int k) { std::array<uint, 6> p1 = {1, 0, 0, 0, 0, 0}, p2 = {1, 1, 0, 0, 0, 0}, p0 = {0, 0, 0, 0, 0, 1}, nd = {0, 0, 1, 0, 0, 0}, cr = {0, 0, 0, 1, 0, 0}; Model P1 = m_leaf(p1), P2 = m_leaf(p2), P0 = m_leaf(p0), ND = m_leaf(nd), CR = m_leaf(cr);
    switch (k) { case 0: return {leaf(p2), P2}; case 1: return {vec(3, leaf(p1)), m_vec(3, P1)}; case 2: return {com({leaf(p1), leaf(p0), leaf(p1)}), m_cat({P1, P0, P1})}; case 3: return {com({leaf(nd), leaf(p1)}), m_cat({ND, P1})}; case 4: return {leaf({1, 0, 1, 0, 0, 0}), m_leaf({1, 0, 1, 0, 0, 0})};
        case 5: return {com({leaf(p1), leaf(p1), leaf(p1)}), m_vec(3, P1)}; case 6: return {com({leaf(p1), leaf(nd)}), m_cat({P1, ND})}; case 7: return {vec(2, com({leaf(p0), leaf(p1)})), m_vec(2, m_cat({P0, P1}))}; case 8: return {com({vec(2, leaf(p1)), leaf({0, 0, 0, 0, 0, 2})}), m_cat({m_vec(2, P1), m_leaf({0, 0, 0, 0, 0, 2})})}; case 9: return {com({leaf(cr), vec(2, leaf(p0))}), m_cat({CR, m_vec(2, P0)})}; }
    return {leaf(cr), CR}; }
static std::vector<int> ids(const Model& m, const Sel& s) { std::vector<int> r; for (unsigned i = 0; i < m.size(); ++i) if (s.has(Where{t_dim[m[i].t], m[i].e, m[i].t})) r.push_back(i); return r; }
static void sel(Sel& s) { static const unsigned S[10][4] = {{0, 0, 0, 0}, {15, 63, 15, 1}, {1, 0, 0, 0}, {7, 11, 1, 0}, {10, 0, 0, 1}, {0, 9, 0, 0}, {0, 0, 6, 1}, {13, 38, 4, 0}, {8, 32, 8, 1}, {6, 63, 0, 0}}; auto& w = S[vc_choose("selection", 0, 9)]; s.build(w[0], w[1], w[2], w[3]); }
static void vals(const std::vector<int>& C, const double* d, std::vector<double>& b) { b.clear(); for (int c : C) b.push_back(d[c]); }
VC(one_map) {
    auto x = pick(vc_choose("map", 0, 10)); int n = x.m.size(); Sel q; sel(q); Sys s(n, n); auto C = ids(x.m, q); std::vector<double> d(n), b; fill_real(d.data(), n, "d"); double c = vc_real("c", -2, 2);
    switch (vc_choose("f", 0, 6)) {
        case 0: applyDirMatrix(*x.map, s.A, q.sp); constrained(s, C, C, {}, false, true); break;
        case 1: applyDirResidual(*x.map, s.F, q.sp); for (int i = 0; i < n; ++i) vc_eq(s.f[i], std::count(C.begin(), C.end(), i) ? 0 : s.F0[i], "residual zeroed on the selection only"); break;
        case 2: applyDirResidual(*x.map, s.A, s.F, q.sp); constrained(s, C, C, {}, false, true); for (int i = 0; i < n; ++i) vc_eq(s.f[i], std::count(C.begin(), C.end(), i) ? 0 : s.F0[i], "residual zeroed on the selection only"); break;
        case 3: applyDirNonExists(*x.map, s.A, s.F, q.sp); constrained(s, C, C, {}, false, false); for (int i = 0; i < n; ++i) vc_eq(s.f[i], std::count(C.begin(), C.end(), i) ? 0 : s.F0[i], "residual zeroed on the selection only"); break;
        case 4: applyConstantDirByDofs(*x.map, s.A, s.F, q.sp, c); constrained(s, C, C, std::vector<double>(C.size(), c), true, true); break;
        case 5: { ArrayView<const double> v(d.data(), n); applyDirByDofs(*x.map, s.A, s.F, q.sp, v); vals(C, d.data(), b); constrained(s, C, C, b, true, true); break; }
        default: { ArrayView<const double> v(d.data(), n); applyDirByDofs(*x.map, *x.map->Copy(), s.A, s.F, q.sp, v); vals(C, d.data(), b); constrained(s, C, C, b, true, true); } }
}
// different numberings of trial and test with the same distribution of dofs: the k-th dof of a part in one corresponds to the k-th in the other
static void pair_up(const Model& tr, const Model& te, const Sel& q, std::vector<int>& R, std::vector<int>& C) { R.clear(); C.clear(); for (unsigned j = 0; j < tr.size(); ++j) if (q.has(Where{t_dim[tr[j].t], tr[j].e, tr[j].t})) for (unsigned i = 0; i < te.size(); ++i) if (te[i].t == tr[j].t && te[i].e == tr[j].e && te[i].l == tr[j].l) { C.push_back(j); R.push_back(i); } }
VC(two_maps) {
    static const int prs[8][2] = {{1, 5}, {5, 1}, {3, 6}, {6, 3}, {7, 8}, {8, 7}, {3, 4}, {4, 6}}; int pk = vc_choose("pair", 0, 7); auto x = pick(prs[pk][0]), y = pick(prs[pk][1]); int n = x.m.size(); vc_check((int)y.m.size() == n, "same size"); Sel q; sel(q); Sys s(n, n);
    std::vector<int> R, C; pair_up(x.m, y.m, q, R, C); std::vector<double> d(n), b; fill_real(d.data(), n, "d"); double c = vc_real("c", -2, 2); std::set<int> Z(R.begin(), R.end());
    switch (vc_choose("f", 0, 5)) {
        case 0: applyDirMatrix(*x.map, *y.map, s.A, q.sp); constrained(s, R, C, {}, false, true); break;
        case 1: applyDirResidual(*x.map, *y.map, s.A, s.F, q.sp); constrained(s, R, C, {}, false, true); for (int i = 0; i < n; ++i) vc_eq(s.f[i], Z.count(i) ? 0 : s.F0[i], "residual zeroed on the selection only"); break;
        case 2: applyDirNonExists(*x.map, *y.map, s.A, q.sp); constrained(s, R, C, {}, false, false); for (int i = 0; i < n; ++i) vc_eq(s.f[i], s.F0[i], "right-hand side untouched"); break;
        case 3: applyDirNonExists(*x.map, *y.map, s.A, s.F, q.sp); constrained(s, R, C, {}, false, false); for (int i = 0; i < n; ++i) vc_eq(s.f[i], Z.count(i) ? 0 : s.F0[i], "residual zeroed on the selection only"); break;
        case 4: applyConstantDirByDofs(*x.map, *y.map, s.A, s.F, q.sp, c); constrained(s, R, C, std::vector<double>(C.size(), c), true, true); break;
        default: { ArrayView<const double> v(d.data(), n); applyDirByDofs(*x.map, *y.map, s.A, s.F, q.sp, v); vals(C, d.data(), b); constrained(s, R, C, b, true, true); } }
}
