// Duality of every element with its own degrees of freedom, and polynomial reproduction, for all tetrahedra and points.
// VCFLAGS: timeout=120 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "fem.h"
using namespace vcx;
// the Lagrange nodes, written independently of the code
static int nodes(int fem, double (*L)[4]) {
    int c = 0; auto put = [&](double a, double b, double d, double e) { L[c][0] = a; L[c][1] = b; L[c][2] = d; L[c][3] = e; ++c; };
    auto vert = [&](int i) { double l[4] = {0, 0, 0, 0}; l[i] = 1; put(l[0], l[1], l[2], l[3]); };
    auto edge = [&](int i, int j, double t) { double l[4] = {0, 0, 0, 0}; l[i] = t; l[j] = 1 - t; put(l[0], l[1], l[2], l[3]); };
    auto face = [&](int i) { double l[4] = {1. / 3, 1. / 3, 1. / 3, 1. / 3}; l[(i + 3) % 4] = 0; put(l[0], l[1], l[2], l[3]); };
    if (fem == FEM_P0 || fem == FEM_B4) put(0.25, 0.25, 0.25, 0.25);
    if (fem == FEM_P1 || fem == FEM_P2 || fem == FEM_P3) for (int i = 0; i < 4; ++i) vert(i);
    if (fem == FEM_P2 || fem == FEM_B2) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) edge(i, j, 0.5);
    if (fem == FEM_P3) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { edge(i, j, 2. / 3); edge(i, j, 1. / 3); }
    if (fem == FEM_P3 || fem == FEM_CR1) for (int i = 0; i < 4; ++i) face(i);
    return c;
}
template<int FEM, int f> static void dual() {
    constexpr int N = Operator<IDEN, FemFix<FEM>>::Nfa::value;
    double L[N][4]; int c = nodes(FEM, L); vc_check(c == N, "number of degrees of freedom");
    Geo<f, N> g; g.real_geometry(); for (int n = 0; n < N; ++n) g.point4(n, L[n][0], L[n][1], L[n][2], L[n][3]); g.bind();
    OpEval<IDEN, FemFix<FEM>, f, N> e; e.run(g.mem);
    for (int r = 0; r < f; ++r) for (int n = 0; n < N; ++n) for (int i = 0; i < N; ++i) vc_eq(e(0, n, i, r), delta(i, n), "value of shape function i at node n");
}
// sum_i p(node_i) phi_i(x) = p(x) for every polynomial p in the barycentric coordinates of total degree deg (symbolic coefficients)
template<int FEM, int deg> static void reproduce() {
    constexpr int N = Operator<IDEN, FemFix<FEM>>::Nfa::value;
    double L[N][4]; nodes(FEM, L);
    Geo<1, 1> g; g.real_geometry(); g.sym_points(); g.bind();
    OpEval<IDEN, FemFix<FEM>, 1, 1> e; e.run(g.mem);
    double co[35]; fill_real(co, 35, "c");
    auto p = [&](const double* l) { int c = 0; double s = 0; for (int a = 0; a <= deg; ++a) for (int b = 0; a + b <= deg; ++b) for (int d = 0; a + b + d <= deg; ++d) { double m = co[c++]; for (int i = 0; i < a; ++i) m *= l[1]; for (int i = 0; i < b; ++i) m *= l[2]; for (int i = 0; i < d; ++i) m *= l[3]; s += m; } return s; };
    double s = 0; for (int i = 0; i < N; ++i) s += p(L[i]) * e(0, 0, i);
    vc_eq(s, p(g.XYL), "interpolant of a polynomial of the degree of the element is the polynomial");
}
#define DUAL(F) VC(dual_##F) { dual<FEM_##F, 1>(); } VC(dual_batch_##F) { dual<FEM_##F, 3>(); }
DUAL(P0) DUAL(P1) DUAL(P2) DUAL(P3) DUAL(CR1) DUAL(B2) DUAL(B4)
VC(reproduce_P0) { reproduce<FEM_P0, 0>(); }
VC(reproduce_P1) { reproduce<FEM_P1, 1>(); }
VC(reproduce_P2) { reproduce<FEM_P2, 2>(); }
VC(reproduce_P3) { reproduce<FEM_P3, 3>(); }
VC(reproduce_CR1) { reproduce<FEM_CR1, 1>(); }
VC_NEG(dual_P2) { Geo<1, 1> g; g.real_geometry(); g.sym_points(); g.bind(); OpEval<IDEN, FemFix<FEM_P2>, 1, 1> e; e.run(g.mem); vc_eq(e(0, 0, 0), g.XYL[0], "wrong"); }
// edge bubbles vanish on the other edges and the vertices, the interior bubble on the whole boundary
VC(bubble_boundary) {
    Geo<1, 4> g; g.real_geometry(); for (int n = 0; n < 4; ++n) { double a[4]; for (int i = 0; i < 4; ++i) a[i] = vc_real("L", 0, 1); a[n] = 0; g.point4(n, a[0], a[1], a[2], a[3]); } g.bind();
    OpEval<IDEN, FemFix<FEM_B4>, 1, 4> e; e.run(g.mem); for (int n = 0; n < 4; ++n) vc_eq(e(0, n, 0), 0, "interior bubble on a face");
    OpEval<IDEN, FemFix<FEM_B2>, 1, 4> b; b.run(g.mem);
    int c = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j, ++c) { vc_eq(b(0, i, c), 0, "edge bubble on a face without the edge"); vc_eq(b(0, j, c), 0, "edge bubble on a face without the edge"); }
}
// mean of a Crouzeix-Raviart function over a face = value at its centroid because it is affine
VC(affine_CR1) {
    Geo<1, 5> g; g.real_geometry(); for (int n = 0; n < 4; ++n) g.point4(n, n == 0, n == 1, n == 2, n == 3); double a = vc_real("L", 0, 1), b = vc_real("L", 0, 1), c = vc_real("L", 0, 1); g.point(4, a, b, c); g.bind();
    OpEval<IDEN, FemFix<FEM_CR1>, 1, 5> e; e.run(g.mem);
    for (int i = 0; i < 4; ++i) { double s = 0; for (int n = 0; n < 4; ++n) s += g.XYL[16 + n] * e(0, n, i); vc_eq(e(0, 4, i), s, "affine"); }
}
template<int FEM, int f> static void affine_vec() {
    constexpr int N = Operator<IDEN, FemFix<FEM>>::Nfa::value;
    Geo<f, 5> g; g.real_geometry(); for (int n = 0; n < 4; ++n) g.point4(n, n == 0, n == 1, n == 2, n == 3); double a = vc_real("L", 0, 1), b = vc_real("L", 0, 1), c = vc_real("L", 0, 1); g.point(4, a, b, c); g.bind();
    OpEval<IDEN, FemFix<FEM>, f, 5> e; e.run(g.mem);
    for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int k = 0; k < 3; ++k) { double s = 0; for (int n = 0; n < 4; ++n) s += g.XYL[16 + n] * e(k, n, i, r); vc_eq(e(k, 4, i, r), s, "affine"); }
}
VC(affine_RT0) { affine_vec<FEM_RT0, 2>(); }
VC(affine_ND0) { affine_vec<FEM_ND0, 2>(); }
// mean normal flux of RT0 function i through face j: value at the face centroid times the outward unit normal
template<int f> static void dual_rt() {
    Geo<f, 4> g; g.real_geometry(); for (int n = 0; n < 4; ++n) { double l[4] = {1. / 3, 1. / 3, 1. / 3, 1. / 3}; l[(n + 3) % 4] = 0; g.point4(n, l[0], l[1], l[2], l[3]); } g.bind();
    OpEval<IDEN, FemFix<FEM_RT0>, f, 4> e; e.run(g.mem);
    for (int r = 0; r < f; ++r) for (int j = 0; j < 4; ++j) {
        const double* P[4]; for (int k = 0; k < 4; ++k) P[k] = g.XYP + 12 * r + 3 * ((j + k) % 4);
        double a[3], b[3], c[3], N[3]; for (int k = 0; k < 3; ++k) { a[k] = P[1][k] - P[0][k]; b[k] = P[2][k] - P[0][k]; c[k] = P[3][k] - P[0][k]; }
        for (int i = 0; i < 3; ++i) { int u = (i + 1) % 3, w = (i + 2) % 3; N[i] = a[u] * b[w] - a[w] * b[u]; }
        double away = -dot3(N, c);   // = +-det, positive when N points away from the opposite vertex
        double len = std::sqrt(dot3(N, N));
        for (int i = 0; i < 4; ++i) { double fl = 0; for (int k = 0; k < 3; ++k) fl += e(k, j, i, r) * N[k]; vc_eq(fl * std::fabs(away), delta(i, j) * len * away, "mean outward flux of function i through face j"); }
    }
}
VC(dual_RT0) { dual_rt<1>(); }
VC(dual_batch_RT0) { dual_rt<2>(); }
// tangential component of ND0 function i along edge j (constant on the edge by affine + both ends)
template<int f> static void dual_nd() {
    Geo<f, 12> g; g.real_geometry(); int c = 0; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { g.point4(c++, i == 0, i == 1, i == 2, i == 3); g.point4(c++, j == 0, j == 1, j == 2, j == 3); } g.bind();
    OpEval<IDEN, FemFix<FEM_ND0>, f, 12> e; e.run(g.mem);
    for (int r = 0; r < f; ++r) { c = 0; for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b, ++c) {
        double t[3]; for (int k = 0; k < 3; ++k) t[k] = g.XYP[12 * r + 3 * b + k] - g.XYP[12 * r + 3 * a + k];
        double len = std::sqrt(dot3(t, t));
        for (int i = 0; i < 6; ++i) for (int s = 0; s < 2; ++s) { double w = 0; for (int k = 0; k < 3; ++k) w += e(k, 2 * c + s, i, r) * t[k]; vc_eq(w, delta(i, c) * len, "tangential component of function i along edge j"); }
    } }
}
VC(dual_ND0) { dual_nd<1>(); }
VC(dual_batch_ND0) { dual_nd<2>(); }
