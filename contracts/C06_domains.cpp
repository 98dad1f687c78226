// VCFLAGS: timeout=200 eigen=0 link=anifem++/fem/quadrature_formulas.cpp
// C06: fem3Dtet / face / faceN / edge / node / pntL / pntX over abstract operators. Each function must establish the
// precondition of the operators it calls (points, vertices, determinant and inverse map of every tetrahedron), evaluate the
// tensor at the right global points, and return the quadrature sum with the measure and normal of the domain.
#include "domains.h"
using namespace vcx; using namespace Ani;
template<class OpA, class OpB, int MODE, int f> static void tet(int order) {
    auto F = tetrahedron_quadrature_formulas(order); Dom<f, 8> d; d.q = F.GetNumPoints();
    for (int n = 0; n < d.q; ++n) { for (int i = 0; i < 4; ++i) d.lam[4 * n + i] = F.p[4 * n + i]; d.w[n] = F.w[n]; }
    for (int r = 0; r < f; ++r) d.mes[r] = std::fabs(d.det(r)) / 6;
    expect<OpA, OpB>(d, false); auto T = MakeT<f>::make(d); Mat<OpA, OpB, f> M;
    if (MODE == STACK) fem3Dtet<OpA, OpB, TrP, f>(T, pos_tensor, M.A, order, &g_ud);
    if (MODE == PLAIN) { Plain p(fem3Dtet_memory_requirements<OpA, OpB>(order, f)); fem3Dtet<OpA, OpB, TrP>(T, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == DYN) { PlainX p(fem3Dtet_memory_requirements<TrP>(M.u, M.v, order, f)); fem3Dtet<TrP>(T, M.u, M.v, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == POOL) { DynMem<> w; fem3Dtet<OpA, OpB, TrP>(T, pos_tensor, M.A, w, order, &g_ud); }
    if (MODE == POOLX) { DynMem<> w; fem3Dtet<TrP>(T, M.u, M.v, pos_tensor, M.A, w, order, &g_ud); }
    post<OpA, OpB>(d, M.b.p);
}
template<class OpA, class OpB, int MODE, int f, bool N> static void face(int order) {
    int fn = (int)vc_choose("face", 0, 3); auto F = triangle_quadrature_formulas(order); Dom<f, 8> d; d.q = F.GetNumPoints();
    for (int n = 0; n < d.q; ++n) { for (int i = 0; i < 3; ++i) d.lam[4 * n + (fn + i) % 4] = F.p[3 * n + i]; d.lam[4 * n + (fn + 3) % 4] = 0; d.w[n] = F.w[n]; }
    for (int r = 0; r < f; ++r) d.area(fn, r, N);
    expect<OpA, OpB>(d, N); auto T = MakeT<f>::make(d); Mat<OpA, OpB, f> M;
    if (MODE == STACK) { if (N) fem3DfaceN<OpA, OpB, TrP, f>(T, fn, pos_tensor, M.A, order, &g_ud); else fem3Dface<OpA, OpB, TrP, f>(T, fn, pos_tensor, M.A, order, &g_ud); }
    if (MODE == PLAIN) { Plain p(N ? fem3DfaceN_memory_requirements<OpA, OpB>(order, f) : fem3Dface_memory_requirements<OpA, OpB>(order, f)); if (N) fem3DfaceN<OpA, OpB, TrP>(T, fn, pos_tensor, M.A, p.pm, order, &g_ud); else fem3Dface<OpA, OpB, TrP>(T, fn, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == DYN) { PlainX p(N ? fem3DfaceN_memory_requirements<TrP>(M.u, M.v, order, f) : fem3Dface_memory_requirements<TrP>(M.u, M.v, order, f)); if (N) fem3DfaceN<TrP>(T, fn, M.u, M.v, pos_tensor, M.A, p.pm, order, &g_ud); else fem3Dface<TrP>(T, fn, M.u, M.v, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == POOL) { DynMem<> w; if (N) fem3DfaceN<OpA, OpB, TrP>(T, fn, pos_tensor, M.A, w, order, &g_ud); else fem3Dface<OpA, OpB, TrP>(T, fn, pos_tensor, M.A, w, order, &g_ud); }
    if (MODE == POOLX) { DynMem<> w; if (N) fem3DfaceN<TrP>(T, fn, M.u, M.v, pos_tensor, M.A, w, order, &g_ud); else fem3Dface<TrP>(T, fn, M.u, M.v, pos_tensor, M.A, w, order, &g_ud); }
    post<OpA, OpB>(d, M.b.p);
}
template<class OpA, class OpB, int MODE, int f> static void edge(int order) {
    int e = (int)vc_choose("edge", 0, 5); auto F = segment_quadrature_formulas(order); Dom<f, 8> d; d.q = F.GetNumPoints();
    for (int n = 0; n < d.q; ++n) { for (int i = 0; i < 4; ++i) d.lam[4 * n + i] = 0; for (int i = 0; i < 2; ++i) d.lam[4 * n + ED[e][i]] = F.p[2 * n + i]; d.w[n] = F.w[n]; }
    for (int r = 0; r < f; ++r) d.length(e, r);
    expect<OpA, OpB>(d, false); auto T = MakeT<f>::make(d); Mat<OpA, OpB, f> M;
    if (MODE == STACK) fem3Dedge<OpA, OpB, TrP, f>(T, e, pos_tensor, M.A, order, &g_ud);
    if (MODE == PLAIN) { Plain p(fem3Dedge_memory_requirements<OpA, OpB>(order, f)); fem3Dedge<OpA, OpB, TrP>(T, e, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == DYN) { PlainX p(fem3Dedge_memory_requirements<TrP>(M.u, M.v, order, f)); fem3Dedge<TrP>(T, e, M.u, M.v, pos_tensor, M.A, p.pm, order, &g_ud); }
    if (MODE == POOL) { DynMem<> w; fem3Dedge<OpA, OpB, TrP>(T, e, pos_tensor, M.A, w, order, &g_ud); }
    if (MODE == POOLX) { DynMem<> w; fem3Dedge<TrP>(T, e, M.u, M.v, pos_tensor, M.A, w, order, &g_ud); }
    post<OpA, OpB>(d, M.b.p);
}
template<class OpA, class OpB, int MODE, int f> static void node() {
    int v = (int)vc_choose("node", 0, 3); Dom<f, 1> d; d.q = 1; for (int i = 0; i < 4; ++i) d.lam[i] = i == v; d.w[0] = 1;
    expect<OpA, OpB>(d, false); auto T = MakeT<f>::make(d); Mat<OpA, OpB, f> M;
    if (MODE == STACK) fem3Dnode<OpA, OpB, TrP, f>(T, v, pos_tensor, M.A, &g_ud);
    if (MODE == PLAIN) { Plain p(fem3Dnode_memory_requirements<OpA, OpB>(f)); fem3Dnode<OpA, OpB, TrP>(T, v, pos_tensor, M.A, p.pm, &g_ud); }
    if (MODE == DYN) { PlainX p(fem3Dnode_memory_requirements<TrP>(M.u, M.v, f)); fem3Dnode<TrP>(T, v, M.u, M.v, pos_tensor, M.A, p.pm, &g_ud); }
    if (MODE == POOL) { DynMem<> w; fem3Dnode<OpA, OpB, TrP>(T, v, pos_tensor, M.A, w, &g_ud); }
    if (MODE == POOLX) { DynMem<> w; fem3Dnode<TrP>(T, v, M.u, M.v, pos_tensor, M.A, w, &g_ud); }
    post<OpA, OpB>(d, M.b.p);
}
// arbitrary points and weights; np points, nw weights: the shorter list counts
template<class OpA, class OpB, int MODE, int f> static void pntL(int np, int nw) {
    Dom<f, 4> d; d.q = np < nw ? np : nw; Buf<double> L(4 * np), W(nw);
    for (int n = 0; n < np; ++n) { double s = 1; for (int i = 1; i < 4; ++i) { L.p[4 * n + i] = vc_real("L", 0, 0.3); s -= L.p[4 * n + i]; } L.p[4 * n] = s; }
    for (int n = 0; n < nw; ++n) W.p[n] = vc_real("w", -1, 2);
    for (int n = 0; n < d.q; ++n) { for (int i = 0; i < 4; ++i) d.lam[4 * n + i] = L.p[4 * n + i]; d.w[n] = W.p[n]; }
    expect<OpA, OpB>(d, false); auto T = MakeT<f>::make(d); Mat<OpA, OpB, f> M; ArrayView<> l(L.p, 4 * np), w(W.p, nw);
    if (MODE == STACK) fem3DpntL<OpA, OpB, TrP, f>(T, l, w, pos_tensor, M.A, &g_ud);
    if (MODE == PLAIN) { Plain p(fem3DpntL_memory_requirements<OpA, OpB>(d.q, f)); fem3DpntL<OpA, OpB, TrP>(T, l, w, pos_tensor, M.A, p.pm, &g_ud); }
    if (MODE == DYN) { PlainX p(fem3DpntL_memory_requirements<TrP>(M.u, M.v, d.q, f)); fem3DpntL<TrP>(T, l, w, M.u, M.v, pos_tensor, M.A, p.pm, &g_ud); }
    if (MODE == POOL) { DynMem<> dm; fem3DpntL<OpA, OpB, TrP>(T, l, w, pos_tensor, M.A, dm, &g_ud); }
    if (MODE == POOLX) { DynMem<> dm; fem3DpntL<TrP>(T, l, w, M.u, M.v, pos_tensor, M.A, dm, &g_ud); }
    post<OpA, OpB>(d, M.b.p);
}
// points given by their global coordinates: barycentric coordinates by Cramer's rule
static double g_X[3]; static bool g_one; static double g_c[8];
static TensorType pnt_tensor(const Coord<>& x, double* D, TensorDims dims, void* ud, int iTet) {
    vc_check(ud == &g_ud && (int)dims.first == g_rows && (int)dims.second == g_cols && iTet == 0, "arguments handed to the tensor");
    if (g_one) for (int k = 0; k < 3; ++k) vc_eq(x[k], g_X[k], "tensor is evaluated at the point");
    for (int i = 0; i < g_rows * g_cols; ++i) D[i] = g_c[i];
    return TENSOR_GENERAL;
}
template<class OpA, class OpB, int MODE> static void pntX(int np, int nw) {
    Dom<1, 4> d; d.q = np < nw ? np : nw; Buf<double> P(3 * np), W(nw); double det = d.det(0);
    for (int i = 0; i < 3 * np; ++i) P.p[i] = vc_real("p", 0, 0.6);
    for (int n = 0; n < nw; ++n) d.w[n] = W.p[n] = vc_real("w", -1, 2);
    for (int n = 0; n < d.q; ++n) {
        double e[3][3], s = 1; for (int i = 1; i < 4; ++i) { for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) e[j][k] = (j + 1 == i ? P.p[3 * n + k] : d.V(j + 1, 0)[k]) - d.V(0, 0)[k]; d.lam[4 * n + i] = det3(e[0], e[1], e[2]) / det; s -= d.lam[4 * n + i]; }
        d.lam[4 * n] = s;
    }
    for (auto& c : g_c) c = vc_real("D", -2, 2);
    for (int k = 0; k < 3; ++k) g_X[k] = P.p[k]; g_one = d.q == 1;
    expect<OpA, OpB>(d, false); Tetra<double> T(d.X[0], d.X[1], d.X[2], d.X[3]); Mat<OpA, OpB, 1> M; ArrayView<const double> x(P.p, 3 * np); ArrayView<> w(W.p, nw);
    if (MODE == STACK) fem3DpntX<OpA, OpB, TrP>(T, x, w, pnt_tensor, M.A, &g_ud);
    if (MODE == PLAIN) { Plain p(fem3DpntX_memory_requirements<OpA, OpB>(d.q, 1)); fem3DpntX<OpA, OpB, TrP>(T, x, w, pnt_tensor, M.A, p.pm, &g_ud); }
    if (MODE == DYN) { PlainX p(fem3DpntX_memory_requirements<TrP>(M.u, M.v, d.q, 1)); fem3DpntX<TrP>(T, x, w, M.u, M.v, pnt_tensor, M.A, p.pm, &g_ud); }
    if (MODE == POOL) { DynMem<> dm; fem3DpntX<OpA, OpB, TrP>(T, x, w, pnt_tensor, M.A, dm, &g_ud); }
    if (MODE == POOLX) { DynMem<> dm; fem3DpntX<TrP>(T, x, w, M.u, M.v, pnt_tensor, M.A, dm, &g_ud); }
    constexpr int NA = OpA::Nfa::value, NB = OpB::Nfa::value;
    for (int j = 0; j < NA; ++j) for (int i = 0; i < NB; ++i) {
        double s = 0; for (int n = 0; n < d.q; ++n) for (int k = 0; k < g_rows; ++k) for (int l = 0; l < g_cols; ++l) s += d.w[n] * g_c[k + g_rows * l] * OpA::tab.at(l, n, j, 0) * OpB::tab.at(k, n, i, 0);
        vc_eq(M.b.p[i + NB * j], s, "elemental matrix equals the weighted sum over the points");
    }
    vc_cover("computed");
}
#define MODES(NAME, FN, ...) VC(NAME##_stack) { EXI = 0; FN(STACK, __VA_ARGS__); } VC(NAME##_plain) { FN(PLAIN, __VA_ARGS__); } VC(NAME##_dyn) { FN(DYN, __VA_ARGS__); } VC(NAME##_pool) { FN(POOL, __VA_ARGS__); } VC(NAME##_poolx) { FN(POOLX, __VA_ARGS__); }
#define TET(MODE, B, F, ORD) tet<OA, B, MODE, F>(ORD)
#define FACE(MODE, B, F, N, ORD) face<OA, B, MODE, F, N>(ORD)
#define EDGE(MODE, B, F, ORD) edge<OA, B, MODE, F>(ORD)
#define NODE(MODE, B, F) node<OA, B, MODE, F>()
#define PNTL(MODE, B, F, ...) pntL<OA, B, MODE, F>(__VA_ARGS__)
#define PNTX(MODE, B, ...) pntX<OA, B, MODE>(__VA_ARGS__)
MODES(tet_1, TET, OB, 1, (int)vc_choose("order", 1, 2)) MODES(tet_2, TET, OB2, 2, 1)
MODES(face_1, FACE, OB, 1, false, (int)vc_choose("order", 1, 2)) MODES(face_2, FACE, OB2, 2, false, 2)
MODES(faceN_1, FACE, OB, 1, true, (int)vc_choose("order", 1, 2)) MODES(faceN_2, FACE, OB2, 2, true, 1)
MODES(edge_1, EDGE, OB, 1, (int)vc_choose("order", 1, 5)) MODES(edge_2, EDGE, OB2, 2, 2)
MODES(tet_3, TET, OB, 3, (int)vc_choose("order", 1, 2)) MODES(tet_22, TET, OB2, 2, (int)vc_choose("order", 2, 3)) MODES(face_3, FACE, OB, 3, false, (int)vc_choose("order", 1, 2)) MODES(faceN_22, FACE, OB2, 2, true, (int)vc_choose("order", 2, 3)) MODES(edge_3, EDGE, OB, 3, (int)vc_choose("order", 1, 3))
MODES(pntL_3, PNTL, OB, 3, 1, 1) MODES(pntL_33, PNTL, OB2, 3, 3, 3)
MODES(node_1, NODE, OB, 1) MODES(node_2, NODE, OB2, 2)
MODES(pntL_1, PNTL, OB, 1, 2, 2) MODES(pntL_2, PNTL, OB2, 2, 2, 2) MODES(pntL_short_weights, PNTL, OB, 1, 9, 2) MODES(pntL_short_points, PNTL, OB, 1, 1, 2)
// the exact-size work memory and the exact-size arrays of points and weights make reads and writes outside them failed obligations
MODES(pntX_1, PNTX, OB, 1, 1) MODES(pntX_2, PNTX, OB2, 2, 2) MODES(pntX_short_weights, PNTX, OB, 60, 2) MODES(pntX_short_points, PNTX, OB, 1, 2)
