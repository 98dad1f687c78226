// VCFLAGS: timeout=250 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C22: elemental matrices computed with run-time spaces equal those of the compile-time spaces, for every value of the coefficient
// tensor, in memory of exactly the announced size (fixed tetrahedra: for arbitrary ones this follows from the contracts of the
// kernels, C06, and of the operators, C22_ops). Operators are given as views and as owners of their spaces.
#include "rtspace.h"
#include "domains.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
using V3P2 = FemVec<3, FEM_P2>; using V3P1 = FemVec<3, FEM_P1>; using V2P1 = FemVec<2, FEM_P1>; using Taylor = FemCom<V3P2, P1>; using Mini = FemCom<FemVecT<3, FemUnionT<P1, B4>>, P1>; using C3 = FemCom<P1, P2, B4>; using C2 = FemCom<P1, V2P1>;
static double g_d[2][27][9]; static int g_r, g_c, g_bad;
static TensorType ten(const Coord<>& x, double* D, TensorDims d, void* ud, int r) { if ((int)d.first != g_r || (int)d.second != g_c || ud != (void*)&g_bad || r < 0 || r > 1) { g_bad = 1; return TENSOR_NULL; } for (std::size_t l = 0; l < d.second; ++l) for (std::size_t k = 0; k < d.first; ++k) D[k + d.first * l] = g_d[r][k][l] + x[0] * (k == l); return TENSOR_GENERAL; }
// an operator as a combination of the components of a reference operator (itself, or the gradient)
struct Comb { int n, m; double a[9][9]; void init(int op, int ref, int dim, int rdim) { n = dim; m = rdim; for (auto& r : a) for (double& x : r) x = 0; if (op == ref) for (int i = 0; i < n; ++i) a[i][i] = 1; else if (op == DIV) a[0][0] = a[0][4] = a[0][8] = 1; else if (op == CURL) { a[0][7] = a[1][2] = a[2][3] = 1; a[0][5] = a[1][6] = a[2][1] = -1; } else for (int c = 0; c < n; ++c) a[c][op - DUDX + 3 * c] = 1; } };
static Comb g_A, g_B; static int g_N;
static TensorType rten(const Coord<>& x, double* D, TensorDims d, void* ud, int r) {
    double E[27][9]; int R = g_r, C = g_c; if ((int)d.first != g_B.m * g_N || (int)d.second != g_A.m) { g_bad = 1; return TENSOR_NULL; } for (int l = 0; l < C; ++l) for (int k = 0; k < R; ++k) E[k][l] = g_d[r][k][l] + x[0] * (k == l);
    for (int l = 0; l < g_A.m; ++l) for (int k = 0; k < g_B.m; ++k) for (int c = 0; c < g_N; ++c) { double s = 0; for (int i = 0; i < g_B.n; ++i) for (int j = 0; j < g_A.n; ++j) s += g_B.a[i][k] * E[c + g_N * i][j] * g_A.a[j][l]; D[c + g_N * k + g_N * g_B.m * l] = s; } return TENSOR_GENERAL; }
template<int f> struct Mesh { double X[4][3 * f]; Mesh() { static const double b[4][3] = {{0, 0, 0}, {2, 0.5, 0}, {0.25, 2, 0.125}, {0.5, 0.25, 2}}; for (int r = 0; r < f; ++r) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][3 * r + k] = b[i][k] + 0.125 * r * (k + 1) * (i != 2); } };
enum { TET, FACE, FACEN, EDGE, NODE };
template<int WHERE, class U, class V> static PlainMemoryX<> req(const U& u, const V& v, int o, int f) { return WHERE == TET ? fem3Dtet_memory_requirements<TrP>(u, v, o, f) : WHERE == FACE ? fem3Dface_memory_requirements<TrP>(u, v, o, f) : WHERE == FACEN ? fem3DfaceN_memory_requirements<TrP>(u, v, o, f) : WHERE == EDGE ? fem3Dedge_memory_requirements<TrP>(u, v, o, f) : fem3Dnode_memory_requirements<TrP>(u, v, f); }
template<int WHERE, class T, class U, class V> static void dyn(T& t, const U& u, const V& v, DenseMatrix<>& M, PlainMemoryX<> m, int o, int e, void* ud) { if (WHERE == TET) fem3Dtet<TrP>(t, u, v, ten, M, m, o, ud); if (WHERE == FACE) fem3Dface<TrP>(t, e, u, v, ten, M, m, o, ud); if (WHERE == FACEN) fem3DfaceN<TrP>(t, e, u, v, ten, M, m, o, ud); if (WHERE == EDGE) fem3Dedge<TrP>(t, e, u, v, ten, M, m, o, ud); if (WHERE == NODE) fem3Dnode<TrP>(t, e, u, v, ten, M, m, ud); }
template<class F> struct IsC : std::false_type {}; template<class... F> struct IsC<FemCom<F...>> : std::true_type {};
template<int OA_, class FA, int OB_, class FB, int WHERE> static void both() {
    constexpr int f = 2; vc_bounded("two fixed tetrahedra"); constexpr int RA = IsC<FA>::value && OA_ != IDEN ? GRAD : OA_, RB = IsC<FB>::value && OB_ != IDEN ? GRAD : OB_; using A = Operator<RA, FA>; using B = Operator<RB, FB>; constexpr int NA = A::Nfa::value, NB = B::Nfa::value, n = NA * NB * f; int order = WHERE == NODE ? 0 : (int)vc_choose("order", 1, 2), e = WHERE == TET ? 0 : (int)vc_choose("element", 0, 1), form = (int)vc_choose("form", 0, 2); void* ud = (void*)&g_bad; g_bad = 0;
    FemSpace s = RtOf<FA>::make(), t = RtOf<FB>::make(); g_N = WHERE == FACEN ? 3 : 1; g_c = (int)s.dimOP((OperatorType)OA_); int db = (int)t.dimOP((OperatorType)OB_); g_r = db * g_N; g_A.init(OA_, RA, g_c, A::Dim::value); g_B.init(OB_, RB, db, B::Dim::value); vc_check(g_r <= 27 && g_c <= 9, "harness"); for (int r = 0; r < f; ++r) for (int k = 0; k < g_r; ++k) for (int l = 0; l < g_c; ++l) g_d[r][k][l] = vc_real("d", -2, 2);
    Mesh<f> m; auto T = MakeT<f>::make(m); Buf<double> b(n), c(n); DenseMatrix<> M(b.p, NB, NA * f, n), W(c.p, NB, NA * f, n);
    Plain p(WHERE == TET ? fem3Dtet_memory_requirements<A, B>(order, f) : WHERE == FACE ? fem3Dface_memory_requirements<A, B>(order, f) : WHERE == FACEN ? fem3DfaceN_memory_requirements<A, B>(order, f) : WHERE == EDGE ? fem3Dedge_memory_requirements<A, B>(order, f) : fem3Dnode_memory_requirements<A, B>(f));
    if (WHERE == TET) fem3Dtet<A, B, TrP>(T, rten, M, p.pm, order, ud); if (WHERE == FACE) fem3Dface<A, B, TrP>(T, e, rten, M, p.pm, order, ud); if (WHERE == FACEN) fem3DfaceN<A, B, TrP>(T, e, rten, M, p.pm, order, ud); if (WHERE == EDGE) fem3Dedge<A, B, TrP>(T, e, rten, M, p.pm, order, ud); if (WHERE == NODE) fem3Dnode<A, B, TrP>(T, e, rten, M, p.pm, ud);
    if (form == 0) { auto u = s.getOP((OperatorType)OA_); auto v = t.getOP((OperatorType)OB_); PlainX w(req<WHERE>(u, v, order, f)); dyn<WHERE>(T, u, v, W, w.pm, order, e, ud); }
    if (form == 1) { auto u = s.getOP_own((OperatorType)OA_); auto v = t.getOP_own((OperatorType)OB_); PlainX w(req<WHERE>(u, v, order, f)); dyn<WHERE>(T, u, v, W, w.pm, order, e, ud); }
    if (form == 2) { ApplyOp u(s.getOP_own((OperatorType)OA_)), v(t.getOP_own((OperatorType)OB_)); const ApplyOpBase &bu = *u.m_invoker, &bv = *v.m_invoker; PlainX w(req<WHERE>(bu, bv, order, f)); dyn<WHERE>(T, bu, bv, W, w.pm, order, e, ud); }
    vc_check(!g_bad, "arguments of the tensor"); vc_check((int)W.nRow == NB && (int)W.nCol == NA * f && W.data == c.p, "shape of the result"); for (int i = 0; i < n; ++i) vc_eq(c.p[i], b.p[i], "run-time and compile-time spaces deliver the same elemental matrix"); vc_cover("same");
}
#define M_(NAME, W, ...) VC(NAME) { both<__VA_ARGS__, W>(); }
#define ALL(NAME, ...) M_(tet_##NAME, TET, __VA_ARGS__) M_(face_##NAME, FACE, __VA_ARGS__) M_(edge_##NAME, EDGE, __VA_ARGS__) M_(node_##NAME, NODE, __VA_ARGS__)
ALL(iden_iden_P1, IDEN, P1, IDEN, P1) ALL(grad_grad_P2, GRAD, P2, GRAD, P2) ALL(grad_grad_V3P1, GRAD, V3P1, GRAD, V3P1) ALL(iden_V2_V3, IDEN, V2P1, IDEN, V3P1) ALL(iden_V3_V2, IDEN, V3P1, IDEN, V2P1) ALL(grad_V2_V3, GRAD, V2P1, GRAD, V3P1) ALL(div_V3P2_iden_P1, DIV, V3P2, IDEN, P1) ALL(iden_P1_div_V3P2, IDEN, P1, DIV, V3P2) ALL(curl_ND0_iden_RT0, CURL, ND0, IDEN, RT0) ALL(div_RT0_iden_P0, DIV, RT0, IDEN, P0)
ALL(iden_Taylor_same, IDEN, Taylor, IDEN, Taylor) ALL(grad_V3P1_iden_Mini, GRAD, V3P1, IDEN, Mini) ALL(iden_Mini_Taylor, IDEN, Mini, IDEN, Taylor) ALL(div_C3_iden_C3, DIV, C3, IDEN, C3) ALL(iden_C3_div_C3, IDEN, C3, DIV, C3) ALL(div_C3_div_C2, DIV, C3, DIV, C2) ALL(curl_C2_curl_C3, CURL, C2, CURL, C3) ALL(dudx_C3_dudz_C3, DUDX, C3, DUDZ, C3) ALL(curl_C3_same, CURL, C3, CURL, C3)
M_(faceN_grad_P1_iden_P2, FACEN, GRAD, P1, IDEN, P2) M_(faceN_iden_V3P1, FACEN, IDEN, V3P1, IDEN, V3P1) M_(faceN_iden_C2_div, FACEN, IDEN, C2, DIV, C3) M_(faceN_V2_V3, FACEN, IDEN, V2P1, IDEN, V3P1)
