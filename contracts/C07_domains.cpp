// VCFLAGS: timeout=300 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/tetdofmap.cpp
// C07: integration and evaluation with the real operators inside memory of exactly the announced size. Which memory is touched
// does not depend on the coordinates, so the tetrahedra are fixed; batch, order, pair of operators, domain and memory version vary.
// All versions must agree with each other.
#include "domains.h"
#include "fem.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using V3P2 = FemVec<3, FEM_P2>; using V3P3 = FemVec<3, FEM_P3>; using C32 = FemCom<V3P2, P1>;
static TensorType ten(const Coord<>& x, double* D, TensorDims d, void*, int r) { for (std::size_t l = 0; l < d.second; ++l) for (std::size_t k = 0; k < d.first; ++k) D[k + d.first * l] = 1 + 0.25 * k - 0.5 * l + x[0] * (k == l) + r; return TENSOR_GENERAL; }
template<int f> struct Mesh { double X[4][3 * f]; Mesh() { static const double b[4][3] = {{0, 0, 0}, {2, 0.5, 0}, {0.25, 2, 0.125}, {0.5, 0.25, 2}}; for (int r = 0; r < f; ++r) for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][3 * r + k] = b[i][k] + 0.125 * r * (k + 1) * (i != 2); } };
enum { TET, FACE, FACEN, EDGE, NODE };
template<class A, class B, int WHERE, int f> static void run(int MODE, int order, double* out, int n) {
    Mesh<f> m; auto T = MakeT<f>::make(m); constexpr int NA = A::Nfa::value, NB = B::Nfa::value; Buf<double> b(NA * NB * f); DenseMatrix<> M(b.p, NB, NA * f, NA * NB * f); void* ud = nullptr; int e = 1;
    if (MODE == STACK) { if (WHERE == TET) fem3Dtet<A, B, TrP, f>(T, ten, M, order, ud); if (WHERE == FACE) fem3Dface<A, B, TrP, f>(T, e, ten, M, order, ud); if (WHERE == FACEN) fem3DfaceN<A, B, TrP, f>(T, e, ten, M, order, ud); if (WHERE == EDGE) fem3Dedge<A, B, TrP, f>(T, e, ten, M, order, ud); if (WHERE == NODE) fem3Dnode<A, B, TrP, f>(T, e, ten, M, ud); }
    if (MODE == PLAIN) { Plain p(WHERE == TET ? fem3Dtet_memory_requirements<A, B>(order, f) : WHERE == FACE ? fem3Dface_memory_requirements<A, B>(order, f) : WHERE == FACEN ? fem3DfaceN_memory_requirements<A, B>(order, f) : WHERE == EDGE ? fem3Dedge_memory_requirements<A, B>(order, f) : fem3Dnode_memory_requirements<A, B>(f));
        if (WHERE == TET) fem3Dtet<A, B, TrP>(T, ten, M, p.pm, order, ud); if (WHERE == FACE) fem3Dface<A, B, TrP>(T, e, ten, M, p.pm, order, ud); if (WHERE == FACEN) fem3DfaceN<A, B, TrP>(T, e, ten, M, p.pm, order, ud); if (WHERE == EDGE) fem3Dedge<A, B, TrP>(T, e, ten, M, p.pm, order, ud); if (WHERE == NODE) fem3Dnode<A, B, TrP>(T, e, ten, M, p.pm, ud); }
    for (int i = 0; i < n; ++i) out[i] = b.p[i];
}
template<int OA_, class FA, int OB_, class FB, int WHERE, int f> static void both(int lo, int hi) {
    vc_bounded("fixed tetrahedra"); using A = Operator<OA_, FA>; using B = Operator<OB_, FB>; constexpr int n = A::Nfa::value * B::Nfa::value * f; int order = (int)vc_choose("order", lo, hi);
    std::unique_ptr<double[]> s(new double[n]), p(new double[n]), x(new double[n]); 
    int q = WHERE == NODE ? 1 : WHERE == EDGE ? segment_quadrature_formulas(order).GetNumPoints() : WHERE == TET ? tetrahedron_quadrature_formulas(order).GetNumPoints() : triangle_quadrature_formulas(order).GetNumPoints(); bool refused = false;
    try { run<A, B, WHERE, f>(STACK, order, s.get(), n); } catch (const std::runtime_error&) { refused = true; } vc_check(refused == (q > 24), "the version on the stack serves up to 24 points and refuses more"); run<A, B, WHERE, f>(PLAIN, order, p.get(), n); if (refused) for (int i = 0; i < n; ++i) s[i] = p[i];
    Mesh<f> m; auto T = MakeT<f>::make(m); Buf<double> b(n); DenseMatrix<> M(b.p, B::Nfa::value, A::Nfa::value * f, n); ApplyOpFromTemplate<OA_, FA> u; ApplyOpFromTemplate<OB_, FB> v; void* ud = nullptr; int e = 1;
    PlainX w(WHERE == TET ? fem3Dtet_memory_requirements<TrP>(u, v, order, f) : WHERE == FACE ? fem3Dface_memory_requirements<TrP>(u, v, order, f) : WHERE == FACEN ? fem3DfaceN_memory_requirements<TrP>(u, v, order, f) : WHERE == EDGE ? fem3Dedge_memory_requirements<TrP>(u, v, order, f) : fem3Dnode_memory_requirements<TrP>(u, v, f));
    if (WHERE == TET) fem3Dtet<TrP>(T, u, v, ten, M, w.pm, order, ud); if (WHERE == FACE) fem3Dface<TrP>(T, e, u, v, ten, M, w.pm, order, ud); if (WHERE == FACEN) fem3DfaceN<TrP>(T, e, u, v, ten, M, w.pm, order, ud); if (WHERE == EDGE) fem3Dedge<TrP>(T, e, u, v, ten, M, w.pm, order, ud); if (WHERE == NODE) fem3Dnode<TrP>(T, e, u, v, ten, M, w.pm, ud);
    int def = 1; for (int i = 0; i < n; ++i) { def &= !vc_isundef(&p[i], 8) & !vc_isundef(&s[i], 8) & !vc_isundef(&b.p[i], 8); vc_near(s[i], p[i], 1e-9, "memory on the stack and given memory deliver the same matrix"); vc_near(b.p[i], p[i], 1e-9, "run-time and compile-time operators deliver the same matrix"); } vc_check(def, "every entry is defined"); vc_cover("integrated");
}
#define PAIR(NAME, OA_, FA, OB_, FB, f, HI) VC(tet_##NAME) { both<OA_, FA, OB_, FB, TET, f>(0, HI); } VC(face_##NAME) { both<OA_, FA, OB_, FB, FACE, f>(1, HI); } VC(edge_##NAME) { both<OA_, FA, OB_, FB, EDGE, f>(1, HI); } VC(node_##NAME) { both<OA_, FA, OB_, FB, NODE, f>(0, 0); }
#define PAIRN(NAME, OA_, FA, OB_, FB, f, HI) VC(faceN_##NAME) { both<OA_, FA, OB_, FB, FACEN, f>(1, HI); }
PAIR(iden_iden_P1, IDEN, P1, IDEN, P1, 1, 14) PAIR(grad_grad_P3, GRAD, P3, GRAD, P3, 2, 8) PAIR(grad_V3P2_iden_P1, GRAD, V3P2, IDEN, P1, 2, 7) PAIR(grad_V3P3, GRAD, V3P3, GRAD, V3P3, 1, 2) PAIR(com_com, IDEN, C32, GRAD, C32, 1, 2) PAIR(div_V3P2_iden_P0, DIV, V3P2, IDEN, P0, 3, 6) PAIR(iden_V3P3_grad_C32, IDEN, V3P3, GRAD, C32, 1, 1)
PAIRN(grad_P2_iden_P1, GRAD, P2, IDEN, P1, 2, 9) PAIRN(grad_V3P2_iden_V3P2, GRAD, V3P2, IDEN, V3P2, 1, 2) PAIRN(iden_C32_iden_P1, IDEN, C32, IDEN, P1, 2, 3)
