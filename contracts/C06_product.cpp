// VCFLAGS: timeout=200 eigen=0+1 link=anifem++/fem/quadrature_formulas.cpp
// C06: products of fused matrices (both implementations), the overloads taking matrices of coordinates and the Eigen overload.
#include "elemental.h"
#include "anifem++/fem/operations/operations.h"
using namespace vcx; using namespace Ani;
template<int f, int R, int CA, int CB> static void at_b() {
    double A[R * CA * f], B[R * CB * f]; fill_real(A, R * CA * f, "A"); fill_real(B, R * CB * f, "B"); Buf<double> out(CA * CB * f);
    fusive_AT_mul_B(vc_choose("loop", 0, 1) != 0, f, R, A, CA, B, CB, out.p);
    for (int r = 0; r < f; ++r) for (int j = 0; j < CB; ++j) for (int i = 0; i < CA; ++i) { double s = 0; for (int k = 0; k < R; ++k) s += A[k + R * (i + CA * r)] * B[k + R * (j + CB * r)]; vc_eq(out.p[i + CA * (j + CB * r)], s, "transposed product of every pair"); }
}
template<int f, int M, int K, int N> static void a_b() {
    double A[M * K * f], B[K * N * f]; fill_real(A, M * K * f, "A"); fill_real(B, K * N * f, "B"); Buf<double> out(M * N * f);
    fusive_A_mul_B(vc_choose("loop", 0, 1) != 0, f, K, A, M, B, N, out.p);
    for (int r = 0; r < f; ++r) for (int j = 0; j < N; ++j) for (int i = 0; i < M; ++i) { double s = 0; for (int k = 0; k < K; ++k) s += A[i + M * (k + K * r)] * B[k + K * (j + N * r)]; vc_eq(out.p[i + M * (j + N * r)], s, "product of every pair"); }
}
VC(AT_B_1) { at_b<1, 3, 2, 4>(); } VC(AT_B_2) { at_b<2, 2, 3, 2>(); } VC(AT_B_3) { at_b<3, 1, 2, 2>(); }
VC(A_B_1) { a_b<1, 3, 2, 4>(); } VC(A_B_2) { a_b<2, 2, 3, 2>(); } VC(A_B_3) { a_b<3, 2, 1, 2>(); }
// overloads: same result as the tetrahedron list built from the same columns
using A_ = Abs<0, 2, 2, 1>; using B_ = Abs<1, 2, 3, 1>;
static TensorType ten(const Coord<>& x, double* D, TensorDims d, void* ud, int r) { for (unsigned i = 0; i < d.first * d.second; ++i) { char nm[4] = {'D', (char)('0' + i), (char)('0' + r), 0}; D[i] = vc_uf2(nm, x[0], vc_uf2("y", x[1], x[2])); } return TENSOR_GENERAL; }
template<int f> struct In { double X[4][3 * f], a[6 * f], b[6 * f]; DenseMatrix<const double> M[4]; In() { for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3 * f; ++k) X[i][k] = vc_real("x", (i == k % 3 + 1) * 2. - 0.6, (i == k % 3 + 1) * 2. + 0.6); M[i] = DenseMatrix<const double>(X[i], 3, f); } A_::init(1, f); B_::init(1, f); EXI = 0; g_expect.on = false;
    for (int r = 0; r < f; ++r) { double e[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) e[i][k] = X[i + 1][3 * r + k] - X[0][3 * r + k]; vc_nonzero(det3(e[0], e[1], e[2])); } }
    void same() { for (int i = 0; i < 6 * f; ++i) vc_eq(a[i], b[i], "overload taking matrices of coordinates"); } };
using Tr = DfuncTraits<PerPoint, false>;
#define OVER(NAME, CALL, TAIL, ...) VC(over_##NAME) { In<2> in; auto T = make_tetras(in.X[0], in.X[1], in.X[2], in.X[3], 2); DenseMatrix<> A(in.a, 3, 4, 12), B(in.b, 3, 4, 12); const auto* M = in.M; \
    CALL<A_, B_, Tr, 2>(T, __VA_ARGS__ ten, A TAIL); CALL<A_, B_, Tr, 2>(M[0], M[1], M[2], M[3], __VA_ARGS__ ten, B TAIL); in.same(); } \
  VC(over_mem_##NAME) { In<2> in; auto T = make_tetras(in.X[0], in.X[1], in.X[2], in.X[3], 2); DenseMatrix<> A(in.a, 3, 4, 12), B(in.b, 3, 4, 12); const auto* M = in.M; Buf<double> d(4000); PlainMemory<> pm; pm.ddata = d.p; pm.dSize = 4000; \
    CALL<A_, B_, Tr>(T, __VA_ARGS__ ten, A, pm TAIL); CALL<A_, B_, Tr>(M[0], M[1], M[2], M[3], __VA_ARGS__ ten, B, pm TAIL); in.same(); }
static double g_L[4] = {0.125, 0.25, 0.5, 0.125}, g_W[1] = {1.5};
#define LW ArrayView<>(g_L, 4), ArrayView<>(g_W, 1),
#define O1 , 1
#define NOARG
OVER(node, fem3Dnode, NOARG, 2,) OVER(pntL, fem3DpntL, NOARG, LW) OVER(face, fem3Dface, O1, 1,) OVER(faceN, fem3DfaceN, O1, 3,) OVER(edge, fem3Dedge, O1, 4,)
VC(over_tet) { In<2> in; auto T = make_tetras(in.X[0], in.X[1], in.X[2], in.X[3], 2); DenseMatrix<> A(in.a, 3, 4, 12), B(in.b, 3, 4, 12); const auto* M = in.M; fem3Dtet<A_, B_, Tr, 2>(T, ten, A, 1); fem3Dtet<A_, B_, Tr, 2>(M[0], M[1], M[2], M[3], ten, B, 1); in.same(); }
VC(over_mem_tet) { In<2> in; auto T = make_tetras(in.X[0], in.X[1], in.X[2], in.X[3], 2); DenseMatrix<> A(in.a, 3, 4, 12), B(in.b, 3, 4, 12); const auto* M = in.M; Buf<double> d(4000); PlainMemory<> pm; pm.ddata = d.p; pm.dSize = 4000; fem3Dtet<A_, B_, Tr>(T, ten, A, pm, 1); fem3Dtet<A_, B_, Tr>(M[0], M[1], M[2], M[3], ten, B, pm, 1); in.same(); }
#ifdef WITH_EIGEN
VC(over_eigen) {
    In<1> in; Tetra<double> T(in.X[0], in.X[1], in.X[2], in.X[3]); DenseMatrix<> A(in.a, 3, 2, 6);
    fem3Dtet<A_, B_, Tr>(T, ten, A, 1);
    Eigen::Vector3d v[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i][k] = in.X[i][k];
    Eigen::Matrix<double, 3, 2> E; fem3Dtet<A_, B_, Tr>(v[0], v[1], v[2], v[3], std::function<TensorType(const std::array<double, 3>&, double*, std::pair<uint, uint>, void*, int)>(ten), E, 1);
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) vc_eq(E(i, j), in.a[i + 3 * j], "Eigen overload");
}
#endif
