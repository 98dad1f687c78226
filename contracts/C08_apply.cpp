// VCFLAGS: timeout=200 eigen=0+1 link=anifem++/fem/quadrature_formulas.cpp
// C08: fem3DapplyL / fem3DapplyX (compile-time and run-time operators, stack, external and pooled memory, with and without a
// tensor) over abstract operators: every component at every point of every tetrahedron is the sum over the shape functions of
// coefficient times the value the operator returns, and the operator gets the points, vertices and inverse map it may rely on.
#include "domains.h"
using namespace vcx; using namespace Ani;
// exact-size arrays of coefficients and results
template<class Op, int f, int MQ> struct Ev {
    static constexpr int N = Op::Nfa::value, D = Op::Dim::value; Buf<double> dof, out; DenseMatrix<> dofs, A; DynAbs u; int q, rows;
    Ev(int q_, int rows_) : dof(N * f), out(rows_ * q_ * f), dofs(dof.p, N, f, N * f), A(out.p, rows_ * q_, f, rows_ * q_ * f), u(&Op::tab, D, N, 0), q(q_), rows(rows_) { u.P = Op::tab.parts; fill_real(dof.p, N * f, "u"); A.nRow = A.nCol = 7777; }
    double sum(int l, int n, int r) { double s = 0; for (int i = 0; i < N; ++i) s += Op::tab.at(l, n, i, r) * dof.p[i + N * r]; return s; }
    void plain() { for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < D; ++k) vc_eq(out.p[k + D * (n + q * r)], sum(k, n, r), "value = sum over shape functions"); vc_check(g_expect.calls == 1, "operator evaluated once"); vc_cover("computed"); }
    template<class T> void tensor(T t) { for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < rows; ++k) { double s = 0; for (int l = 0; l < D; ++l) s += t(k, l, n, r) * sum(l, n, r); vc_eq(out.p[k + rows * (n + q * r)], s, "tensor applied to the sum over shape functions"); } vc_cover("computed"); }
};
template<class Op, int f, int MQ> static void prep(Dom<f, MQ>& d) {
    d.points(); Op::init(d.q, f); g_rows = g_cols = 0; g_f = f;
    g_expect.on = true; g_expect.q = d.q; g_expect.f = f; g_expect.lam = d.lam; for (int i = 0; i < 4; ++i) g_expect.X[i] = d.X[i]; g_expect.calls = 0;
}
enum { TPOINT = 10, TPOINTPOOL };
template<class Op, int f, int q, int MODE> static void evalL() {
    Dom<f, q> d; d.q = q; double L[4 * q];
    for (int n = 0; n < q; ++n) { double s = 1; for (int i = 1; i < 4; ++i) { d.lam[4 * n + i] = vc_real("L", 0, 0.3); s -= d.lam[4 * n + i]; } d.lam[4 * n] = s; }
    for (int i = 0; i < 4 * q; ++i) L[i] = d.lam[i];
    prep<Op>(d); auto T = make_tetras((const double*)d.X[0], (const double*)d.X[1], (const double*)d.X[2], (const double*)d.X[3], f); ArrayView<> l(L, 4 * q); constexpr int R = 2; bool ten = MODE >= TPOINT; Ev<Op, f, q> e(q, ten ? R : Op::Dim::value);
    if (MODE == STACK) { EXI = 0; fem3DapplyL<Op, f, q>(T, l, e.dofs, e.A); }
    if (MODE == PLAIN) { Plain p(fem3DapplyL_memory_requirements<Op>(q, f)); fem3DapplyL<Op>(T, l, e.dofs, e.A, p.pm); }
    if (MODE == DYN) { PlainX p(fem3DapplyL_memory_requirements(e.u, q, f)); fem3DapplyL(T, l, e.dofs, e.u, e.A, p.pm); }
    if (MODE == POOL) { DynMem<> w; fem3DapplyL<Op>(T, l, e.dofs, e.A, w); }
    if (MODE == POOLX) { DynMem<> w; fem3DapplyL(T, l, e.dofs, e.u, e.A, w); }
    if (ten) { g_rows = R; g_cols = Op::Dim::value; }
    if (MODE == TPOINT) { PlainX p(fem3DapplyL_memory_requirements<TrP>(R, e.u, q, f)); fem3DapplyL<TrP>(T, l, e.dofs, e.u, R, pos_tensor, e.A, p.pm, &g_ud); }
    if (MODE == TPOINTPOOL) { DynMem<> w; fem3DapplyL<TrP>(T, l, e.dofs, e.u, R, pos_tensor, e.A, w, &g_ud); }
    vc_check((int)e.A.nRow == e.rows * q && (int)e.A.nCol == f, "shape of the result");
    if (ten) e.tensor([&](int k, int m, int n, int r) { return field(k, m, d.XG + 3 * (n + q * r), r); }); else e.plain();
}
static double g_c[16]; static TensorType cons_tensor(const Coord<>&, double* D, TensorDims dims, void* ud, int iTet) { vc_check(ud == &g_ud && (int)dims.first == g_rows && (int)dims.second == g_cols && iTet == 0, "arguments handed to the tensor"); for (int i = 0; i < g_rows * g_cols; ++i) D[i] = g_c[i]; return TENSOR_GENERAL; }
template<class Op, int q, int MODE> static void evalX() {
    Dom<1, q> d; d.q = q; double P[3 * q], det = d.det(0); constexpr int D = Op::Dim::value;
    for (int i = 0; i < 3 * q; ++i) P[i] = vc_real("p", 0, 0.6);
    for (int n = 0; n < q; ++n) {
        double e[3][3], s = 1; for (int i = 1; i < 4; ++i) { for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) e[j][k] = (j + 1 == i ? P[3 * n + k] : d.V(j + 1, 0)[k]) - d.V(0, 0)[k]; d.lam[4 * n + i] = det3(e[0], e[1], e[2]) / det; s -= d.lam[4 * n + i]; }
        d.lam[4 * n] = s;
    }
    prep<Op>(d); Tetra<const double> T(d.X[0], d.X[1], d.X[2], d.X[3]); ArrayView<const double> x(P, 3 * q); constexpr int R = 2; bool ten = MODE >= TPOINT; Ev<Op, 1, q> e(q, ten ? R : D); ArrayView<> dofs(e.dof.p, Op::Nfa::value), out(e.out.p, D * q);
    if (MODE == STACK) { EXI = 0; if (vc_choose("overload", 0, 1)) fem3DapplyX<Op, q>(d.X[0], d.X[1], d.X[2], d.X[3], ArrayView<const double>(P, 3 * q), dofs, out); else fem3DapplyX<Op, q>(T, x, dofs, out); }
    if (MODE == PLAIN) { Plain p(fem3DapplyX_memory_requirements<Op>(q, 1)); if (vc_choose("overload", 0, 1)) fem3DapplyX<Op>(d.X[0], d.X[1], d.X[2], d.X[3], x, dofs, out, p.pm); else fem3DapplyX<Op>(T, x, dofs, out, p.pm); }
    if (MODE == DYN) { PlainX p(fem3DapplyX_memory_requirements(e.u, q, 1)); fem3DapplyX(T, x, e.dofs, e.u, e.A, p.pm); }
    if (MODE == POOL) { DynMem<> w; fem3DapplyX<Op>(T, x, dofs, out, w); }
    if (MODE == POOLX) { DynMem<> w; fem3DapplyX(T, x, e.dofs, e.u, e.A, w); }
    if (ten) { g_rows = R; g_cols = D; for (auto& c : g_c) c = vc_real("D", -2, 2); }
    if (MODE == TPOINT) { PlainX p(fem3DapplyX_memory_requirements<TrP>(R, e.u, q, 1)); fem3DapplyX<TrP>(T, x, e.dofs, e.u, R, cons_tensor, e.A, p.pm, &g_ud); }
    if (MODE == TPOINTPOOL) { DynMem<> w; fem3DapplyX<TrP>(T, x, e.dofs, e.u, R, cons_tensor, e.A, w, &g_ud); }
    if (ten) e.tensor([&](int k, int m, int, int) { return g_c[k + R * m]; }); else e.plain();
}
#define EVL(NAME, ...) VC(L_##NAME##_stack) { evalL<__VA_ARGS__, STACK>(); } VC(L_##NAME##_plain) { evalL<__VA_ARGS__, PLAIN>(); } VC(L_##NAME##_dyn) { evalL<__VA_ARGS__, DYN>(); } VC(L_##NAME##_pool) { evalL<__VA_ARGS__, POOL>(); } VC(L_##NAME##_poolx) { evalL<__VA_ARGS__, POOLX>(); } VC(L_##NAME##_tensor) { evalL<__VA_ARGS__, TPOINT>(); } VC(L_##NAME##_tensor_pool) { evalL<__VA_ARGS__, TPOINTPOOL>(); }
#define EVX(NAME, ...) VC(X_##NAME##_stack) { evalX<__VA_ARGS__, STACK>(); } VC(X_##NAME##_plain) { evalX<__VA_ARGS__, PLAIN>(); } VC(X_##NAME##_dyn) { evalX<__VA_ARGS__, DYN>(); } VC(X_##NAME##_pool) { evalX<__VA_ARGS__, POOL>(); } VC(X_##NAME##_poolx) { evalX<__VA_ARGS__, POOLX>(); } VC(X_##NAME##_tensor) { evalX<__VA_ARGS__, TPOINT>(); } VC(X_##NAME##_tensor_pool) { evalX<__VA_ARGS__, TPOINTPOOL>(); }
using S1 = Abs<0, 1, 4, 1>; using V2 = Abs<0, 2, 3, 1>; using B2_ = Abs<0, 2, 4, 2>; using B3 = Abs<0, 3, 3, 3>; using B6 = Abs<0, 6, 6, 2>; using W1 = Abs<0, 3, 18, 1>;
EVL(scalar_11, S1, 1, 1) EVL(vec_22, V2, 2, 2) EVL(vec_13, V2, 1, 3) EVL(band2_11, B2_, 1, 1) EVL(band2_21, B2_, 2, 1) EVL(band2_12, B2_, 1, 2) EVL(band2_32, B2_, 3, 2) EVL(band3_14, B3, 1, 4) EVL(band6_22, B6, 2, 2) EVL(wide_23, W1, 2, 3)
EVL(wide_11, W1, 1, 1) EVL(wide_13, W1, 1, 3) EVL(wide_31, W1, 3, 1) EVL(vec_31, V2, 3, 1) EVL(vec_11, V2, 1, 1) EVL(vec_33, V2, 3, 3) EVL(band2_13, B2_, 1, 3) EVL(band2_31, B2_, 3, 1) EVL(band2_23, B2_, 2, 3) EVL(band3_21, B3, 2, 1)
EVX(scalar_1, S1, 1) EVX(vec_2, V2, 2) EVX(band2_1, B2_, 1) EVX(band3_3, B3, 3) EVX(band6_2, B6, 2) EVX(wide_1, W1, 1) EVX(wide_4, W1, 4) EVX(band2_3, B2_, 3)
template<class F> static bool refuses(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
// calls outside the documented limits are reported: more points or tetrahedra than the stack memory holds, coefficients or result of a wrong shape
VC(limits) {
    using Op = V2; constexpr int N = Op::Nfa::value, D = Op::Dim::value; static double X[4][12], L[64], dof[64], out[256]; for (int i = 0; i < 64; ++i) L[i] = dof[i] = 0;
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 12; ++k) X[i][k] = (i == k % 3 + 1) ? 1 : 0;
    int q = (int)vc_choose("q", 1, 5), f = (int)vc_choose("f", 1, 3), dn = (int)vc_choose("rows", -1, 1), df = (int)vc_choose("cols", -1, 1), ds = (int)vc_choose("room", -1, 1); Op::init(q, f); EXI = 0; g_expect.on = false;
    DenseMatrix<> dofs(dof, N + dn, f + df, 64), A(out, D * q, f, D * q * f + ds); auto T = make_tetras((const double*)X[0], (const double*)X[1], (const double*)X[2], (const double*)X[3], f); ArrayView<> l(L, 4 * q);
    bool bad = dn != 0 || df != 0 || ds < 0;
    vc_check(refuses([&] { fem3DapplyL<Op, 2, 4>(T, l, dofs, A); }) == (bad || q > 4 || f > 2), "stack memory: exactly the calls outside the limits are refused");
    Plain p(fem3DapplyL_memory_requirements<Op>(q, f)); vc_check(refuses([&] { fem3DapplyL<Op>(T, l, dofs, A, p.pm); }) == bad, "external memory: exactly the calls of wrong shape are refused");
    vc_cover("limits");
}
VC_NEG(order) { S1::init(1, 1); Ev<S1, 1, 1> e(1, 1); vc_eq(e.sum(0, 0, 0), e.sum(0, 0, 0) + e.dof.p[0], "wrong"); }
