// VCFLAGS: timeout=200 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C22: interpolation by a space composed at run time equals interpolation by the compile-time space for an arbitrary function, one
// coefficient at a time, fused, and on selections of geometric parts, in memory of exactly the announced size.
#include "rtspace.h"
#include "dofgeom.h"
#include <cstring>
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
struct Fld { int D; double c[64][2]; void init(int n) { D = n; for (int i = 0; i < n; ++i) { c[i][0] = vc_real("c", -2, 2); c[i][1] = vc_real("c", -2, 2); } } };
static Fld* g; static int bad = 0;
static int ev(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if ((int)dim != g->D || ud != (void*)g) { bad = 1; return 0; } double F = vc_uf2("F", vc_uf2("G", X[0], X[1]), X[2]); for (int i = 0; i < g->D; ++i) res[i] = g->c[i][0] + g->c[i][1] * F; return 0; }
struct RTet { double X[4][3]; void sym() { for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][k] = vc_real("x", (i == k + 1) * 2. - 0.6, (i == k + 1) * 2. + 0.6); vc_nonzero(tet_det(X)); } void fix() { static const double Y[4][3] = {{0, 0, 0}, {1, 0.25, 0}, {0, 1, 0.5}, {0.125, 0, 1}}; memcpy(X, Y, sizeof X); } Tetra<const double> t() const { return Tetra<const double>(X[0], X[1], X[2], X[3]); } };
struct PMem { PlainMemoryX<> r; Buf<double> d; Buf<int> i; Buf<DenseMatrix<>> m; explicit PMem(PlainMemoryX<> q) : r(q), d(q.dSize), i(q.iSize), m(q.mSize) { r.ddata = d.p; r.idata = i.p; r.mdata = m.p; } };
template<class F, int FU> static void ondof() {
    constexpr int N = Operator<IDEN, F>::Nfa::value, D = Operator<IDEN, F>::Dim::value; RTet t; t.sym(); Fld fl; fl.init(D * FU); g = &fl; bad = 0; FemSpace s = RtOf<F>::make(); int id = (int)vc_choose("dof", 0, N - 1), ord = FU == 1 ? (int)vc_choose("order", 4, 5) : 5;
    Buf<double> u(N * FU), w(N * FU); for (int i = 0; i < N * FU; ++i) u.p[i] = w.p[i] = vc_real("old", -3, 3);
    std::array<ArrayView<>, FU> U, W; for (int r = 0; r < FU; ++r) { U[r] = ArrayView<>(u.p + N * r, N); W[r] = ArrayView<>(w.p + N * r, N); }
    Dof<F>::template interpolate<FU>(t.t(), ev, W, id, (void*)g, ord); PMem pm(s.interpolateOnDOF_mem_req(id, FU, ord)); BaseFemSpace::EvalFunc fn = ev;
    if (FU == 1 && ord == 4) { PMem p2(s.interpolateOnDOF_mem_req(id, ord)); s.interpolateOnDOF(t.t(), fn, U[0], id, p2.r, (void*)g, ord); } else s.interpolateOnDOF(t.t(), fn, U.data(), id, FU, pm.r, (void*)g, ord);
    vc_check(!bad, "dimension and user data given to the function"); for (int r = 0; r < FU; ++r) vc_check(U[r].data == u.p + N * r && (int)U[r].size == N, "the coefficient vectors are given back unchanged");
    for (int i = 0; i < N * FU; ++i) vc_eq(u.p[i], w.p[i], "same coefficients"); vc_cover("same");
}
template<class F> static void seln() {
    constexpr int N = Operator<IDEN, F>::Nfa::value, D = Operator<IDEN, F>::Dim::value; RTet t; t.fix(); Fld fl; fl.init(D); g = &fl; bad = 0; FemSpace s = RtOf<F>::make(); Sel sl; unsigned k = vc_choose("part", 0, 17), n = 0, e = 0, f = 0, c = 0;
    if (k < 4) n = 1u << k; else if (k < 10) e = 1u << (k - 4); else if (k < 14) f = 1u << (k - 10); else if (k == 14) c = 1; else if (k == 15) { n = 15; e = 63; f = 15; c = 1; } else if (k == 16) { n = 5; e = 41; f = 10; c = 1; } sl.build(n, e, f, c);
    Buf<double> u(N), w(N); for (int i = 0; i < N; ++i) u.p[i] = w.p[i] = vc_real("old", -3, 3); BaseFemSpace::EvalFunc fn = ev;
    interpolateByDOFs<F>(t.t(), fn, ArrayView<>(w.p, N), sl.sp, (void*)g, 5); PMem pm(s.interpolateByDOFs_mem_req(5)); s.interpolateByDOFs(t.t(), fn, ArrayView<>(u.p, N), sl.sp, pm.r, (void*)g, 5);
    vc_check(!bad, "dimension and user data given to the function"); for (int i = 0; i < N; ++i) vc_eq(u.p[i], w.p[i], "same coefficients");
    for (int i = 0; i < N; ++i) u.p[i] = w.p[i] = vc_real("old2", -3, 3); double v = vc_real("v", -2, 2); interpolateConstant<F>(v, ArrayView<>(w.p, N), sl.sp); s.interpolateConstant(v, ArrayView<>(u.p, N), sl.sp); for (int i = 0; i < N; ++i) vc_eq(u.p[i], w.p[i], "same constants"); vc_cover("same");
}
#define INT(NAME, ...) VC(dof_##NAME) { ondof<__VA_ARGS__, 1>(); } VC(fused_##NAME) { ondof<__VA_ARGS__, 2>(); } VC(select_##NAME) { seln<__VA_ARGS__>(); }
INT(P0, P0) INT(P1, P1) INT(P2, P2) INT(P3, P3) INT(CR1, CR1) INT(B2, B2) INT(B4, B4) INT(RT0, RT0) INT(ND0, ND0)
INT(V3P2, FemVec<3, FEM_P2>) INT(V2RT0, FemVec<2, FEM_RT0>) INT(V2CR1, FemVec<2, FEM_CR1>) INT(VV, FemVecT<2, FemVec<2, FEM_P1>>) INT(V2ND0, FemVec<2, FEM_ND0>)
INT(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) INT(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) INT(C_C, FemCom<FemCom<RT0, P0>, FemCom<P1>>)
INT(U_P1_B4, FemUnionT<P1, B4>) INT(U_P2_B4, FemUnionT<P2, B4>) INT(V_U, FemVecT<3, FemUnionT<P1, B4>>) INT(C_V_U, FemCom<FemVecT<2, FemUnionT<P1, B4>>, P1>) INT(U_V, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>)
// Layout of the degrees of freedom.
template<class F> static void layout() {
    FemSpace s = RtOf<F>::make(); auto m = Dof<F>::Map(); auto& d = s.dofMap(); constexpr int N = Operator<IDEN, F>::Nfa::value; vc_check((int)d.NumDofOnTet() == N && (int)m.NumDofOnTet() == N && (int)s.dim() == Operator<IDEN, F>::Dim::value && (int)s.order() == Operator<IDEN, F>::Order::value, "sizes");
    vc_check(d.GetGeomMask() == m.GetGeomMask(), "geometric mask"); for (unsigned char et : {DofT::NODE, DofT::EDGE_UNORIENT, DofT::EDGE_ORIENT, DofT::FACE_UNORIENT, DofT::FACE_ORIENT, DofT::CELL}) { vc_check(d.NumDof(et) == m.NumDof(et) && d.NumDofOnTet(et) == m.NumDofOnTet(et), "numbers of degrees of freedom"); }
    for (int i = 0; i < N; ++i) { auto a = d.LocalOrderOnTet(DofT::TetOrder(i)); auto b = m.LocalOrderOnTet(DofT::TetOrder(i)); vc_check(a.gid == b.gid && a.leid == b.leid && a.etype == b.etype && a.nelem == b.nelem && a.stype == b.stype && a.lsid == b.lsid, "place of a degree of freedom"); vc_check(d.isValidIndex(DofT::TetOrder(i)), "valid"); vc_check(d.TetDofID(b.getGeomOrder()) == (unsigned)i, "index of a place"); }
    vc_check(!d.isValidIndex(DofT::TetOrder(N)), "no further degree of freedom"); vc_cover("layout");
}
#define LAY(NAME, ...) VC(layout_##NAME) { layout<__VA_ARGS__>(); }
LAY(P0, P0) LAY(P1, P1) LAY(P2, P2) LAY(P3, P3) LAY(CR1, CR1) LAY(B2, B2) LAY(B4, B4) LAY(RT0, RT0) LAY(ND0, ND0) LAY(V3P2, FemVec<3, FEM_P2>) LAY(V2RT0, FemVec<2, FEM_RT0>) LAY(VV, FemVecT<2, FemVec<2, FEM_P1>>) LAY(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) LAY(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) LAY(C_C, FemCom<FemCom<RT0, P0>, FemCom<P1>>)
LAY(U_P1_B4, FemUnionT<P1, B4>) LAY(V_U, FemVecT<3, FemUnionT<P1, B4>>) LAY(C_V_U, FemCom<FemVecT<2, FemUnionT<P1, B4>>, P1>) LAY(V3P3, FemVec<3, FEM_P3>)
