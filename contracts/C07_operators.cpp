// VCFLAGS: timeout=200 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C07: every differential operator of every space stays inside buffers of exactly the announced size (uninitialised before the
// call), for batches of several tetrahedra and points, and every value it delivers is defined.
#include "fem.h"
#include "anifem++/fem/operations/operations.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
template<int OP, class F, int f, int q> static void one() {
    Geo<f, q> g; g.real_geometry(); g.sym_points(); g.bind(); std::unique_ptr<OpEval<OP, F, f, q>> e(new OpEval<OP, F, f, q>); e->run(g.mem); int ok = 1; for (auto& x : e->v) ok &= !vc_isundef(&x, sizeof x); vc_check(ok, "every delivered value is defined");
    // the same operator behind the run-time interface
    ApplyOpFromTemplate<OP, F> a; auto req = a.getMemoryRequirements(q, f); vc_check(a.Nfa() == e->nfa && a.Dim() == e->dim, "sizes of the run-time operator");
    Buf<double> U(req.Usz), R(req.extraRsz); Buf<int> I(req.extraIsz), MR(2 + req.mtx_parts), MC(2 + req.mtx_parts); Buf<DenseMatrix<>> M(req.mtx_parts);
    AniMemoryX<> m; static_cast<AniMemory<double, int>&>(m) = g.mem; m.U.Init(U.p, req.Usz); m.extraR.Init(R.p, req.extraRsz); m.extraI.Init(I.p, req.extraIsz); m.MTX.Init(M.p, req.mtx_parts); m.MTXI_ROW.Init(MR.p, 2 + req.mtx_parts); m.MTXI_COL.Init(MC.p, 2 + req.mtx_parts);
    auto b = a(m, m.U); vc_check(b.nparts <= req.mtx_parts, "no more parts than announced"); int in = 1;
    for (std::size_t p = 0; p < b.nparts; ++p) { int ld = b.stRow[p + 1] - b.stRow[p], ln = b.stCol[p + 1] - b.stCol[p]; vc_check((int)b.data[p].nRow == ld * q && (int)b.data[p].nCol == ln * f, "size of a part"); in &= b.data[p].data >= U.p && b.data[p].data + b.data[p].nRow * b.data[p].nCol <= U.p + req.Usz;
        for (int r = 0; r < f; ++r) for (int i = 0; i < ln; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < ld; ++k) vc_eq(b.data[p].data[k + ld * n + ld * q * (i + ln * r)], (*e)(k + b.stRow[p], n, i + b.stCol[p], r), "the run-time operator delivers the same values"); }
    vc_check(in, "the parts lie in the announced memory"); vc_cover("evaluated");
}
template<int OP, class F> static void op() { int c = (int)vc_choose("batch", 0, 3); if (c == 0) one<OP, F, 1, 1>(); if (c == 1) one<OP, F, 1, 3>(); if (c == 2) one<OP, F, 2, 1>(); if (c == 3) one<OP, F, 3, 2>(); }
#define GR(NAME, ...) using T_##NAME = __VA_ARGS__; VC(iden_##NAME) { op<IDEN, T_##NAME>(); } VC(grad_##NAME) { op<GRAD, T_##NAME>(); } VC(dudx_##NAME) { op<DUDX, T_##NAME>(); } VC(dudy_##NAME) { op<DUDY, T_##NAME>(); } VC(dudz_##NAME) { op<DUDZ, T_##NAME>(); }
#define DC(NAME, ...) VC(div_##NAME) { op<DIV, __VA_ARGS__>(); } VC(curl_##NAME) { op<CURL, __VA_ARGS__>(); }
GR(P0, P0) GR(P1, P1) GR(P2, P2) GR(P3, P3) GR(CR1, CR1) GR(B2, B2) GR(B4, B4) GR(RT0, RT0) GR(ND0, ND0) DC(RT0, RT0) DC(ND0, ND0)
GR(V3P2, FemVec<3, FEM_P2>) GR(V2ND0, FemVec<2, FEM_ND0>) GR(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) GR(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) GR(U_P1_B4, FemUnionT<P1, B4>) GR(C_V_U, FemCom<FemVecT<3, FemUnionT<P1, B4>>, P1>) GR(U_P2_B4_P0, FemUnionT<P2, B4>)
DC(V3P1, FemVec<3, FEM_P1>) DC(V3P3, FemVec<3, FEM_P3>) DC(V3B4, FemVec<3, FEM_B4>) DC(V3B2, FemVec<3, FEM_B2>)
