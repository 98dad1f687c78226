// VCFLAGS: timeout=200 eigen=0 sqrt=1 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C23: the symbolic form of the shape functions, evaluated with the library's numerical engine of expressions (NumericExpr, C18) at
// an arbitrary point of an arbitrary tetrahedron, gives the values of the identity operator in the same order.
#include "rtspace.h"
#include "anifem++/fem/numeric_expr.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
template<class F> static void values(bool own) {
    Geo<1, 1> g; g.real_geometry(); g.sym_points(); g.bind(); std::unique_ptr<OpEval<IDEN, F, 1, 1>> e(new OpEval<IDEN, F, 1, 1>); e->run(g.mem);
    double gr[12]; for (int d = 0; d < 3; ++d) { gr[4 * d] = 0; for (int k = 0; k < 3; ++k) { gr[k + 1 + 4 * d] = g.PSI[k + 3 * d]; gr[4 * d] -= g.PSI[k + 3 * d]; } }
    Expr lmb = NumericExpr<>::CreateExpr(0, 4, 1), grad = NumericExpr<>::CreateExpr(0, 4, 3); lmb = g.XYL; grad = gr;
    FemSpace s = RtOf<F>::make(); std::vector<Expr> phi; if (own) { phi.resize(e->nfa); for (auto& x : phi) x = lmb.zeroes(); s.evalBasisFunctions(lmb, grad, phi.data()); } else s.base()->evalBasisFunctions(lmb, grad, phi);
    vc_check((int)phi.size() == e->nfa, "number of functions"); if ((int)phi.size() != e->nfa) return;
    for (int i = 0; i < e->nfa; ++i) {
        int ok = (int)phi[i].nrows() == e->dim && (int)phi[i].ncols() == 1; vc_check(ok, "shape of a value"); if (!ok) return;
        for (int k = 0; k < e->dim; ++k) vc_eq((*phi[i].template target<NumericExpr<>>())(k, 0), (*e)(k, 0, i), "symbolic shape function = identity operator");
    }
    for (int i = 0; i < 4; ++i) vc_eq((*lmb.target<NumericExpr<>>())(i, 0), g.XYL[i], "the arguments are left alone"); for (int i = 0; i < 12; ++i) vc_eq((*grad.target<NumericExpr<>>())(i % 4, i / 4), gr[i], "the arguments are left alone");
    vc_cover("evaluated");
}
#define SYM(NAME, ...) VC(values_##NAME) { values<__VA_ARGS__>(false); } VC(memory_##NAME) { values<__VA_ARGS__>(true); }
SYM(P0, P0) SYM(P1, P1) SYM(P2, P2) SYM(P3, P3) SYM(CR1, CR1) SYM(B2, B2) SYM(B4, B4) SYM(RT0, RT0) SYM(ND0, ND0)
SYM(V3P2, FemVec<3, FEM_P2>) SYM(V2P3, FemVec<2, FEM_P3>) SYM(V1P1, FemVec<1, FEM_P1>) SYM(V2ND0, FemVec<2, FEM_ND0>) SYM(V2RT0, FemVec<2, FEM_RT0>) SYM(V_V, FemVecT<2, FemVec<2, FEM_P1>>) SYM(V3P0, FemVec<3, FEM_P0>)
SYM(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) SYM(C_RT0_P0, FemCom<RT0, P0>) SYM(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) SYM(C_C, FemCom<FemCom<ND0, P3>, FemCom<B2>>)
SYM(U_P1_B4, FemUnionT<P1, B4>) SYM(U_P2_B4, FemUnionT<P2, B4>) SYM(V_U, FemVecT<3, FemUnionT<P1, B4>>) SYM(C_V_U, FemCom<FemVecT<3, FemUnionT<P1, B4>>, P1>) SYM(U_V, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>)
VC_NEG(order) { Geo<1, 1> g; g.real_geometry(); g.sym_points(); g.bind(); Expr lmb = NumericExpr<>::CreateExpr(0, 4, 1), phi[4]; lmb = g.XYL; Basis<P1>::eval(lmb, lmb, phi); vc_eq((*phi[1].target<NumericExpr<>>())(0, 0), g.XYL[0], "wrong"); }
