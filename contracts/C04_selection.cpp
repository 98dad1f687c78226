// Interpolation on a selection of geometric parts writes exactly the coefficients that live on the selected parts.
// VCFLAGS: timeout=300 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "dofgeom.h"
#include "anifem++/fem/operations/operations.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
template<typename FEM> static void constant() {
    constexpr int N = Operator<IDEN, FEM>::Nfa::value; Sel s; all_selections(s);
    Buf<double> u(N); double old = vc_real("old", -3, 3), v = vc_real("v", -3, 3); for (int i = 0; i < N; ++i) u.p[i] = old + i;
    interpolateConstant<FEM>(v, ArrayView<>(u.p, N), s.sp);
    for (int i = 0; i < N; ++i) vc_eq(u.p[i], s.has(Loc<FEM>::at(i)) ? v : old + i, "exactly the coefficients on the selected parts");
}
static int eval1(const std::array<double, 3>& X, double* res, unsigned dim, void*) { for (unsigned i = 0; i < dim; ++i) res[i] = 7 + i; (void)X; return 0; }
template<typename FEM> static void bydofs() {
    constexpr int N = Operator<IDEN, FEM>::Nfa::value; Sel s; unsigned k = vc_choose("part", 0, 16), n = 0, e = 0, f = 0, c = 0;
    if (k < 4) n = 1u << k; else if (k < 10) e = 1u << (k - 4); else if (k < 14) f = 1u << (k - 10); else if (k == 14) c = 1; else if (k == 15) { n = 15; e = 63; f = 15; c = 1; } else { n = 5; e = 41; f = 10; c = 1; }
    s.build(n, e, f, c);
    static const double X[4][3] = {{0, 0, 0}, {1, 0.25, 0}, {0, 1, 0.5}, {0.125, 0, 1}}; Tetra<const double> XYZ(X[0], X[1], X[2], X[3]);
    Buf<double> u(N), w(N); double old = vc_real("old", -3, 3); for (int i = 0; i < N; ++i) u.p[i] = old + i;
    for (int i = 0; i < N; ++i) Dof<FEM>::interpolate(XYZ, eval1, ArrayView<>(w.p, N), i, nullptr, 3);
    interpolateByDOFs<FEM>(XYZ, eval1, ArrayView<>(u.p, N), s.sp, nullptr, 3);
    for (int i = 0; i < N; ++i) vc_eq(u.p[i], s.has(Loc<FEM>::at(i)) ? w.p[i] : old + i, "exactly the coefficients on the selected parts");
}
#define SEL(NAME, ...) VC(const_##NAME) { constant<__VA_ARGS__>(); } VC(bydofs_##NAME) { bydofs<__VA_ARGS__>(); }
SEL(P0, P0) SEL(P1, P1) SEL(P2, P2) SEL(P3, P3) SEL(CR1, CR1) SEL(B2, B2) SEL(B4, B4) SEL(RT0, RT0) SEL(ND0, ND0)
SEL(V3P2, FemVec<3, FEM_P2>) SEL(V2P3, FemVec<2, FEM_P3>) SEL(VT2_C_P1_P0, FemVecT<2, FemCom<P1, P0>>) SEL(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) SEL(C_ND0_P1_RT0, FemCom<ND0, P1, RT0>)
SEL(C_P1_P0_P1, FemCom<P1, P0, P1>) SEL(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4, P2>) SEL(C_P2_ND0, FemCom<P2, ND0>)
