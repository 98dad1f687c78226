// Operators of vector, composite, enriched and nested spaces are the derivatives of the identity operator of the same space;
// that identity operator is the block-diagonal arrangement of the identity operators of the parts (C02).
// VCFLAGS: timeout=200 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "calculus.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
#define CASES(NAME, TIED, ...) using T_##NAME = __VA_ARGS__; \
    VC(grad_##NAME) { grad<T_##NAME, 1, 1, TIED>(); } VC(grad_batch_##NAME) { grad<T_##NAME, 2, 2, TIED>(); } VC(partial_##NAME) { duds<T_##NAME, 2, 1, TIED>(); } VC(degree_##NAME) { degree4<T_##NAME, TIED>(); }
#define VECDC(NAME, F) VC(div_##NAME) { div<FemVec<3, F>, 1, 1, false>(); } VC(div_batch_##NAME) { div<FemVec<3, F>, 2, 2, false>(); } VC(curl_##NAME) { curl<FemVec<3, F>, 1, 1, false>(); } VC(curl_batch_##NAME) { curl<FemVec<3, F>, 2, 2, false>(); }
CASES(V3P1, false, FemVec<3, FEM_P1>) CASES(V3P2, false, FemVec<3, FEM_P2>) CASES(V2P3, false, FemVec<2, FEM_P3>) CASES(V3CR1, false, FemVec<3, FEM_CR1>) CASES(V2ND0, true, FemVec<2, FEM_ND0>) CASES(V1P0, false, FemVec<1, FEM_P0>)
VECDC(V3P0, FEM_P0) VECDC(V3P1, FEM_P1) VECDC(V3P2, FEM_P2) VECDC(V3P3, FEM_P3) VECDC(V3CR1, FEM_CR1) VECDC(V3B2, FEM_B2) VECDC(V3B4, FEM_B4)
CASES(VT2_V2P1, false, FemVecT<2, FemVec<2, FEM_P1>>)
CASES(VT2_P2, false, FemVecT<2, P2>)
CASES(C_P1_P2, false, FemCom<P1, P2>)
CASES(C_V3P2_P1, false, FemCom<FemVec<3, FEM_P2>, P1>)
CASES(C_RT0_P0, true, FemCom<RT0, P0>)
CASES(C_ND0_P1_RT0, true, FemCom<ND0, P1, RT0>)
CASES(C_nested, false, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>)
CASES(U_P1_B4, false, FemUnionT<P1, B4>)
CASES(U_P1_B2, false, FemUnionT<P1, B2>)
CASES(U_V3P1_V3B4, false, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>)
CASES(C_V_U, false, FemCom<FemVecT<3, FemUnionT<P1, B4>>, P1>)
CASES(U_P0, false, FemUnionT<P0>)
