// Shape functions evaluated in batches: see batch.h.
// VCFLAGS: timeout=200 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "batch.h"
using namespace vcx;
ALONE(P0, IDEN, FemFix<FEM_P0>) ALONE(P1, IDEN, FemFix<FEM_P1>) ALONE(P2, IDEN, FemFix<FEM_P2>) ALONE(P3, IDEN, FemFix<FEM_P3>) ALONE(CR1, IDEN, FemFix<FEM_CR1>) ALONE(B2, IDEN, FemFix<FEM_B2>) ALONE(B4, IDEN, FemFix<FEM_B4>) ALONE_FIX(RT0, IDEN, FemFix<FEM_RT0>) ALONE(ND0, IDEN, FemFix<FEM_ND0>)
ALONE(V3P1, IDEN, FemVec<3, FEM_P1>) ALONE_FIX(V2RT0, IDEN, FemVec<2, FEM_RT0>) ALONE_FIX(C_ND0_P1_RT0, IDEN, FemCom<FemFix<FEM_ND0>, FemFix<FEM_P1>, FemFix<FEM_RT0>>) ALONE(C_nested, IDEN, FemCom<FemVecT<2, FemCom<FemFix<FEM_P1>, FemFix<FEM_P0>>>, FemVec<2, FEM_CR1>, FemFix<FEM_B4>>)
