// Differential operators in batches: see batch.h.
// VCFLAGS: timeout=300 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "batch.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
#define D4(NAME, ...) using T_##NAME = __VA_ARGS__; ALONE(grad_##NAME, GRAD, T_##NAME) ALONE(dudx_##NAME, DUDX, T_##NAME) ALONE(dudy_##NAME, DUDY, T_##NAME) ALONE(dudz_##NAME, DUDZ, T_##NAME)
#define F4(NAME, ...) using T_##NAME = __VA_ARGS__; ALONE_FIX(grad_##NAME, GRAD, T_##NAME) ALONE_FIX(dudx_##NAME, DUDX, T_##NAME) ALONE_FIX(dudy_##NAME, DUDY, T_##NAME) ALONE_FIX(dudz_##NAME, DUDZ, T_##NAME)
#define FC(NAME, ...) ALONE_FIX(div_##NAME, DIV, __VA_ARGS__) ALONE_FIX(curl_##NAME, CURL, __VA_ARGS__)
#define DC(NAME, ...) ALONE(div_##NAME, DIV, __VA_ARGS__) ALONE(curl_##NAME, CURL, __VA_ARGS__)
D4(P0, P0) D4(P1, P1) D4(P2, P2) D4(P3, P3) D4(CR1, CR1) D4(B2, B2) D4(B4, B4) F4(RT0, RT0) D4(ND0, ND0) FC(RT0, RT0) DC(ND0, ND0)
DC(V3P0, FemVec<3, FEM_P0>) DC(V3P1, FemVec<3, FEM_P1>) DC(V3P2, FemVec<3, FEM_P2>) DC(V3P3, FemVec<3, FEM_P3>) DC(V3CR1, FemVec<3, FEM_CR1>) DC(V3B2, FemVec<3, FEM_B2>) DC(V3B4, FemVec<3, FEM_B4>)
D4(V3P2, FemVec<3, FEM_P2>) D4(V2ND0, FemVec<2, FEM_ND0>) D4(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) D4(U_P1_B4, FemUnionT<P1, B4>) F4(C_RT0_P0, FemCom<RT0, P0>)
