// Every differential operator is the derivative of the identity operator of the same element, for all tetrahedra and points.
// The derivative of a shape function is obtained from its own values: they are polynomials of degree <= 4 in the barycentric
// coordinates (checked below by the 7-point rule), for which the 5-point difference quotient is exact.
// VCFLAGS: timeout=120 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "calculus.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
ALLOPS(P0, P0, false) ALLOPS(P1, P1, false) ALLOPS(P2, P2, false) ALLOPS(P3, P3, false) ALLOPS(CR1, CR1, false) ALLOPS(B2, B2, false) ALLOPS(B4, B4, false)
ALLOPS(RT0, RT0, true) ALLOPS(ND0, ND0, true) DIVCURL(RT0, RT0, true) DIVCURL(ND0, ND0, true)
VC_NEG(grad_P2) { Spec<P2, 1, 1, false> s; OpEval<GRAD, P2, 1, 1> G; G.run(s.g.mem); vc_eq(G(0, 0, 5), s.jac(0, 1, 0, 5, 0), "wrong"); }
