// VCFLAGS: timeout=250 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C22: interpolation on one geometric part (node, edge, face, cell) of a function which there is a combination of the space's own
// functions attached to the closed part gives the coefficients of that combination and leaves all other coefficients alone, in memory
// of exactly the announced size (fixed tetrahedron, arbitrary coefficients).
#include "rtspace.h"
#include "dofgeom.h"
#include "domains.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
static unsigned verts(Where w) { static const unsigned e[6] = {3, 5, 9, 6, 10, 12}; if (w.dim == 0) return 1u << w.elem; if (w.dim == 1) return e[w.elem]; if (w.dim == 2) return 15u & ~(1u << (w.elem + 3) % 4); return 15u; }
static const double XX[4][3] = {{0, 0, 0}, {1, 0.25, 0}, {0, 1, 0.5}, {0.125, 0, 1}};
template<class F> struct Comb_ { static constexpr int N = Operator<IDEN, F>::Nfa::value, D = Operator<IDEN, F>::Dim::value; double c[N]; int bad = 0;
    static int ev(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { Comb_& s = *(Comb_*)ud; if ((int)dim != D) { s.bad = 1; return 0; } Tetra<const double> T(XX[0], XX[1], XX[2], XX[3]); fem3DapplyX<Operator<IDEN, F>>(T, ArrayView<const double>(X.data(), 3), ArrayView<double>(s.c, N), ArrayView<double>(res, D)); return 0; } };
template<class F> static void region() {
    vc_bounded("one fixed tetrahedron"); constexpr int N = Operator<IDEN, F>::Nfa::value; static const unsigned char tp[4] = {DofT::NODE, DofT::EDGE_UNORIENT, DofT::FACE_ORIENT, DofT::CELL}; int k = (int)vc_choose("part", 0, 14), d = k < 4 ? 0 : k < 10 ? 1 : k < 14 ? 2 : 3, e = d == 0 ? k : d == 1 ? k - 4 : d == 2 ? k - 10 : 0; unsigned reg = verts({d, e, 0});
    FemSpace s = RtOf<F>::make(); Comb_<F> cb; Buf<double> u(N); double old[N]; bool in[N]; for (int i = 0; i < N; ++i) { unsigned v = verts(Loc<F>::at(i)); in[i] = (v & reg) == v; cb.c[i] = in[i] ? vc_real("c", -2, 2) : 0; u.p[i] = old[i] = vc_real("old", -2, 2); }
    int ord = 2 * (int)Operator<IDEN, F>::Order::value; if (ord > 8) ord = 8; if (ord < 1) ord = 1; PlainX m(s.interpolateOnRegion_mem_req(tp[d], ord)); Tetra<const double> T(XX[0], XX[1], XX[2], XX[3]);
    s.interpolateOnRegion(T, BaseFemSpace::EvalFunctor(Comb_<F>::ev), ArrayView<>(u.p, N), tp[d], e, m.pm, (void*)&cb, ord); vc_check(!cb.bad, "arguments given to the function");
    for (int i = 0; i < N; ++i) if (in[i]) vc_eq(u.p[i], cb.c[i], "coefficients on the part are reproduced"); else vc_eq(u.p[i], old[i], "other coefficients are left alone"); vc_cover("region");
}
#define RG(NAME, ...) VC(region_##NAME) { region<__VA_ARGS__>(); }
RG(P0, P0) RG(P1, P1) RG(P2, P2) RG(P3, P3) RG(CR1, CR1) RG(B2, B2) RG(B4, B4) RG(RT0, RT0) RG(ND0, ND0) RG(V3P2, FemVec<3, FEM_P2>) RG(V2CR1, FemVec<2, FEM_CR1>) RG(C_V3P1_P2, FemCom<FemVec<3, FEM_P1>, P2>) RG(C_RT0_P0, FemCom<RT0, P0>) RG(U_P1_B4, FemUnionT<P1, B4>) RG(C_V_U, FemCom<FemVecT<2, FemUnionT<P1, B4>>, P1>) RG(V2ND0, FemVec<2, FEM_ND0>)
