// Compile-time dof maps (those of the finite elements) against the reference model and against the run-time maps.
// VCFLAGS: timeout=300 link=anifem++/fem/tetdofmap.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/quadrature_formulas.cpp
#include "dofmodel.h"
using namespace vcx; using namespace Ani::DofT;
static const Syms sP1 = {{{1}}}, sP2 = {{{1}, {1}}}, sND = {{{}, {}, {1}}}, sRT = {{{}, {}, {}, {}, {1}}}, sP0 = {{{}, {}, {}, {}, {}, {1}}}, sMix = {{{2}, {1, 1}, {2, 1}, {1, 1, 1}, {2, 1}, {1, 1, 0, 1}}}, sCR = {{{}, {}, {}, {1}}};
static UniteDofMap u(const Syms& s) { return UniteDofMap(DofSymmetries({s[0][0]}, {s[1][0], s[1][1]}, {s[2][0], s[2][1]}, {s[3][0], s[3][1], s[3][2]}, {s[4][0], s[4][1], s[4][2]}, {s[5][0], s[5][1], s[5][2], s[5][3], s[5][4]})); }
using U = UniteDofMap; using V = VectorDofMapC<U>;
static void all(const BaseDofMap& m, const Model& M) { int k = vc_choose("what", 0, 2); if (k == 0) { check_map(m, M); vc_check(m == *m.Copy(), "a copy is equal"); return; } Sel s; all_selections(s); if (k == 1) check_sparse(m, M, s); else check_sparse_geom(m, M, s); }
VC(vec_mix) { all(V(3, u(sMix)), m_vec(3, m_sym(sMix))); }
VC(vec_vec) { all(VectorDofMapC<V>(2, V(2, u(sCR))), m_vec(4, m_sym(sCR))); }
VC(com_1) { all(ComplexDofMapC<U, U, U>(u(sND), u(sP2), u(sRT)), m_cat({m_sym(sND), m_sym(sP2), m_sym(sRT)})); }
VC(com_2) { all(ComplexDofMapC<U, U, U>(u(sP1), u(sP0), u(sP1)), m_cat({m_sym(sP1), m_sym(sP0), m_sym(sP1)})); }
VC(com_3) { all(ComplexDofMapC<V, U, ComplexDofMapC<U, V>>(V(2, u(sP2)), u(sRT), ComplexDofMapC<U, V>(u(sCR), V(3, u(sND)))), m_cat({m_vec(2, m_sym(sP2)), m_sym(sRT), m_sym(sCR), m_vec(3, m_sym(sND))})); }
VC(vec_com) { using C = ComplexDofMapC<U, U>; all(VectorDofMapC<C>(3, C(u(sND), u(sP2))), m_vec(3, m_cat({m_sym(sND), m_sym(sP2)}))); }
VC(com_set) { ComplexDofMapC<U, V, U> c; int o = vc_choose("order", 0, 5); static const int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int k = 0; k < 3; ++k) { if (p[o][k] == 0) c.set<0>(u(sMix)); else if (p[o][k] == 1) c.set<1>(V(2, u(sP2))); else c.set<2>(u(sND)); } check_map(c, m_cat({m_sym(sMix), m_vec(2, m_sym(sP2)), m_sym(sND)})); }
// dof maps of the finite elements
template<typename FEM> static void fem() {
    auto m = Dof<FEM>::Map(); constexpr int N = Operator<IDEN, FEM>::Nfa::value; vc_check((int)m.NumDofOnTet() == N, "as many dofs as shape functions");
    int k = vc_choose("what", 0, 1);
    if (k == 0) { for (int i = 0; i < N; ++i) { auto w = Loc<FEM>::at(i); auto lo = m.LocalOrderOnTet(TetOrder(i)); vc_check(lo.etype == (1 << w.type) && lo.nelem == w.elem && lo.gid == (unsigned)i, "location of a dof"); vc_check((int)m.TetDofID(lo.getGeomOrder()) == i, "number of a location"); auto x = m.TetDofIDExt(lo.getGeomOrder()); vc_check((int)x.first == i && x.second == lo.getLocSymOrder(), "number and symmetry position of a location"); }
        vc_check(m == *m.Copy(), "a copy is equal"); return; }
    Sel s; all_selections(s); int i = 0; for (auto it = m.beginBySparsity(s.sp); it != m.endBySparsity(); ++it, ++i) { while (i < N && !s.has(Loc<FEM>::at(i))) ++i; vc_check(i < N && (int)it->gid == i, "selection in increasing order"); if (i >= N) return; } for (; i < N; ++i) vc_check(!s.has(Loc<FEM>::at(i)), "no selected dof is missed");
}
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
#define F(NAME, ...) VC(fem_##NAME) { fem<__VA_ARGS__>(); }
F(P0, P0) F(P1, P1) F(P2, P2) F(P3, P3) F(CR1, CR1) F(B2, B2) F(B4, B4) F(RT0, RT0) F(ND0, ND0) F(V3P2, FemVec<3, FEM_P2>) F(V3P3, FemVec<3, FEM_P3>) F(VT, FemVecT<2, FemCom<P1, P0>>) F(C1, FemCom<FemVec<3, FEM_P2>, P1>) F(C2, FemCom<ND0, P1, RT0>) F(C3, FemCom<P1, P0, P1>) F(C4, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4, P2>) F(UT, FemUnionT<P1, B4>) F(UT2, FemUnionT<P1, B2>)
// views of compile-time maps
VC(view) { using C = ComplexDofMapC<V, U>; C c(V(2, u(sP2)), u(sND)); int p[2] = {0, 1}; auto v = c.GetNestedDofMapView(p, 2); for (unsigned i = 0; i < 10; ++i) vc_check(v.LocalOrderOnTet(TetOrder(i)).gid == 10 + i && c[10 + i] == v.LocalOrderOnTet(TetOrder(i)) && same(c[10 + i], MD{int(i < 4 ? 0 : 1), int(i < 4 ? i : i - 4), 1, 0, 0}, 10 + i), "component of a component"); p[0] = 1; auto w = c.GetNestedDofMap(p, 1); for (unsigned i = 0; i < 6; ++i) vc_check(w.LocalOrderOnTet(TetOrder(i)).gid == 20 + i && w.TetDofID(LocGeomOrder(EDGE_ORIENT, i, 0)) == 20 + i, "component"); auto s = c.GetSubDofMap(p, 1); vc_check(s && *s == u(sND), "stored component"); p[0] = 2; vc_check(!c.GetSubDofMap(p, 1), "no such component"); }
