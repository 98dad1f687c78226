// Independent description of where the degrees of freedom of a space live on the tetrahedron.
#pragma once
#include "fem.h"
namespace vcx {
struct Where { int dim, elem, type; };   // type: number of the geometric type (0 node, 1/2 edge unoriented/oriented, 3/4 face, 5 cell)
inline Where leaf_where(int FEM, int i) {
    switch (FEM) {
        case FEM_P0: case FEM_B4: return {3, 0, 5};
        case FEM_P1: return {0, i, 0};
        case FEM_P2: return i < 4 ? Where{0, i, 0} : Where{1, i - 4, 1};
        case FEM_P3: return i < 4 ? Where{0, i, 0} : i < 16 ? Where{1, (i - 4) / 2, 1} : Where{2, i - 16, 3};
        case FEM_B2: return {1, i, 1};
        case FEM_CR1: return {2, i, 3};
        case FEM_RT0: return {2, i, 4};
        case FEM_ND0: return {1, i, 2};
    }
    return {-1, -1, -1};
}
template<typename FEM> struct Loc;
template<int F> struct Loc<FemFix<F>> { static Where at(int i) { return leaf_where(F, i); } };
template<int D, int F> struct Loc<FemVec<D, F>> { static Where at(int i) { return leaf_where(F, i % Operator<IDEN, FemFix<F>>::Nfa::value); } };
template<int D, typename T> struct Loc<FemComDetails::FemVecTImpl<true, D, T>> { static Where at(int i) { return Loc<T>::at(i % Operator<IDEN, T>::Nfa::value); } };
template<typename... T> struct Loc<FemComDetails::FemComImpl<true, T...>> { static Where at(int i) { Where r{-1, -1, -1}; int n[] = {Operator<IDEN, T>::Nfa::value...}; Where (*fs[])(int) = {&Loc<T>::at...}; for (int p = 0; p < (int)sizeof...(T); ++p) { if (i < n[p]) { r = fs[p](i); break; } i -= n[p]; } return r; } };
template<typename... T> struct Loc<FemComDetails::FemUnionTImpl<true, T...>> { static Where at(int i) { return Loc<FemCom<T...>>::at(i); } };
// a selection of parts: bit masks of nodes, edges, faces, cell
struct Sel {
    unsigned m[4]; DofT::TetGeomSparsity sp;
    void build(unsigned n, unsigned e, unsigned f, unsigned c) { m[0] = n; m[1] = e; m[2] = f; m[3] = c; static const int sz[4] = {4, 6, 4, 1}; for (int d = 0; d < 4; ++d) for (int i = 0; i < sz[d]; ++i) if (m[d] >> i & 1) sp.set(d, i); }
    bool has(Where w) const { return m[w.dim] >> w.elem & 1; }
};
#ifdef VC_THOROUGH
inline void all_selections(Sel& s) { unsigned e = vc_choose("edges", 0, 63), f = vc_choose("faces", 0, 15), n = vc_choose("nodes", 0, 15), c = vc_choose("cell", 0, 1); s.build(n, e, f, c); }
#else
// every word of every dimension, combined with representative words (none / some / all) of the other dimensions
inline void all_selections(Sel& s) {
    static const unsigned W[3] = {0, 6, 15}; unsigned r;
    switch (vc_choose("group", 0, 2)) {
        case 0: { unsigned e = vc_choose("edges", 0, 63), n = W[vc_choose("nodes", 0, 2)]; r = vc_choose("rest", 0, 1); s.build(n, e, r ? 9 : 0, r); break; }
        case 1: { unsigned n = vc_choose("nodes", 0, 15), e = vc_choose("edges", 0, 1) ? 20 : 0; r = vc_choose("rest", 0, 1); s.build(n, e, r ? 15 : 0, r); break; }
        default: { unsigned f = vc_choose("faces", 0, 15), cell = vc_choose("cell", 0, 1); r = vc_choose("rest", 0, 2); s.build(r == 0 ? 0 : r == 1 ? 9 : 15, r == 0 ? 0 : r == 1 ? 20 : 63, f, cell); }
    }
}
#endif
}
