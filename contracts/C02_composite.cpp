// The identity operator of a vector, composite or nested space is the block-diagonal arrangement of those of its parts, so that
// duality of the parts gives duality of the whole.
// VCFLAGS: timeout=200 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "fem.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
template<int f, int q> struct Whole { double* v; int D, N; Geo<f, q>* g; };
// checks the block of the whole at (row offset, column offset) against part FEM and zero outside; returns the sizes
template<typename FEM, int f, int q> struct Place {
    static void run(Whole<f, q>& w, int& ro, int& co) {
        auto* e = new OpEval<IDEN, FEM, f, q>; e->run(w.g->mem); constexpr int D = Operator<IDEN, FEM>::Dim::value, N = Operator<IDEN, FEM>::Nfa::value;
        for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < w.D; ++k)
            vc_eq(w.v[k + w.D * (n + q * (co + i + w.N * r))], k >= ro && k < ro + D ? (*e)(k - ro, n, i, r) : 0., "block-diagonal arrangement");
        ro += D; co += N; delete e;
    }
};
template<typename FEM> struct Parts { template<int f, int q> static void run(Whole<f, q>& w, int& r, int& c) { Place<FEM, f, q>::run(w, r, c); } };
template<int D, int F> struct Parts<FemVec<D, F>> { template<int f, int q> static void run(Whole<f, q>& w, int& r, int& c) { for (int i = 0; i < D; ++i) Place<FemFix<F>, f, q>::run(w, r, c); } };
template<int D, typename T> struct Parts<FemComDetails::FemVecTImpl<true, D, T>> { template<int f, int q> static void run(Whole<f, q>& w, int& r, int& c) { for (int i = 0; i < D; ++i) Parts<T>::template run<f, q>(w, r, c); } };
template<typename... T> struct Parts<FemComDetails::FemComImpl<true, T...>> { template<int f, int q> static void run(Whole<f, q>& w, int& r, int& c) { int d[] = {(Parts<T>::template run<f, q>(w, r, c), 0)...}; (void)d; } };
template<typename FEM, int f, int q> static void comp() {
    Geo<f, q> g; g.real_geometry(); g.sym_points(); g.bind();
    auto* e = new OpEval<IDEN, FEM, f, q>; e->run(g.mem); Whole<f, q> w{e->v, e->dim, e->nfa, &g}; int r = 0, c = 0;
    Parts<FEM>::template run<f, q>(w, r, c);
    vc_check(r == e->dim && c == e->nfa, "dimensions add up"); delete e;
}
#define COMP(NAME, ...) VC(block_##NAME) { comp<__VA_ARGS__, 1, 1>(); } VC(block_batch_##NAME) { comp<__VA_ARGS__, 2, 2>(); }
COMP(V3P1, FemVec<3, FEM_P1>) COMP(V2P2, FemVec<2, FEM_P2>) COMP(V3P3, FemVec<3, FEM_P3>) COMP(V1P1, FemVec<1, FEM_P1>) COMP(V2RT0, FemVec<2, FEM_RT0>)
COMP(VT2_V2P1, FemVecT<2, FemVec<2, FEM_P1>>) COMP(VT3_P2, FemVecT<3, P2>) COMP(C_P1_P2, FemCom<P1, P2>) COMP(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) COMP(C_RT0_P0, FemCom<RT0, P0>)
COMP(C_ND0_P1_RT0, FemCom<ND0, P1, RT0>) COMP(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) COMP(VT2_C, FemVecT<2, FemCom<RT0, FemVec<2, FEM_P0>>>)
