// Run-time spaces and their compile-time counterparts (C22).
#pragma once
#include "fem.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/operations/operations.h"
namespace vcx {
using namespace Ani;
template<class F> struct RtOf;
template<> struct RtOf<FemFix<FEM_P0>> { static FemSpace make() { return FemSpace(P0Space()); } };
template<> struct RtOf<FemFix<FEM_P1>> { static FemSpace make() { return FemSpace(P1Space()); } };
template<> struct RtOf<FemFix<FEM_P2>> { static FemSpace make() { return FemSpace(P2Space()); } };
template<> struct RtOf<FemFix<FEM_P3>> { static FemSpace make() { return FemSpace(P3Space()); } };
template<> struct RtOf<FemFix<FEM_CR1>> { static FemSpace make() { return FemSpace(CR1Space()); } };
template<> struct RtOf<FemFix<FEM_B2>> { static FemSpace make() { return FemSpace(Bubble2Space()); } };
template<> struct RtOf<FemFix<FEM_B4>> { static FemSpace make() { return FemSpace(Bubble4Space()); } };
template<> struct RtOf<FemFix<FEM_RT0>> { static FemSpace make() { return FemSpace(RT0Space()); } };
template<> struct RtOf<FemFix<FEM_ND0>> { static FemSpace make() { return FemSpace(ND0Space()); } };
template<int N, int K> struct RtOf<FemVec<N, K>> { static FemSpace make() { return pow(RtOf<FemFix<K>>::make(), N); } };
template<int N, class F> struct RtOf<FemVecT<N, F>> { static FemSpace make() { return pow(RtOf<F>::make(), N); } };
template<class... F> struct RtOf<FemCom<F...>> { static FemSpace make() { return make_complex_raw({RtOf<F>::make()...}); } };
template<class... F> struct RtOf<FemUnionT<F...>> { static FemSpace make() { return make_union_raw({RtOf<F>::make()...}); } };
// work memory of exactly the announced size for one or two run-time operators
struct RtMem {
    OpMemoryRequirements a, b; Buf<double> U, V, R; Buf<int> I, MR, MC; Buf<DenseMatrix<>> M; AniMemoryX<> m;
    static OpMemoryRequirements none() { OpMemoryRequirements r; r.mtx_parts = 0; return r; }
    RtMem(AniMemory<double, int>& g, OpMemoryRequirements a_, OpMemoryRequirements b_ = none()) : a(a_), b(b_), U(a.Usz), V(b.Usz), R(std::max(a.extraRsz, b.extraRsz)), I(std::max(a.extraIsz, b.extraIsz)), MR(2 + a.mtx_parts + b.mtx_parts), MC(2 + a.mtx_parts + b.mtx_parts), M(a.mtx_parts + b.mtx_parts) {
        static_cast<AniMemory<double, int>&>(m) = g; m.U.Init(U.p, a.Usz); m.V.Init(V.p, b.Usz); m.extraR.Init(R.p, R.n); m.extraI.Init(I.p, I.n); m.MTX.Init(M.p, M.n); m.MTXI_ROW.Init(MR.p, MR.n); m.MTXI_COL.Init(MC.p, MC.n);
    }
};
// values of a band result as a dense array v(component, point, function, tetra)
struct RtVal { int dim, q, nfa, f; std::vector<double> v; double& operator()(int k, int n, int i, int r) { return v[k + dim * (n + q * (i + nfa * r))]; } };
inline RtVal rt_dense(const BandDenseMatrixX<>& b, int dim, int nfa, int q, int f, const double* lo, size_t len) {
    RtVal w{dim, q, nfa, f, std::vector<double>((size_t)dim * q * nfa * f, 0.0)}; int np = (int)b.nparts; int in = 1, shape = 1, ord = b.stRow[0] == 0 && b.stCol[0] == 0 && b.stRow[np] == dim && b.stCol[np] == nfa;
    for (int p = 0; p < np; ++p) ord &= b.stRow[p] <= b.stRow[p + 1] && b.stCol[p] <= b.stCol[p + 1];
    vc_check(ord, "the parts cover all components and functions"); if (!ord) return w;
    for (int p = 0; p < np; ++p) { int ld = b.stRow[p + 1] - b.stRow[p], ln = b.stCol[p + 1] - b.stCol[p]; shape &= (int)b.data[p].nRow == ld * q && (int)b.data[p].nCol == ln * f; in &= b.data[p].data >= lo && b.data[p].data + (size_t)ld * q * ln * f <= lo + len;
        for (int r = 0; r < f; ++r) for (int i = 0; i < ln; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < ld; ++k) w(k + b.stRow[p], n, i + b.stCol[p], r) = b.data[p].data[k + ld * n + ld * q * (i + ln * r)]; }
    vc_check(shape, "size of a part"); vc_check(in, "the parts lie in the memory given for the result"); return w;
}
inline RtVal rt_apply(const FemSpace& s, int op, AniMemory<double, int>& g, int q, int f) {
    auto o = s.getOP((OperatorType)op); RtMem w(g, o.getMemoryRequirements(q, f)); auto b = o(w.m, w.m.U); vc_check(b.nparts <= w.a.mtx_parts, "no more parts than announced"); vc_check(w.m.busy_mtx_parts <= w.a.mtx_parts && w.m.busy_mtx_parts >= b.nparts, "parts in use are counted"); vc_check(w.m.extraR.size == w.R.n && w.m.extraR.data == w.R.p, "the extra memory is given back"); return rt_dense(b, (int)o.Dim(), (int)o.Nfa(), q, f, w.U.p, w.U.n);
}
}
