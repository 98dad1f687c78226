// VCFLAGS: timeout=250 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C19: shape functions of a union are the shape functions of its parts, one part after another, for every operator; the degrees of
// freedom are dual to them on every tetrahedron; each is the combination of the degrees of freedom of the parts given by the mixing
// matrix; dependent parts are refused.
#include "rtspace.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
using V3P1 = FemVec<3, FEM_P1>; using V3B4 = FemVec<3, FEM_B4>; using V3P2 = FemVec<3, FEM_P2>; using V3B2 = FemVec<3, FEM_B2>;
template<class U> struct PartsOf; template<class... T> struct PartsOf<FemComDetails::FemUnionTImpl<true, T...>> { using type = std::tuple<T...>; static constexpr int n = sizeof...(T); };
template<class U> constexpr int NN() { return Operator<IDEN, U>::Nfa::value; } template<class U> constexpr int DD() { return Operator<IDEN, U>::Dim::value; }
// ---- operators
template<int OP, class T, int f, int q> static void part(Geo<f, q>& g, OpEval<OP, T, f, q>*, std::vector<double>& v, int dim) { std::unique_ptr<OpEval<OP, T, f, q>> e(new OpEval<OP, T, f, q>); e->run(g.mem); vc_check(e->dim == dim, "dimension"); for (int i = 0; i < e->nfa; ++i) for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < dim; ++k) v.push_back((*e)(k, n, i, r)); }
template<int OP, class U, int f, int q, class... T> static void ops(std::tuple<T...>*) {
    Geo<f, q> g; g.free_geometry(); g.sym_points(); g.bind(); std::unique_ptr<OpEval<OP, U, f, q>> e(new OpEval<OP, U, f, q>); e->run(g.mem); std::vector<double> v; int dim = e->dim, z[] = {(part<OP, T, f, q>(g, nullptr, v, dim), 0)...}; (void)z; vc_check((int)v.size() == e->nfa * f * q * dim, "as many functions as the parts have together"); RtVal w = rt_apply(RtOf<U>::make(), OP, g.mem, q, f); vc_check(w.dim == dim && w.nfa == e->nfa, "sizes of the run-time space"); size_t c = 0;
    for (int i = 0; i < e->nfa; ++i) for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < dim; ++k, ++c) { vc_eq((*e)(k, n, i, r), v[c], "function of a part"); vc_eq(w(k, n, i, r), v[c], "run-time space: function of a part"); } vc_cover("ops");
}
template<int OP, class U> static void op() { using P = typename PartsOf<U>::type; int c = (int)vc_choose("batch", 0, 3); if (c == 0) ops<OP, U, 1, 1>((P*)nullptr); if (c == 1) ops<OP, U, 2, 2>((P*)nullptr); if (c == 2) ops<OP, U, 2, 1>((P*)nullptr); if (c == 3) ops<OP, U, 1, 3>((P*)nullptr); }
// ---- functionals
struct RTet { double X[4][3]; void sym() { for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][k] = vc_real("x", (i == k + 1) * 2. - 0.6, (i == k + 1) * 2. + 0.6); vc_nonzero(tet_det(X)); } Tetra<const double> t() const { return Tetra<const double>(X[0], X[1], X[2], X[3]); }
    void lambda(const double* p, double* l) const { double e[3][3], b[3]; for (int k = 0; k < 3; ++k) { b[k] = p[k] - X[0][k]; for (int i = 0; i < 3; ++i) e[i][k] = X[i + 1][k] - X[0][k]; } double d = det3(e[0], e[1], e[2]); l[1] = det3(b, e[1], e[2]) / d; l[2] = det3(e[0], b, e[2]) / d; l[3] = det3(e[0], e[1], b) / d; l[0] = 1 - l[1] - l[2] - l[3]; } };
static RTet* g_t; static int g_bad;
// a combination of the shape functions of the space
template<class U, int FU> struct Fld { double c[FU][NN<U>()]; void init() { for (auto& r : c) for (double& x : r) x = vc_real("c", -2, 2); }
    static int ev(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { Fld& s = *(Fld*)ud; constexpr int D = DD<U>(), N = NN<U>(); if ((int)dim != D * FU) { g_bad = 1; return 0; } Geo<1, 1> g; for (double& x : g.XYP) x = 0; for (double& x : g.PSI) x = 0; g.DET[0] = g.MES[0] = 1; for (double& x : g.X0) x = 0; g_t->lambda(X.data(), g.XYL); g.bind(); std::unique_ptr<OpEval<IDEN, U, 1, 1>> e(new OpEval<IDEN, U, 1, 1>); e->run(g.mem);
        for (int r = 0; r < FU; ++r) for (int k = 0; k < D; ++k) { double v = 0; for (int i = 0; i < N; ++i) v += s.c[r][i] * (*e)(k, 0, i, 0); res[k + D * r] = v; } return 0; } };
template<class U, int FU> static void dual(bool rt) {
    constexpr int N = NN<U>(); RTet t; t.sym(); g_t = &t; g_bad = 0; static Fld<U, FU> fl; fl.init(); Buf<double> u(N * FU); for (int i = 0; i < N * FU; ++i) u.p[i] = vc_real("old", -2, 2); std::array<ArrayView<>, FU> v; for (int r = 0; r < FU; ++r) v[r] = ArrayView<>(u.p + N * r, N);
    if (!rt) { for (int i = 0; i < N; ++i) Dof<U>::template interpolate<FU>(t.t(), Fld<U, FU>::ev, v, i, (void*)&fl); } else { FemSpace s = RtOf<U>::make(); BaseFemSpace::EvalFunc fn = Fld<U, FU>::ev; for (int i = 0; i < N; ++i) { auto rq = s.interpolateOnDOF_mem_req(i, FU, 5); Buf<double> d(rq.dSize); Buf<int> ii(rq.iSize); Buf<DenseMatrix<>> m(rq.mSize); rq.ddata = d.p; rq.idata = ii.p; rq.mdata = m.p; s.interpolateOnDOF(t.t(), fn, v.data(), i, FU, rq, (void*)&fl, 5); } }
    vc_check(!g_bad, "arguments"); for (int r = 0; r < FU; ++r) for (int i = 0; i < N; ++i) vc_eq(u.p[i + N * r], fl.c[r][i], "degrees of freedom are dual to the shape functions"); vc_cover("dual");
}
#define UN(NAME, ...) using T_##NAME = __VA_ARGS__; VC(iden_##NAME) { op<IDEN, T_##NAME>(); } VC(grad_##NAME) { op<GRAD, T_##NAME>(); } VC(dudx_##NAME) { op<DUDX, T_##NAME>(); } VC(dudy_##NAME) { op<DUDY, T_##NAME>(); } VC(dudz_##NAME) { op<DUDZ, T_##NAME>(); } VC(dual_##NAME) { dual<T_##NAME, 1>(false); } VC(dualrt_##NAME) { dual<T_##NAME, 1>(true); } VC(fused_##NAME) { dual<T_##NAME, 2>(vc_choose("form", 0, 1)); }
UN(P1_B4, FemUnionT<P1, B4>) UN(B4_P1, FemUnionT<B4, P1>) UN(P2_B4, FemUnionT<P2, B4>) UN(P3_B4, FemUnionT<P3, B4>) UN(P1_B2, FemUnionT<P1, B2>) UN(P1_B2_B4, FemUnionT<P1, B2, B4>) UN(P0_B4, FemUnionT<P0, B4>) UN(CR1_B4, FemUnionT<CR1, B4>) UN(nested, FemUnionT<FemUnionT<P1, B2>, B4>) UN(V_V, FemUnionT<V3P1, V3B4>) UN(C_V, FemUnionT<FemCom<P1, P2, P1>, V3B4>)
VC(div_V_V) { op<DIV, T_V_V>(); } VC(curl_V_V) { op<CURL, T_V_V>(); }
// ---- each degree of freedom is the combination of the parts' degrees of freedom given by the published mixing matrix, for an arbitrary function
static double g_c[16][2]; static int g_D;
static int anyf(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if ((int)dim != g_D || ud != (void*)g_c) { g_bad = 1; return 0; } double F = vc_uf2("F", vc_uf2("G", X[0], X[1]), X[2]); for (int i = 0; i < g_D; ++i) res[i] = g_c[i][0] + g_c[i][1] * F; return 0; }
template<class T> static void raw(const Tetra<const double>& t, std::vector<double>& v) { constexpr int N = NN<T>(); double u[N]; for (int i = 0; i < N; ++i) { Dof<T>::interpolate(t, anyf, ArrayView<>(u, N), i, (void*)g_c); v.push_back(u[i]); } }
template<class U, class... T> static void mixing(std::tuple<T...>*) {
    constexpr int N = NN<U>(); RTet t; t.sym(); g_t = &t; g_bad = 0; g_D = DD<U>(); for (int i = 0; i < g_D; ++i) for (double& x : g_c[i]) x = vc_real("c", -2, 2); std::vector<double> v; int z[] = {(raw<T>(t.t(), v), 0)...}; (void)z; vc_check((int)v.size() == N, "number of degrees of freedom");
    auto W = U::GetOrthBasisShiftMatrix(); FemSpace s = RtOf<U>::make(); auto R = s.target<UnionFemSpace>()->GetOrthBasisShiftMatrix(); vc_check((int)W.nRow == N && (int)W.nCol == N && (int)R.nRow == N && (int)R.nCol == N, "shape of the matrix"); for (int i = 0; i < N * N; ++i) vc_near(W.data[i], R.data[i], 1e-9, "same matrix at run time");
    Buf<double> u(N); for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) u.p[j] = 7; Dof<U>::interpolate(t.t(), anyf, ArrayView<>(u.p, N), i, (void*)g_c); double x = 0; for (int j = 0; j < N; ++j) x += W(i, j) * v[j]; vc_eq(u.p[i], x, "combination of the degrees of freedom of the parts"); for (int j = 0; j < N; ++j) if (j != i) vc_check(u.p[j] == 7, "other coefficients are left alone"); } vc_check(!g_bad, "arguments"); vc_cover("mixing");
}
#define MX(NAME) VC(mixing_##NAME) { mixing<T_##NAME>((typename PartsOf<T_##NAME>::type*)nullptr); }
MX(P1_B4) MX(B4_P1) MX(P2_B4) MX(P3_B4) MX(P1_B2) MX(P1_B2_B4) MX(P0_B4) MX(CR1_B4) MX(nested) MX(V_V) MX(C_V)
// ---- a single part stays as it is
template<class T> static void single() { using U = FemUnionT<T>; constexpr int N = NN<U>(); auto W = U::GetOrthBasisShiftMatrix(); FemSpace s = make_union_raw({RtOf<T>::make()}); auto R = s.target<UnionFemSpace>()->GetOrthBasisShiftMatrix(); vc_check((int)W.nRow == N && (int)R.nRow == N && NN<T>() == N, "shape"); for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) vc_check(W(i, j) == (i == j) && R(i, j) == (i == j), "identity"); vc_cover("single"); }
VC(single_P2) { single<P2>(); op<IDEN, FemUnionT<P2>>(); op<GRAD, FemUnionT<P2>>(); dual<FemUnionT<P2>, 1>(vc_choose("form", 0, 1)); } VC(single_P0) { single<P0>(); op<IDEN, FemUnionT<P0>>(); } VC(single_CR1) { single<CR1>(); op<IDEN, FemUnionT<CR1>>(); }
// ---- dependent parts are refused
template<class U> static void refused() { int t = 0, r = 0; try { U::GetOrthBasisShiftMatrix(); } catch (const std::runtime_error&) { t = 1; } try { RtOf<U>::make(); } catch (const std::runtime_error&) { r = 1; } vc_check(t, "dependent parts are refused at compile-time composition"); vc_check(r, "dependent parts are refused at run time"); vc_cover("refused"); }
VC(refused_P1_P1) { refused<FemUnionT<P1, P1>>(); } VC(refused_P2_P1) { refused<FemUnionT<P2, P1>>(); } VC(refused_P1_CR1) { refused<FemUnionT<P1, CR1>>(); } VC(refused_P0_P1) { refused<FemUnionT<P0, P1>>(); } VC(refused_P2_B2) { refused<FemUnionT<P2, B2>>(); } VC(refused_CR1_B2) { refused<FemUnionT<CR1, B2>>(); } VC(refused_B4_P2_B4) { refused<FemUnionT<B4, P2, B4>>(); } VC(refused_V) { refused<FemUnionT<V3P1, FemVec<3, FEM_CR1>>>(); }
VC(refused_dim) { int r = 0; try { make_union_raw({RtOf<P1>::make(), RtOf<V3B4>::make()}); } catch (const std::runtime_error&) { r = 1; } vc_check(r, "parts of different dimension are refused"); vc_cover("refused"); }
// ---- layout: the degrees of freedom of the parts, one part after another
template<class T> static void lay(const DofT::DofMap& m, unsigned& at) { auto p = Dof<T>::Map(); for (unsigned i = 0; i < p.NumDofOnTet(); ++i, ++at) { auto a = m.LocalOrderOnTet(DofT::TetOrder(at)); auto b = p.LocalOrderOnTet(DofT::TetOrder(i)); vc_check(a.gid == at && a.etype == b.etype && a.nelem == b.nelem, "place of a degree of freedom"); } }
template<class U, class... T> static void layout(std::tuple<T...>*) { FemSpace s = RtOf<U>::make(); unsigned at = 0; int z[] = {(lay<T>(s.dofMap(), at), 0)...}; (void)z; vc_check(at == s.dofMap().NumDofOnTet() && (int)at == NN<U>() && Dof<U>::Map().NumDofOnTet() == at, "number of degrees of freedom"); vc_cover("layout"); }
#define LA(NAME) VC(layout_##NAME) { layout<T_##NAME>((typename PartsOf<T_##NAME>::type*)nullptr); }
LA(P1_B4) LA(B4_P1) LA(P3_B4) LA(P1_B2_B4) LA(nested) LA(V_V) LA(C_V)
// ---- composition with + joins the parts of both sides
VC(plus) { FemSpace a = RtOf<P1>::make() + RtOf<B2>::make(), b = a + RtOf<B4>::make(), c = RtOf<B4>::make() + a; auto sz = [](const FemSpace& s) { return (int)s.target<UnionFemSpace>()->m_subsets.size(); }; vc_check(sz(a) == 2 && sz(b) == 3 && sz(c) == 3 && sz(make_union_with_simplification({a, RtOf<B4>::make()})) == 3, "number of parts"); vc_check(b == RtOf<T_P1_B2_B4>::make(), "order of the parts"); vc_check(!(c == b), "order matters"); vc_check(make_union_with_simplification({a, RtOf<B4>::make()}) == b, "simplification"); vc_cover("plus"); }
