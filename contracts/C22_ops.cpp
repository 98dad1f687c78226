// VCFLAGS: timeout=200 eigen=0 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
// C22: every operator of a space composed at run time delivers what the operator of the compile-time space delivers, for every
// geometry matrix and every point, in memory of exactly the announced size; a second operator leaves the first result alone.
#include "rtspace.h"
using namespace vcx; using namespace Ani;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
template<int OP, class F, int f, int q> static void ct(int) {
    Geo<f, q> g; g.free_geometry(); g.sym_points(); g.bind(); FemSpace s = RtOf<F>::make(); std::unique_ptr<OpEval<OP, F, f, q>> e(new OpEval<OP, F, f, q>); e->run(g.mem);
    vc_check((int)s.dimOP((OperatorType)OP) == e->dim && (int)s.dofMap().NumDofOnTet() == e->nfa, "sizes"); vc_check((int)s.orderOP((OperatorType)OP) == Operator<OP, F>::Order::value, "polynomial order");
    RtVal w = rt_apply(s, OP, g.mem, q, f); if (w.dim != e->dim || w.nfa != e->nfa) return;
    for (int r = 0; r < f; ++r) for (int i = 0; i < w.nfa; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < w.dim; ++k) vc_eq(w(k, n, i, r), (*e)(k, n, i, r), "the run-time operator delivers the same values"); vc_cover("same");
}
template<int OP, class F> static void op() { int c = (int)vc_choose("batch", 0, 3); if (c == 0) ct<OP, F, 1, 1>(0); if (c == 3) ct<OP, F, 3, 1>(0); if (c == 1) ct<OP, F, 1, 2>(0); if (c == 2) ct<OP, F, 2, 2>(0); }
#define GR(NAME, ...) using T_##NAME = __VA_ARGS__; VC(iden_##NAME) { op<IDEN, T_##NAME>(); } VC(grad_##NAME) { op<GRAD, T_##NAME>(); } VC(dudx_##NAME) { op<DUDX, T_##NAME>(); } VC(dudy_##NAME) { op<DUDY, T_##NAME>(); } VC(dudz_##NAME) { op<DUDZ, T_##NAME>(); }
#define DC(NAME, ...) VC(div_##NAME) { op<DIV, __VA_ARGS__>(); } VC(curl_##NAME) { op<CURL, __VA_ARGS__>(); }
GR(P0, P0) GR(P1, P1) GR(P2, P2) GR(P3, P3) GR(CR1, CR1) GR(B2, B2) GR(B4, B4) GR(RT0, RT0) GR(ND0, ND0) DC(RT0, RT0) DC(ND0, ND0)
GR(V3P2, FemVec<3, FEM_P2>) GR(V2ND0, FemVec<2, FEM_ND0>) GR(V1P1, FemVec<1, FEM_P1>) GR(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) GR(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) GR(C_C, FemCom<FemCom<RT0, P0>, FemCom<P1>>) GR(V_V, FemVecT<2, FemVec<2, FEM_P1>>)
GR(U_P1_B4, FemUnionT<P1, B4>) GR(U_P2_B4, FemUnionT<P2, B4>) GR(V_U, FemVecT<3, FemUnionT<P1, B4>>) GR(C_V_U, FemCom<FemVecT<3, FemUnionT<P1, B4>>, P1>) GR(U_V, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>)
DC(V3P1, FemVec<3, FEM_P1>) DC(V3P3, FemVec<3, FEM_P3>) DC(V3B4, FemVec<3, FEM_B4>) DC(V3B2, FemVec<3, FEM_B2>) DC(V3CR1, FemVec<3, FEM_CR1>) DC(U_V, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>)
// Divergence and curl of every composed three-dimensional space are the combinations of the gradient components.
template<int f, int q> static void dc(const FemSpace& s) {
    Geo<f, q> g; g.free_geometry(); g.sym_points(); g.bind(); RtVal G = rt_apply(s, GRAD, g.mem, q, f), D = rt_apply(s, DIV, g.mem, q, f), C = rt_apply(s, CURL, g.mem, q, f), I[3] = {rt_apply(s, DUDX, g.mem, q, f), rt_apply(s, DUDY, g.mem, q, f), rt_apply(s, DUDZ, g.mem, q, f)};
    if (D.dim != 1 || C.dim != 3 || G.dim != 9) { vc_check(0, "dimensions of DIV, CURL, GRAD"); return; }
    for (int r = 0; r < f; ++r) for (int i = 0; i < G.nfa; ++i) for (int n = 0; n < q; ++n) {
        vc_eq(D(0, n, i, r), G(0, n, i, r) + G(4, n, i, r) + G(8, n, i, r), "divergence"); vc_eq(C(0, n, i, r), G(7, n, i, r) - G(5, n, i, r), "curl x"); vc_eq(C(1, n, i, r), G(2, n, i, r) - G(6, n, i, r), "curl y"); vc_eq(C(2, n, i, r), G(3, n, i, r) - G(1, n, i, r), "curl z");
        for (int k = 0; k < 3; ++k) for (int c = 0; c < 3; ++c) vc_eq(I[k](c, n, i, r), G(k + 3 * c, n, i, r), "partial derivatives"); }
    int o = (int)s.orderOP(GRAD); vc_check((int)s.orderOP(DIV) == o && (int)s.orderOP(CURL) == o && (int)s.orderOP(DUDX) == o, "orders of derivatives"); vc_cover("combined");
}
static void dcb(const FemSpace& s) { int c = (int)vc_choose("batch", 0, 3); if (c == 0) dc<1, 1>(s); if (c == 1) dc<2, 2>(s); if (c == 2) dc<3, 1>(s); if (c == 3) dc<1, 3>(s); }
template<class F> static FemSpace R() { return RtOf<F>::make(); }
VC(divcurl_3scalars) { dcb(R<P1>() * R<P2>() * R<B4>()); }
VC(divcurl_1_2) { dcb(R<CR1>() * pow(R<P1>(), 2)); }
VC(divcurl_2_1) { dcb(make_complex_raw({make_complex_raw({R<P1>(), R<P2>()}), R<B4>()})); }
VC(divcurl_single) { dcb(make_complex_raw({R<RT0>()})); }
VC(divcurl_vec1) { dcb(pow(R<ND0>(), 1)); }
VC(divcurl_vec1_complex) { dcb(pow(R<P1>() * R<P2>() * R<B4>(), 1)); }
VC(divcurl_vec3_union) { dcb(pow(R<P1>() + R<B4>(), 3)); }
VC(divcurl_vec3_vec1) { dcb(pow(pow(R<P1>(), 1), 3)); }
VC(divcurl_vec3_complex1) { dcb(pow(make_complex_raw({R<P2>()}), 3)); }
VC(divcurl_union_vec) { dcb(pow(R<P1>(), 3) + pow(R<B4>(), 3)); }
VC(divcurl_union_complex) { dcb(R<P1>() * R<P1>() * R<P1>() + R<B4>() * pow(R<B2>(), 2)); }
VC(divcurl_nested_union) { dcb(make_complex_raw({R<P1>() + R<B4>(), pow(R<CR1>(), 1), R<P2>()})); }
// the default operators every space of a user gets
template<int f, int q> static void dflt(const FemSpace& s, int op, bool real) {
    Geo<f, q> g; if (real) g.real_geometry(); else g.free_geometry(); g.sym_points(); g.bind(); const BaseFemSpace& b = *s.base(); int nfa = (int)s.dofMap().NumDofOnTet(), d = op == DIV ? 1 : 3;
    OpMemoryRequirements q1 = op == DIV ? b.BaseFemSpace::memDIV(q, f) : op == CURL ? b.BaseFemSpace::memCURL(q, f) : b.BaseFemSpace::memDUDX(q, f, (unsigned char)(op - DUDX)); RtMem w(g.mem, q1);
    auto res = op == DIV ? b.BaseFemSpace::applyDIV(w.m, w.m.U) : op == CURL ? b.BaseFemSpace::applyCURL(w.m, w.m.U) : b.BaseFemSpace::applyDUDX(w.m, w.m.U, (unsigned char)(op - DUDX));
    RtVal x = rt_dense(res, d, nfa, q, f, w.U.p, w.U.n), y = rt_apply(s, op, g.mem, q, f); if (x.v.size() != y.v.size()) { vc_check(0, "size"); return; }
    for (size_t i = 0; i < x.v.size(); ++i) vc_eq(x.v[i], y.v[i], "default operator"); vc_cover("compared");
}
static void dfl(const FemSpace& s, bool real = false) { int o = (int)vc_choose("op", 0, 4); int ops[5] = {DIV, CURL, DUDX, DUDY, DUDZ}; if (!real && vc_choose("batch", 0, 1)) dflt<2, 2>(s, ops[o], false); else dflt<1, 1>(s, ops[o], real); }
VC(default_rt0) { dfl(R<RT0>(), true); } VC(default_nd0) { dfl(R<ND0>(), true); } VC(default_vec) { dfl(pow(R<P2>(), 3)); } VC(default_mix) { dfl(R<P1>() * pow(R<CR1>(), 2)); } VC(default_union) { dfl(pow(R<P1>(), 3) + pow(R<B4>(), 3)); }
// Two operators one after the other in the same memory.
static void two(const FemSpace& s, int oa, const FemSpace& t, int ob) {
    constexpr int f = 2, q = 1; Geo<f, q> g; g.free_geometry(); g.sym_points(); g.bind(); auto A = s.getOP((OperatorType)oa), B = t.getOP((OperatorType)ob); RtVal x = rt_apply(s, oa, g.mem, q, f), y = rt_apply(t, ob, g.mem, q, f);
    RtMem w(g.mem, A.getMemoryRequirements(q, f), B.getMemoryRequirements(q, f)); auto a = A(w.m, w.m.U); auto b = B(w.m, w.m.V); RtVal x2 = rt_dense(a, (int)A.Dim(), (int)A.Nfa(), q, f, w.U.p, w.U.n), y2 = rt_dense(b, (int)B.Dim(), (int)B.Nfa(), q, f, w.V.p, w.V.n);
    if (x.v.size() != x2.v.size() || y.v.size() != y2.v.size()) { vc_check(0, "size"); return; } for (size_t i = 0; i < x.v.size(); ++i) vc_eq(x.v[i], x2.v[i], "the first operator's result survives the second operator"); for (size_t i = 0; i < y.v.size(); ++i) vc_eq(y.v[i], y2.v[i], "the second operator is not disturbed by the first"); vc_cover("both");
}
static FemSpace sp(int i) {
    switch (i) { case 0: return R<P1>() * R<P2>() * R<B4>(); case 1: return R<P1>() * pow(R<CR1>(), 2); case 2: return pow(R<P1>() + R<B4>(), 3); case 3: return R<RT0>(); case 4: return pow(pow(R<P1>(), 1), 3); case 5: return pow(R<P1>(), 3) + pow(R<B4>(), 3); case 6: return make_complex_raw({make_complex_raw({R<P1>(), R<P1>()}), R<P1>() + R<B4>()}); default: return pow(R<P1>() * R<P1>() * R<P1>(), 1); } }
VC(two_div_iden) { int i = (int)vc_choose("space", 0, 7), j = (int)vc_choose("second", 0, 7); two(sp(i), DIV, sp(j), IDEN); }
VC(two_curl_grad) { int i = (int)vc_choose("space", 0, 7), j = (int)vc_choose("second", 0, 7); two(sp(i), CURL, sp(j), GRAD); }
VC(two_iden_div) { int i = (int)vc_choose("space", 0, 7), j = (int)vc_choose("second", 0, 7); two(sp(i), IDEN, sp(j), DIV); }
VC(two_dudx_curl) { int i = (int)vc_choose("space", 0, 7), j = (int)vc_choose("second", 0, 7); two(sp(i), DUDX, sp(j), CURL); }
VC(refused) { int i = (int)vc_choose("space", 0, 2), o = vc_choose("op", 0, 1) ? DIV : CURL; FemSpace s = i == 0 ? R<P1>() : i == 1 ? pow(R<P2>(), 2) : R<P1>() * R<P2>(); int t = 0; try { s.memOP((OperatorType)o, 1, 1); } catch (std::runtime_error&) { t = 1; } vc_check(t, "refused for spaces that are not three-dimensional"); vc_cover("r"); }
