// Specification of differential operators from the values of the identity operator (see C03_operators.cpp).
#pragma once
#include "fem.h"
namespace vcx {
// jac(c, d, n, i, r) = d/dx_d of component c of shape function i at point n of tetrahedron r
template<typename FEM, int f, int q, bool TIED> struct Spec {
    using O = Operator<IDEN, FEM>; static constexpr int D = O::Dim::value, N = O::Nfa::value;
    Geo<f, q> g; double J[D * 3 * q * N * f];
    double& jac(int c, int d, int n, int i, int r) { return J[c + D * (d + 3 * (n + q * (i + N * r)))]; }
    Spec() {
        if (TIED) g.real_geometry(); else g.free_geometry();
        g.sym_points(); g.bind();
        static const double h[4] = {-2, -1, 1, 2}, w[4] = {1, -8, 8, -1};
        Geo<f, 12 * q> s; for (int k = 0; k < 12 * f; ++k) s.XYP[k] = g.XYP[k]; for (int k = 0; k < 9 * f; ++k) s.PSI[k] = g.PSI[k]; for (int k = 0; k < f; ++k) { s.DET[k] = g.DET[k]; s.MES[k] = g.MES[k]; } for (int k = 0; k < 3 * f; ++k) s.X0[k] = g.X0[k];
        for (int n = 0; n < q; ++n) for (int e = 0; e < 3; ++e) for (int t = 0; t < 4; ++t) { double a[3]; for (int k = 0; k < 3; ++k) a[k] = g.XYL[4 * n + k + 1] + (k == e ? h[t] : 0); s.point(t + 4 * (e + 3 * n), a[0], a[1], a[2]); }
        s.bind();
        auto* ev = new OpEval<IDEN, FEM, f, 12 * q>; ev->run(s.mem);
        for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) for (int c = 0; c < D; ++c) {
            double dl[3]; for (int e = 0; e < 3; ++e) { dl[e] = 0; for (int t = 0; t < 4; ++t) dl[e] += w[t] * (*ev)(c, t + 4 * (e + 3 * n), i, r); dl[e] /= 12; }
            for (int d = 0; d < 3; ++d) { double s1 = 0; for (int e = 0; e < 3; ++e) s1 += dl[e] * g.PSI[e + 3 * d + 9 * r]; jac(c, d, n, i, r) = s1; }
        }
        delete ev;
    }
};
template<typename FEM, int f, int q, bool TIED> static void grad() {
    auto* s = new Spec<FEM, f, q, TIED>; constexpr int D = Spec<FEM, f, q, TIED>::D, N = Spec<FEM, f, q, TIED>::N;
    auto* G = new OpEval<GRAD, FEM, f, q>; vc_check(G->dim == 3 * D && G->nfa == N, "dimensions of the gradient"); G->run(s->g.mem);
    for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) for (int c = 0; c < D; ++c) for (int d = 0; d < 3; ++d) vc_eq((*G)(d + 3 * c, n, i, r), s->jac(c, d, n, i, r), "gradient");
    delete G; delete s;
}
template<int OP, int d, typename FEM, int f, int q, bool TIED> static void dud(Spec<FEM, f, q, TIED>& s) {
    constexpr int D = Spec<FEM, f, q, TIED>::D, N = Spec<FEM, f, q, TIED>::N;
    auto* G = new OpEval<OP, FEM, f, q>; vc_check(G->dim == D && G->nfa == N, "dimensions of the partial derivative"); G->run(s.g.mem);
    for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) for (int c = 0; c < D; ++c) vc_eq((*G)(c, n, i, r), s.jac(c, d, n, i, r), "partial derivative");
    delete G;
}
template<typename FEM, int f, int q, bool TIED> static void duds() { auto* s = new Spec<FEM, f, q, TIED>; dud<DUDX, 0>(*s); dud<DUDY, 1>(*s); dud<DUDZ, 2>(*s); delete s; }
template<typename FEM, int f, int q, bool TIED> static void div() {
    auto* s = new Spec<FEM, f, q, TIED>; constexpr int N = Spec<FEM, f, q, TIED>::N;
    auto* G = new OpEval<DIV, FEM, f, q>; vc_check(G->dim == 1 && G->nfa == N, "dimensions of the divergence"); G->run(s->g.mem);
    for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) vc_eq((*G)(0, n, i, r), s->jac(0, 0, n, i, r) + s->jac(1, 1, n, i, r) + s->jac(2, 2, n, i, r), "divergence");
    delete G; delete s;
}
template<typename FEM, int f, int q, bool TIED> static void curl() {
    auto* s = new Spec<FEM, f, q, TIED>; constexpr int N = Spec<FEM, f, q, TIED>::N;
    auto* G = new OpEval<CURL, FEM, f, q>; vc_check(G->dim == 3 && G->nfa == N, "dimensions of the curl"); G->run(s->g.mem);
    for (int r = 0; r < f; ++r) for (int i = 0; i < N; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < 3; ++k) { int a = (k + 1) % 3, b = (k + 2) % 3; vc_eq((*G)(k, n, i, r), s->jac(b, a, n, i, r) - s->jac(a, b, n, i, r), "curl"); }
    delete G; delete s;
}
// polynomial of degree <= 4 along the barycentric directions: the fifth difference vanishes
template<typename FEM, bool TIED> static void degree4() {
    constexpr int D = Operator<IDEN, FEM>::Dim::value, N = Operator<IDEN, FEM>::Nfa::value; static const double w[6] = {-1, 5, -10, 10, -5, 1};
    Geo<1, 18> g; if (TIED) g.real_geometry(); else g.free_geometry();
    double a = vc_real("L", 0, 1), b = vc_real("L", 0, 1), c = vc_real("L", 0, 1), h = vc_real("h", 0.5, 1);
    for (int e = 0; e < 3; ++e) for (int t = 0; t < 6; ++t) g.point(t + 6 * e, a + (e == 0) * t * h, b + (e == 1) * t * h, c + (e == 2) * t * h); g.bind();
    auto* ev = new OpEval<IDEN, FEM, 1, 18>; ev->run(g.mem);
    for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) for (int e = 0; e < 3; ++e) { double s = 0; for (int t = 0; t < 6; ++t) s += w[t] * (*ev)(k, t + 6 * e, i); vc_eq(s, 0, "degree at most four"); }
    delete ev;
}
#define ALLOPS(NAME, FEM, TIED) \
    VC(grad_##NAME) { grad<FEM, 1, 1, TIED>(); } VC(grad_batch_##NAME) { grad<FEM, 2, 2, TIED>(); } \
    VC(partial_##NAME) { duds<FEM, 1, 1, TIED>(); } VC(partial_batch_##NAME) { duds<FEM, 2, 2, TIED>(); } \
    VC(degree_##NAME) { degree4<FEM, TIED>(); }
#define DIVCURL(NAME, FEM, TIED) \
    VC(div_##NAME) { div<FEM, 1, 1, TIED>(); } VC(div_batch_##NAME) { div<FEM, 2, 2, TIED>(); } \
    VC(curl_##NAME) { curl<FEM, 1, 1, TIED>(); } VC(curl_batch_##NAME) { curl<FEM, 2, 2, TIED>(); }
}
