// Domains of integration and evaluation over arbitrary tetrahedra, with the precondition every operator may rely on.
#pragma once
#include "elemental.h"
#include "anifem++/fem/operations/operations.h"
namespace vcx {
using namespace Ani;
enum { STACK, PLAIN, DYN, POOL, POOLX };
// an arbitrary tensor function of position (and of the number of the tetrahedron)
static int g_rows, g_cols, g_f; static char g_ud;
static double field(int k, int l, const double* x, int r) { char nm[8] = {'D', (char)('0' + k), (char)('0' + l), (char)('0' + r), 0}; return vc_uf2(nm, vc_uf2("xy", x[0], x[1]), x[2]); }
static TensorType pos_tensor(const Coord<>& x, double* D, TensorDims dims, void* ud, int iTet) {
    vc_check(ud == &g_ud && (int)dims.first == g_rows && (int)dims.second == g_cols && iTet >= 0 && iTet < g_f, "arguments handed to the tensor");
    for (int l = 0; l < g_cols; ++l) for (int k = 0; k < g_rows; ++k) D[k + g_rows * l] = field(k, l, x.data(), iTet);
    return TENSOR_GENERAL;
}
static const int ED[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
template<int f, int MQ> struct Dom {
    double X[4][3 * f]; const double* V(int i, int r) const { return X[i] + 3 * r; }
    double lam[4 * MQ], w[MQ], mes[f], nrm[3 * f], XG[3 * MQ * f]; int q = 0; bool normal = false;
    Dom() {
        static const double b[4][3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
        for (int r = 0; r < f; ++r) {
            for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][3 * r + k] = vc_real("x", b[i][k] - 0.7, b[i][k] + 0.7);
            vc_nonzero(det(r)); mes[r] = 1;
        }
    }
    double det(int r) const { double e[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) e[i][k] = V(i + 1, r)[k] - V(0, r)[k]; return det3(e[0], e[1], e[2]); }
    void area(int fn, int r, bool N) {   // face formed by vertices fn, fn+1, fn+2
        double a[3], b[3], c[3], n[3]; for (int k = 0; k < 3; ++k) { a[k] = V((fn + 1) % 4, r)[k] - V(fn, r)[k]; b[k] = V((fn + 2) % 4, r)[k] - V(fn, r)[k]; c[k] = V((fn + 3) % 4, r)[k] - V(fn, r)[k]; }
        for (int k = 0; k < 3; ++k) { int u = (k + 1) % 3, v = (k + 2) % 3; n[k] = a[u] * b[v] - a[v] * b[u]; }
        double len = std::sqrt(dot3(n, n)), d = dot3(n, c); mes[r] = len / 2; normal = N;
        if (N) for (int k = 0; k < 3; ++k) nrm[3 * r + k] = -n[k] * (std::fabs(d) / d) / len;      // points away from the opposite vertex
    }
    void length(int e, int r) { double t[3]; for (int k = 0; k < 3; ++k) t[k] = V(ED[e][1], r)[k] - V(ED[e][0], r)[k]; mes[r] = std::sqrt(dot3(t, t)); }
    void points() { for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < 3; ++k) { double s = V(0, r)[k]; for (int i = 1; i < 4; ++i) s += lam[4 * n + i] * (V(i, r)[k] - V(0, r)[k]); XG[k + 3 * (n + q * r)] = s; } }
};
template<int F> struct MakeT { template<class D> static auto make(D& d) { return make_tetras(d.X[0], d.X[1], d.X[2], d.X[3], F); } };
template<> struct MakeT<1> { template<class D> static auto make(D& d) { return Tetra<double>(d.X[0], d.X[1], d.X[2], d.X[3]); } };
using OA = Abs<0, 2, 2, 1>; using OB = Abs<1, 1, 3, 1>; using OB2 = Abs<1, 2, 3, 2>;
using TrP = DfuncTraits<PerPoint, false>;
template<class OpA, class OpB, int f, int MQ> static void expect(Dom<f, MQ>& d, bool normal) {
    d.points(); OpA::init(d.q, f); OpB::init(d.q, f);
    g_rows = OpB::Dim::value * (normal ? 3 : 1); g_cols = OpA::Dim::value; g_f = f;
    g_expect.on = true; g_expect.q = d.q; g_expect.f = f; g_expect.lam = d.lam; for (int i = 0; i < 4; ++i) g_expect.X[i] = d.X[i]; g_expect.calls = 0;
}
template<class OpA, class OpB, int f, int MQ> static void post(Dom<f, MQ>& d, const double* A) {
    constexpr int NA = OpA::Nfa::value, NB = OpB::Nfa::value; int q = d.q;
    g_ten.rows = g_rows; g_ten.cols = g_cols; g_ten.q = q; g_ten.f = f;
    for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) { g_ten.ty[n + q * r] = TENSOR_GENERAL; for (int l = 0; l < g_cols; ++l) for (int k = 0; k < g_rows; ++k) g_ten.at(k, l, n, r) = field(k, l, d.XG + 3 * (n + q * r), r); }
    vc_check(g_expect.calls == 2, "both operators are evaluated");
    for (int r = 0; r < f; ++r) for (int j = 0; j < NA; ++j) for (int i = 0; i < NB; ++i)
        vc_eq(A[i + NB * (j + NA * r)], form(OpA::tab, OpB::tab, g_ten, j, i, r, d.w, d.mes[r], d.normal ? d.nrm + 3 * r : nullptr), "elemental matrix equals the integral over the domain");
    vc_cover("computed");
}
struct Plain { Buf<double> d; Buf<int> i; PlainMemory<> pm; explicit Plain(PlainMemory<> r) : d(r.dSize), i(r.iSize) { pm.ddata = d.p; pm.dSize = r.dSize; pm.idata = i.p; pm.iSize = r.iSize; } };
struct PlainX { Buf<double> d; Buf<int> i; Buf<DenseMatrix<>> m; PlainMemoryX<> pm; explicit PlainX(PlainMemoryX<> r) : d(r.dSize), i(r.iSize), m(r.mSize) { pm.ddata = d.p; pm.dSize = r.dSize; pm.idata = i.p; pm.iSize = r.iSize; pm.mdata = m.p; pm.mSize = r.mSize; } };
template<class OpA, class OpB, int f> struct Mat { static constexpr int NA = OpA::Nfa::value, NB = OpB::Nfa::value; Buf<double> b; DenseMatrix<> A; DynAbs u, v; Mat() : b(NA * NB * f), A(b.p, NB, NA * f, NA * NB * f), u(&OpA::tab, OpA::Dim::value, NA, 1), v(&OpB::tab, OpB::Dim::value, NB, std::is_same<OpB, OB2>::value ? 2 : 1) {} };

}
