// Interpolation applies exactly the degree-of-freedom functional of each shape function (duality of functionals and shape functions
// is property C02), and writes exactly the requested coefficients.
// VCFLAGS: timeout=200 link=anifem++/fem/quadrature_formulas.cpp,anifem++/fem/fem_space.cpp,anifem++/fem/tetdofmap.cpp
#include "fem.h"
using namespace vcx;
using P0 = FemFix<FEM_P0>; using P1 = FemFix<FEM_P1>; using P2 = FemFix<FEM_P2>; using P3 = FemFix<FEM_P3>; using CR1 = FemFix<FEM_CR1>; using B2 = FemFix<FEM_B2>; using B4 = FemFix<FEM_B4>; using RT0 = FemFix<FEM_RT0>; using ND0 = FemFix<FEM_ND0>;
// a field with D*F components: an arbitrary function for node values, an arbitrary affine function for mean values
struct Field {
    int D; double X[4][3]; double c[64][4];
    void init(int n) { D = n; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][k] = vc_real("x", (i == k + 1) * 2. - 0.6, (i == k + 1) * 2. + 0.6); for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) c[i][k] = vc_real("c", -2, 2); }
    double affine(int i, const double* x) const { return c[i][0] + c[i][1] * x[0] + c[i][2] * x[1] + c[i][3] * x[2]; }
    // an arbitrary function of the point, different for each component: affine plus an uninterpreted part
    double any(int i, const double* x) const { return affine(i, x) + c[i][0] * vc_uf2("F", vc_uf2("G", x[0], x[1]), x[2]); }
};
static Field* g;       // the field of the running case
static bool g_affine;  // whether the degrees of freedom of the element are mean values
static int eval(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { vc_check((int)dim == g->D, "dimension announced to the function"); vc_check(ud == (void*)g, "user data passed through"); for (int i = 0; i < g->D; ++i) res[i] = g_affine ? g->affine(i, X.data()) : g->any(i, X.data()); return 0; }
static double val(int comp, const double* l) { double x[3]; for (int k = 0; k < 3; ++k) x[k] = l[0] * g->X[0][k] + l[1] * g->X[1][k] + l[2] * g->X[2][k] + l[3] * g->X[3][k]; return g_affine ? g->affine(comp, x) : g->any(comp, x); }
static double vals(int comp, std::array<int, 4> w, int den) { double x[3]; for (int k = 0; k < 3; ++k) x[k] = (w[0] * g->X[0][k] + w[1] * g->X[1][k] + w[2] * g->X[2][k] + w[3] * g->X[3][k]) / den; return g_affine ? g->affine(comp, x) : g->any(comp, x); }
static const int ED[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
static std::array<int, 4> unit(int i) { std::array<int, 4> w{{0, 0, 0, 0}}; w[i] = 1; return w; }
static std::array<int, 4> edge(int e, int a, int b) { std::array<int, 4> w{{0, 0, 0, 0}}; w[ED[e][0]] = a; w[ED[e][1]] = b; return w; }
static std::array<int, 4> face(int f) { std::array<int, 4> w{{1, 1, 1, 1}}; w[(f + 3) % 4] = 0; return w; }
// functional of dof i of element FEM applied to the components off, off+1, ... of the field
static double functional(int FEM, int i, int off) {
    switch (FEM) {
        case FEM_P0: case FEM_B4: return vals(off, {{1, 1, 1, 1}}, 4);
        case FEM_P1: return vals(off, unit(i), 1);
        case FEM_P2: return i < 4 ? vals(off, unit(i), 1) : vals(off, edge(i - 4, 1, 1), 2);
        case FEM_P3: return i < 4 ? vals(off, unit(i), 1) : i < 16 ? vals(off, edge((i - 4) / 2, i % 2 ? 1 : 2, i % 2 ? 2 : 1), 3) : vals(off, face(i - 16), 3);
        case FEM_B2: return vals(off, edge(i, 1, 1), 2);
        case FEM_CR1: return vals(off, face(i), 3);
        case FEM_RT0: {
            double a[3], b[3], o[3], N[3]; for (int k = 0; k < 3; ++k) { a[k] = g->X[(i + 1) % 4][k] - g->X[i][k]; b[k] = g->X[(i + 2) % 4][k] - g->X[i][k]; o[k] = g->X[(i + 3) % 4][k] - g->X[i][k]; }
            for (int k = 0; k < 3; ++k) { int u = (k + 1) % 3, w = (k + 2) % 3; N[k] = a[u] * b[w] - a[w] * b[u]; }
            double d = -dot3(N, o), s = 0; for (int k = 0; k < 3; ++k) s += vals(off + k, face(i), 3) * N[k];
            return s / std::sqrt(dot3(N, N)) * (std::fabs(d) / d);
        }
        case FEM_ND0: { double t[3]; for (int k = 0; k < 3; ++k) t[k] = g->X[ED[i][1]][k] - g->X[ED[i][0]][k]; double s = 0; for (int k = 0; k < 3; ++k) s += vals(off + k, edge(i, 1, 1), 2) * t[k]; return s / std::sqrt(dot3(t, t)); }
    }
    return 0;
}
// walks a space: the functional of its dof i
template<typename FEM> struct Fn;
template<int F> struct Fn<FemFix<F>> { static double at(int i, int off) { return functional(F, i, off); } static constexpr bool mean = F == FEM_P0 || F == FEM_CR1 || F == FEM_RT0 || F == FEM_ND0; };
template<int D, int F> struct Fn<FemVec<D, F>> { static double at(int i, int off) { constexpr int n = Operator<IDEN, FemFix<F>>::Nfa::value, d = Operator<IDEN, FemFix<F>>::Dim::value; return functional(F, i % n, off + d * (i / n)); } static constexpr bool mean = Fn<FemFix<F>>::mean; };
template<int D, typename T> struct Fn<FemComDetails::FemVecTImpl<true, D, T>> { static double at(int i, int off) { constexpr int n = Operator<IDEN, T>::Nfa::value, d = Operator<IDEN, T>::Dim::value; return Fn<T>::at(i % n, off + d * (i / n)); } static constexpr bool mean = Fn<T>::mean; };
template<typename... T> struct AnyMean; template<> struct AnyMean<> { static constexpr bool v = false; }; template<typename H, typename... T> struct AnyMean<H, T...> { static constexpr bool v = Fn<H>::mean || AnyMean<T...>::v; };
template<typename... T> struct Fn<FemComDetails::FemComImpl<true, T...>> {
    static double at(int i, int off) { double r = 0; int n[] = {Operator<IDEN, T>::Nfa::value...}, d[] = {Operator<IDEN, T>::Dim::value...}; double (*fs[])(int, int) = {&Fn<T>::at...}; for (int p = 0; p < (int)sizeof...(T); ++p) { if (i < n[p]) { r = fs[p](i, off); break; } i -= n[p]; off += d[p]; } return r; }
    static constexpr bool mean = AnyMean<T...>::v;
};
struct Out {   // exact-size coefficient vectors with arbitrary previous contents
    double* p; double old[40]; int n;
    explicit Out(int n_) : p((double*)malloc(n_ * sizeof(double))), n(n_) { for (int i = 0; i < n; ++i) p[i] = old[i] = vc_real("old", -3, 3); }
    ~Out() { free(p); }
};
template<typename FEM, int F> static void interp(unsigned order) {
    constexpr int N = Operator<IDEN, FEM>::Nfa::value, D = Operator<IDEN, FEM>::Dim::value; static_assert(N <= 40 && D * F <= 64, "");
    Field fl; fl.init(D * F); g = &fl; g_affine = Fn<FEM>::mean; vc_nonzero(tet_det(fl.X));
    Tetra<const double> XYZ(fl.X[0], fl.X[1], fl.X[2], fl.X[3]);
    int id = vc_choose("dof", 0, N - 1);
    Out* o[F]; std::array<ArrayView<>, F> u; for (int r = 0; r < F; ++r) { o[r] = new Out(N); u[r] = ArrayView<>(o[r]->p, N); }
    if (F == 1) Dof<FEM>::interpolate(XYZ, eval, u[0], id, (void*)g, order); else Dof<FEM>::template interpolate<F>(XYZ, eval, u, id, (void*)g, order);
    for (int r = 0; r < F; ++r) for (int i = 0; i < N; ++i) if (i != id) vc_eq(o[r]->p[i], o[r]->old[i], "other coefficients keep their values");
    for (int r = 0; r < F; ++r) vc_eq(o[r]->p[id], Fn<FEM>::at(id, r * D), "coefficient = functional of the shape function");
    for (int r = 0; r < F; ++r) delete o[r];
}
#define INT(NAME, ...) VC(interp_##NAME) { interp<__VA_ARGS__, 1>(5); } VC(interp_fused_##NAME) { interp<__VA_ARGS__, 2>(5); } VC(interp_order_##NAME) { interp<__VA_ARGS__, 1>(vc_choose("order", 1, 4)); }
INT(P0, P0) INT(P1, P1) INT(P2, P2) INT(P3, P3) INT(CR1, CR1) INT(B2, B2) INT(B4, B4) INT(RT0, RT0) INT(ND0, ND0)
INT(V3P1, FemVec<3, FEM_P1>) INT(V2P2, FemVec<2, FEM_P2>) INT(V2RT0, FemVec<2, FEM_RT0>) INT(V3CR1, FemVec<3, FEM_CR1>) INT(VT2_V2P1, FemVecT<2, FemVec<2, FEM_P1>>) INT(VT3_ND0, FemVecT<3, ND0>)
INT(C_V3P2_P1, FemCom<FemVec<3, FEM_P2>, P1>) INT(C_ND0_P1_RT0, FemCom<ND0, P1, RT0>) INT(C_nested, FemCom<FemVecT<2, FemCom<P1, P0>>, FemVec<2, FEM_CR1>, B4>) INT(C_P3_B2, FemCom<P3, B2>)
VC_NEG(interp_P2) { Field fl; fl.init(1); g = &fl; g_affine = false; Tetra<const double> XYZ(fl.X[0], fl.X[1], fl.X[2], fl.X[3]); double u[10]; Dof<P2>::interpolate(XYZ, eval, ArrayView<>(u, 10), 4, (void*)g, 5); vc_eq(u[4], vals(0, edge(0, 1, 2), 3), "wrong"); }
