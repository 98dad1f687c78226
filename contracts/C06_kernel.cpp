// VCFLAGS: timeout=200 eigen=0 link=anifem++/fem/quadrature_formulas.cpp
// C06: kernel contract. internalFem3Dtet (compile-time and run-time operators) against abstract operators and an abstract
// tensor: for all values of U, V, D, weights, measures and normals, A(i, j + nfa r) is the quadrature sum of the statement.
// The work memory is exactly what the library announces (uninitialised, exact-size blocks).
#include "elemental.h"
using namespace vcx; using namespace Ani;
// coordinates are concrete tags here: they are only handed through to the tensor (C06_domains keeps them symbolic)
static void tags(double* X, int q, int f) { for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < 3; ++k) X[k + 3 * (n + q * r)] = 100 * r + 10 * n + k + 0.5; }
template<class T> static void fill(ArrayView<T> a, const double* s, int n) { vc_check((int)a.size >= n, "work array has its size"); for (int i = 0; i < n; ++i) a.data[i] = s[i]; }

template<int SP, bool CONS, int AG, int DA, int NA, int PA, int DB, int NB, int PB, bool SAME, bool DOTN, int q, int f> static void kernel() {
    constexpr int nD = DOTN ? 3 : 1, rows = DB * nD, cols = DA;
    using OpA = Abs<0, DA, NA, PA>; using OpB = typename std::conditional<SAME, OpA, Abs<1, DB, NB, PB>>::type;
    using Tr = DfuncTraitsCommon<SP, CONS, -1, -1, AG>;
    OpA::init(q, f); if (!SAME) OpB::init(q, f);
    double XG[3 * q * f], w[q], mes[f], nrm[3 * f]; tags(XG, q, f); fill_real(w, q, "w"); fill_real(mes, f, "mes"); fill_real(nrm, 3 * f, "nrm");
    int first = SP > 0 ? 0 : (int)vc_choose("type", 0, (rows == cols) ? 3 : (NA == 1 && DA == 1) ? 2 : 0);
    g_ten.init(rows, cols, q, f, NA, CONS || AG ? 0 : SP == PerPoint ? 2 : SP == PerTetra ? 1 : 0, CONS, first, SP > 0 ? SP : 0);
    g_ten.X = XG; g_expect.on = false;
    auto post = [&](DenseMatrix<>& A) {
        for (int r = 0; r < f; ++r) for (int j = 0; j < NA; ++j) for (int i = 0; i < NB; ++i)
            vc_eq(A.data[i + NB * (j + NA * r)], form(OpA::tab, OpB::tab, g_ten, j, i, r, w, mes[r], DOTN ? nrm + 3 * r : nullptr), "elemental matrix equals the quadrature sum");
        vc_cover("computed");
    };
    auto fn = AgT<AG>::fn;
    if (vc_choose("dynamic", 0, 1) == 0) {
        auto req = fem3D_memory_requirements_base<OpA, OpB, double, int, true, DOTN>(q, f);
        Buf<double> d(req.dSize); Buf<int> id(req.iSize); Buf<double> Am(NA * NB * f);
        PlainMemory<> pm; pm.ddata = d.p; pm.dSize = req.dSize; pm.idata = id.p; pm.iSize = req.iSize;
        auto mem = fem3Dtet_init_animem_from_plain_memory<OpA, OpB, double, int, true, DOTN>(q, f, pm);
        fill(mem.XYG, XG, 3 * q * f); fill(mem.WG, w, q); fill(mem.MES, mes, f); if (DOTN) fill(mem.NRM, nrm, 3 * f);
        DenseMatrix<> A(Am.p, NB, NA * f);
        DFunc<decltype(fn), Tr, double, int, rows * cols> func(fn);
        internalFem3Dtet<OpA, OpB, DOTN>(func, A, mem, &g_ten.ud);
        post(A);
    } else {
        DynAbs a(&OpA::tab, DA, NA, PA), b(&OpB::tab, DB, NB, PB); const ApplyOpBase& B = SAME ? a : b;
        auto req = fem3D_memory_requirements_base<Tr>(a, B, q, f, DOTN, true);
        Buf<double> d(req.dSize); Buf<int> id(req.iSize); Buf<DenseMatrix<>> md(req.mSize); Buf<double> Am(NA * NB * f);
        PlainMemoryX<> pm; pm.ddata = d.p; pm.dSize = req.dSize; pm.idata = id.p; pm.iSize = req.iSize; pm.mdata = md.p; pm.mSize = req.mSize;
        DFunc<decltype(fn), Tr, double, int, -1> func(fn);
        auto mem = fem3D_init_animem_from_plain_memory(a, B, func, q, f, pm, DOTN, true);
        fill(mem.XYG, XG, 3 * q * f); fill(mem.WG, w, q); fill(mem.MES, mes, f); if (DOTN) fill(mem.NRM, nrm, 3 * f);
        DenseMatrix<> A(Am.p, NB, NA * f);
        internalFem3Dtet(a, B, func, A, mem, &g_ten.ud, DOTN);
        post(A);
    }
}
//            traits               tensor   U: dim nfa parts  V: dim nfa parts same  normal q f
#define K(NAME, SP, CONS, AG) \
    VC(NAME##_1) { kernel<SP, CONS, AG, 2, 3, 1, 2, 2, 1, false, false, 2, 2>(); } \
    VC(NAME##_bands) { kernel<SP, CONS, AG, 2, 4, 2, 2, 3, 2, false, false, 2, 2>(); }
#define KG(NAME, SP, CONS, AG) /* operators of different dimension, right-hand sides, normals */ \
    VC(NAME##_rect) { kernel<SP, CONS, AG, 3, 2, 1, 2, 3, 2, false, false, 2, 2>(); } \
    VC(NAME##_rhs) { kernel<SP, CONS, AG, 1, 1, 1, 3, 2, 1, false, false, 2, 2>(); }
#define KN(NAME, SP, CONS, AG) \
    VC(NAME##_same) { kernel<SP, CONS, AG, 3, 3, 3, 3, 3, 3, true, false, 3, 1>(); } \
    VC(NAME##_normal) { kernel<SP, CONS, AG, 3, 2, 1, 1, 3, 1, false, true, 2, 2>(); } \
    VC(NAME##_normal_bands) { kernel<SP, CONS, AG, 6, 2, 2, 2, 2, 2, false, true, 1, 2>(); }
#define KALL(NAME, SP, CONS, AG) K(NAME, SP, CONS, AG) KN(NAME, SP, CONS, AG)
KALL(point, PerPoint, false, 0) KG(point, PerPoint, false, 0)
KALL(tetra, PerTetra, false, 0) KG(tetra, PerTetra, false, 0)
KALL(selection, PerSelection, false, 0) KG(selection, PerSelection, false, 0)
KALL(general, TENSOR_GENERAL, false, 0) KG(general, TENSOR_GENERAL, false, 0)
KALL(symmetric, TENSOR_SYMMETRIC, false, 0)
KALL(scalar, TENSOR_SCALAR, false, 0) VC(scalar_rhs) { kernel<TENSOR_SCALAR, false, 0, 1, 1, 1, 3, 2, 1, false, false, 2, 2>(); }
KALL(null, TENSOR_NULL, false, 0) VC(null_rhs) { kernel<TENSOR_NULL, false, 0, 1, 1, 1, 3, 2, 1, false, false, 2, 2>(); }
KALL(const_any, PerPoint, true, 0) KG(const_any, PerPoint, true, 0)
KALL(const_general, TENSOR_GENERAL, true, 0) KG(const_general, TENSOR_GENERAL, true, 0)
KALL(const_symmetric, TENSOR_SYMMETRIC, true, 0)
KALL(const_scalar, TENSOR_SCALAR, true, 0) VC(const_scalar_rhs) { kernel<TENSOR_SCALAR, true, 0, 1, 1, 1, 3, 2, 1, false, false, 2, 2>(); }
KALL(const_null, TENSOR_NULL, true, 0) VC(const_null_rhs) { kernel<TENSOR_NULL, true, 0, 1, 1, 1, 3, 2, 1, false, false, 2, 2>(); }
KALL(fused, PerSelection, false, 1) KG(fused, PerSelection, false, 1)
// every combination of one to three points and tetrahedra
#define KB1(NAME, SP, CONS, AG, q, f) VC(batch_##NAME##_##q##f) { kernel<SP, CONS, AG, 2, 3, 2, 2, 2, 1, false, false, q, f>(); } VC(batch_##NAME##_normal_##q##f) { kernel<SP, CONS, AG, 3, 2, 3, 1, 2, 1, false, true, q, f>(); } VC(batch_##NAME##_same_##q##f) { kernel<SP, CONS, AG, 2, 3, 1, 2, 3, 1, true, false, q, f>(); }
#define KB(NAME, SP, CONS, AG) KB1(NAME, SP, CONS, AG, 1, 1) KB1(NAME, SP, CONS, AG, 2, 1) KB1(NAME, SP, CONS, AG, 3, 1) KB1(NAME, SP, CONS, AG, 1, 2) KB1(NAME, SP, CONS, AG, 1, 3) KB1(NAME, SP, CONS, AG, 3, 2) KB1(NAME, SP, CONS, AG, 2, 3)
KB(point, PerPoint, false, 0) KB(tetra, PerTetra, false, 0) KB(selection, PerSelection, false, 0) KB(const_any, PerPoint, true, 0) KB(fused, PerSelection, false, 1)
VC_NEG(weights) {
    g_ten.init(2, 2, 2, 1, 3, 0, true, 0); using A = Abs<0, 2, 3, 1>; using B = Abs<1, 2, 2, 1>; A::init(2, 1); B::init(2, 1);
    double w[2], m = vc_real("mes", 1, 2); fill_real(w, 2, "w"); double v[2] = {w[1], w[0]};
    vc_eq(form(A::tab, B::tab, g_ten, 0, 0, 0, w, m, nullptr), form(A::tab, B::tab, g_ten, 0, 0, 0, v, m, nullptr), "swapped weights");
}
