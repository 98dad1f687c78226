// Helpers for contracts on shape functions and differential operators.
#pragma once
#include "common.h"
#include "anifem++/fem/operations/core.h"
#include "anifem++/fem/spaces/spaces.h"
#include <cstdlib>
#include <memory>
namespace vcx {
using namespace Ani;
template<typename T> struct Buf {     // exact-size uninitialised heap buffer: every access outside it is a failed obligation
    T* p; size_t n;
    explicit Buf(size_t n_) : p((T*)malloc(n_ ? n_ * sizeof(T) : 1)), n(n_) { vc_undef(p, n * sizeof(T)); }
    ~Buf() { free(p); }
    Buf(const Buf&) = delete;
};
// Geometry of f tetrahedra as left by internalFem3DtetGeomInit (its postcondition is property C01) and q barycentric points.
template<int f, int q> struct Geo {
    double XYP[12 * f], PSI[9 * f], DET[f], MES[f], XYL[4 * q], XYG[3 * q * f], X0[3 * f];
    AniMemory<double, int> mem;
    bool tied = true;
    void real_geometry(bool withX0 = false) {
        static const double base[3][3] = {{2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
        for (int r = 0; r < f; ++r) {
            for (int k = 0; k < 3; ++k) { XYP[12 * r + k] = 0; X0[3 * r + k] = withX0 ? vc_real("x0", -1, 1) : 0; }
            for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) XYP[12 * r + 3 * (i + 1) + k] = i == 0 && k == 0 ? vc_real("e", 2.8, 1.2) : vc_real("e", base[i][k] - 0.8, base[i][k] + 0.8);
            double d = det3(XYP + 12 * r + 3, XYP + 12 * r + 6, XYP + 12 * r + 9); vc_nonzero(d);
            DET[r] = inverse3x3(XYP + 12 * r + 3, PSI + 9 * r); MES[r] = std::fabs(d) / 6;
        }
    }
    // affine elements: the matrix PSI may be any matrix
    void free_geometry() {
        for (int r = 0; r < f; ++r) {
            for (int k = 0; k < 12; ++k) XYP[12 * r + k] = k < 3 ? 0 : vc_real("e", -2, 2);
            for (int k = 0; k < 9; ++k) PSI[9 * r + k] = vc_real("psi", -2, 2);
            DET[r] = vc_real("det", 0.5, 2); MES[r] = vc_real("mes", 0.5, 2); for (int k = 0; k < 3; ++k) X0[3 * r + k] = vc_real("x0", -1, 1);
        }
    }
    void point(int n, double a, double b, double c) { XYL[4 * n] = 1 - a - b - c; XYL[4 * n + 1] = a; XYL[4 * n + 2] = b; XYL[4 * n + 3] = c; }
    void point4(int n, double z, double a, double b, double c) { XYL[4 * n] = z; XYL[4 * n + 1] = a; XYL[4 * n + 2] = b; XYL[4 * n + 3] = c; }
    void sym_points() { for (int n = 0; n < q; ++n) { double a = vc_real("L", 0, 0.3), b = vc_real("L", 0, 0.3), c = vc_real("L", 0, 0.3); point(n, a, b, c); } }
    void bind() {
        for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) for (int k = 0; k < 3; ++k) {
            double s = X0[3 * r + k]; for (int i = 1; i < 4; ++i) s += XYL[4 * n + i] * XYP[12 * r + 3 * i + k]; XYG[k + 3 * (n + q * r)] = s; }
        mem.XYP.Init(XYP, 12 * f); mem.PSI.Init(PSI, 9 * f); mem.DET.Init(DET, f); mem.MES.Init(MES, f); mem.XYL.Init(XYL, 4 * q); mem.XYG.Init(XYG, 3 * q * f);
        mem.q = q; mem.f = f;
    }
};
// Apply an operator of the library with exactly the memory it asks for; values as a dense array v(component, point, function, tetra).
template<int OP, typename FEM, int f, int q> struct OpEval {
    using O = Operator<OP, FEM>;
    static constexpr int dim = O::Dim::value, nfa = O::Nfa::value;
    double v[dim * q * nfa * f];
    double& operator()(int k, int n, int i, int r = 0) { return v[k + dim * (n + q * (i + nfa * r))]; }
    void run(AniMemory<double, int> mem) {
        size_t U = 0, R = 0, I = 0; O::template memoryRequirements<double, int>(f, q, U, R, I);
        Buf<double> u(U), er(R); Buf<int> ei(I);
        mem.extraR.Init(er.p, R); mem.extraI.Init(ei.p, I);
        ArrayView<double> uv(u.p, U);
        auto res = O::template apply<double, int>(mem, uv);
        auto b = convToBendMx(res, int(dim), int(nfa));
        for (auto& x : v) x = 0;
        constexpr int np = decltype(b)::Nparts::value;
        vc_check(b.stRow[0] == 0 && b.stCol[0] == 0 && b.stRow[np] == dim && b.stCol[np] == nfa, "parts cover all components and functions");
        for (int p = 0; p < np; ++p) {
            int ld = b.stRow[p + 1] - b.stRow[p], ln = b.stCol[p + 1] - b.stCol[p];
            vc_check((int)b.data[p].nRow == ld * q && (int)b.data[p].nCol == ln * f, "size of a part");
            for (int r = 0; r < f; ++r) for (int i = 0; i < ln; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < ld; ++k)
                (*this)(k + b.stRow[p], n, i + b.stCol[p], r) = b.data[p].data[k + ld * n + ld * q * (i + ln * r)];
        }
    }
};
inline double delta(int a, int b) { return a == b ? 1.0 : 0.0; }
}
