// Barycentric coordinates and the geometric data every elemental computation starts from.
// VCFLAGS: timeout=90
#include "common.h"
#include "anifem++/fem/operations/core.h"
using namespace Ani; using namespace vcx;
template<int N> static void bary() {
    Tet t; sym_tet(t); double X[3 * N], L[4 * N]; fill_real(X, 3 * N, "X"); vc_undef(L, sizeof L);
    getBaryCoord<double>(t.X[0], t.X[1], t.X[2], t.X[3], ArrayView<const double>(X, 3 * N), ArrayView<double>(L, 4 * N));
    for (int n = 0; n < N; ++n) {
        double s = 0; for (int i = 0; i < 4; ++i) s += L[4 * n + i]; vc_eq(s, 1, "coordinates sum to one");
        for (int k = 0; k < 3; ++k) { double x = 0; for (int i = 0; i < 4; ++i) x += L[4 * n + i] * t.X[i][k]; vc_eq(x, X[3 * n + k], "coordinates reproduce the point"); }
    }
}
VC(getBaryCoord_1) { bary<1>(); }
VC(getBaryCoord_3) { bary<3>(); }
VC(getBaryCoord_with_inverse) {
    Tet t; sym_tet(t); double X[6], L[8], T[9], P[9]; fill_real(X, 6, "X"); vc_undef(L, sizeof L);
    for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) T[k + 3 * j] = t.X[j + 1][k] - t.X[0][k];
    inverse3x3(T, P);
    getBaryCoord<double>(t.X[0], t.X[1], t.X[2], t.X[3], ArrayView<const double>(X, 6), ArrayView<double>(L, 8), ArrayView<double>(P, 9));
    for (int n = 0; n < 2; ++n) {
        double s = 0; for (int i = 0; i < 4; ++i) s += L[4 * n + i]; vc_eq(s, 1, "coordinates sum to one");
        for (int k = 0; k < 3; ++k) { double x = 0; for (int i = 0; i < 4; ++i) x += L[4 * n + i] * t.X[i][k]; vc_eq(x, X[3 * n + k], "coordinates reproduce the point"); }
    }
}
// geometric initialisation of the work memory for a batch of f tetrahedra and q points
template<int f, int q> static void geom() {
    double X[4][3 * f]; double det[f];
    for (int r = 0; r < f; ++r) { Tet t; sym_tet(t); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][k + 3 * r] = t.X[i][k]; det[r] = t.det; }
    double XYG[3 * q * f], XYP[12 * f], PSI[9 * f], DET[f], MES[f], XYL[4 * q];
    vc_undef(XYG, sizeof XYG); vc_undef(XYP, sizeof XYP); vc_undef(PSI, sizeof PSI); vc_undef(DET, sizeof DET); vc_undef(MES, sizeof MES);
    for (int n = 0; n < q; ++n) { double s = 1; for (int i = 1; i < 4; ++i) { XYL[4 * n + i] = vc_real("L", 0, 0.3); s -= XYL[4 * n + i]; } XYL[4 * n] = s; }
    AniMemory<double, int> mem;
    mem.XYG.Init(XYG, 3 * q * f); mem.XYP.Init(XYP, 12 * f); mem.PSI.Init(PSI, 9 * f); mem.DET.Init(DET, f); mem.MES.Init(MES, f); mem.XYL.Init(XYL, 4 * q);
    mem.q = q; mem.f = f;
    internalFem3DtetGeomInit(make_tetras(X[0], X[1], X[2], X[3], f), mem);
    for (int r = 0; r < f; ++r) {
        vc_eq(DET[r], det[r], "determinant"); vc_eq(36 * MES[r] * MES[r], det[r] * det[r], "volume"); vc_check(MES[r] > 0, "volume > 0");
        for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) vc_eq(XYP[k + 3 * i + 12 * r], X[i][k + 3 * r] - X[0][k + 3 * r], "edge vectors");
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += PSI[i + 3 * k + 9 * r] * (X[j + 1][k + 3 * r] - X[0][k + 3 * r]); vc_eq(s, i == j, "gradients of the barycentric coordinates"); }
        for (int n = 0; n < q; ++n) for (int k = 0; k < 3; ++k) { double s = 0; for (int i = 0; i < 4; ++i) s += XYL[4 * n + i] * X[i][k + 3 * r]; vc_eq(XYG[k + 3 * (n + q * r)], s, "points"); }
    }
}
VC(geom_init_1_1) { geom<1, 1>(); }
VC(geom_init_1_3) { geom<1, 3>(); }
VC(geom_init_3_2) { geom<3, 2>(); }
