// Prescribed values along arbitrary orthonormal directions of a vector unknown: for every orthogonal matrix, system and value.
// VCFLAGS: timeout=300
#include "fem.h"
#include "anifem++/fem/operations/dc_on_dof.h"
using namespace vcx;
// every orthogonal matrix is a signature matrix times the Cayley transform of a skew matrix
static void orth(int d, double* V) {   // column-major d x d
    double s[3] = {1, 1, 1}; for (int i = 0; i < d; ++i) s[i] = vc_choose("sign", 0, 1) ? -1 : 1;
    if (d == 1) { V[0] = s[0]; return; }
    if (d == 2) { double t = vc_real("t", -2, 2), w = 1 + t * t; vc_nonzero(w); double c = (1 - t * t) / w, n = 2 * t / w; V[0] = s[0] * c; V[1] = s[1] * n; V[2] = -s[0] * n; V[3] = s[1] * c; return; }
    double a = vc_real("a", -1, 1), b = vc_real("b", -1, 1), c = vc_real("c", -1, 1), w = 1 + a * a + b * b + c * c; vc_nonzero(w);
    double M[3][3] = {{1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b)}, {2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a)}, {2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) V[i + 3 * j] = s[i] * M[i][j] / w;
}
struct Case { int d, nb, n; unsigned ids[3]; double V[9]; DenseMatrix<> Vo; unsigned nc; unsigned dir[3]; const unsigned* dc; };
static void setup(Case& c, int d) {
    c.d = d; c.nb = 2; c.n = d * c.nb + 1; int which = vc_choose("dof", 0, 1); for (int i = 0; i < d; ++i) c.ids[i] = which ? (d - 1 - i) * c.nb + 1 : i * c.nb;
    orth(d, c.V); c.Vo.Init(c.V, d, d, d * d); c.nc = vc_choose("ndc", 0, d); int mode = vc_choose("order", 0, 2); c.dc = nullptr;
    for (int k = 0; k < 3; ++k) c.dir[k] = k; if (mode) { for (int k = 0; k < d; ++k) c.dir[k] = mode == 1 ? d - 1 - k : (k + 1) % d; c.dc = c.dir; }
}
// symbolic solution vector split into coordinates along the directions: u = V^T w
static void unknowns(const Case& c, std::vector<double>& u, double* w) { u.resize(c.n); fill_real(u.data(), c.n, "u"); for (int k = 0; k < c.d; ++k) w[k] = vc_real("w", -2, 2); for (int l = 0; l < c.d; ++l) { double s = 0; for (int k = 0; k < c.d; ++k) s += c.V[k + c.d * l] * w[k]; u[c.ids[l]] = s; } }
static int dir_of_row(const Case& c, int i) { for (int l = 0; l < c.d; ++l) if ((int)c.ids[l] == i) return l; return -1; }
static void body(int d, bool withF) {
    Case c; setup(c, d); int n = c.n; std::vector<double> A(n * n), F(n), A0, F0, u; fill_real(A.data(), n * n, "a"); fill_real(F.data(), n, "f"); A0 = A; F0 = F; DenseMatrix<> a(A.data(), n, n), f(F.data(), n, 1);
    double b[3]; for (unsigned k = 0; k < c.nc; ++k) b[k] = vc_real("b", -2, 2); Buf<double> mem(d * n); ArrayView<> mv(mem.p, d * n); ArrayView<> bv(b, c.nc);
    if (withF) applyVectorDir(a, f, c.ids, c.Vo, bv, mv, c.nc, c.dc); else applyVectorDirMatrix(a, c.ids, c.Vo, mv, c.nc, c.dc);
    double w[3]; unknowns(c, u, w);
    // constrained directions
    bool is[3] = {}; for (unsigned k = 0; k < c.nc; ++k) { is[c.dir[k]] = true; double s = 0; int r = c.ids[c.dir[k]]; for (int j = 0; j < n; ++j) s += A[r + n * j] * u[j]; vc_eq(s, w[c.dir[k]], "the constrained equation is the component along the direction"); if (withF) vc_eq(F[r], b[k], "the prescribed value stands on the right-hand side"); }
    // the system does not depend on the constrained components in the other equations; with the prescribed values the equations agree
    std::vector<double> ub = u, u0 = u; for (int l = 0; l < d; ++l) { double s = 0, z = 0; for (int k = 0; k < d; ++k) { int idx = -1; for (unsigned q = 0; q < c.nc; ++q) if ((int)c.dir[q] == k) idx = q; double val = is[k] ? (withF ? b[idx] : 0.0) : w[k]; s += c.V[k + d * l] * val; z += c.V[k + d * l] * (is[k] ? 0.0 : w[k]); } ub[c.ids[l]] = s; u0[c.ids[l]] = z; }
    for (int i = 0; i < n; ++i) { int m = dir_of_row(c, i); if (m >= 0 && is[m]) continue;
        double s = 0, t = 0, e = 0, g = 0; for (int j = 0; j < n; ++j) { s += A[i + n * j] * u[j]; t += A[i + n * j] * u0[j]; }
        vc_eq(s, t, "other equations do not contain the constrained components");
        if (m < 0) { for (int j = 0; j < n; ++j) e += A0[i + n * j] * ub[j]; g = F0[i]; } else for (int p = 0; p < d; ++p) { double q = 0; for (int j = 0; j < n; ++j) q += A0[c.ids[p] + n * j] * ub[j]; e += c.V[m + d * p] * q; g += c.V[m + d * p] * F0[c.ids[p]]; }
        vc_eq(withF ? t - F[i] : t, withF ? e - g : e, "other equations hold for the same free components"); }
    if (!withF) for (int i = 0; i < n; ++i) vc_eq(F[i], F0[i], "right-hand side untouched");
}
VC(dir_1) { body(1, true); } VC(dir_2) { body(2, true); } VC(dir_3) { body(3, true); }
VC(matrix_1) { body(1, false); } VC(matrix_2) { body(2, false); } VC(matrix_3) { body(3, false); }
static void rest(int d) {
    Case c; setup(c, d); int n = c.n; std::vector<double> F(n), F0; fill_real(F.data(), n, "f"); F0 = F; bool is[3] = {}; for (unsigned k = 0; k < c.nc; ++k) is[c.dir[k]] = true;
    switch (vc_choose("f", 0, 2)) {
        case 0: { Buf<double> mem(d); ArrayView<> mv(mem.p, d); DenseMatrix<> f(F.data(), n, 1); applyVectorDirResidual(f, c.ids, c.Vo, mv, c.nc, c.dc); for (int i = 0; i < n; ++i) { int m = dir_of_row(c, i); if (m < 0) vc_eq(F[i], F0[i], "other residuals untouched"); else { double s = 0; for (int p = 0; p < d; ++p) s += c.V[m + d * p] * F0[c.ids[p]]; vc_eq(F[i], is[m] ? 0 : s, "residual along the directions"); } } break; }
        case 1: { Buf<double> mem(d); ArrayView<> mv(mem.p, d), col(F.data(), n); applyVectorDirMatrixExtCol(col, c.ids, c.Vo, mv, c.nc, c.dc); for (int i = 0; i < n; ++i) { int m = dir_of_row(c, i); if (m < 0) vc_eq(F[i], F0[i], "other coefficients untouched"); else { double s = 0; for (int p = 0; p < d; ++p) s += c.V[m + d * p] * F0[c.ids[p]]; vc_eq(F[i], is[m] ? 0 : s, "column of another unknown"); } } break; }
        default: { ArrayView<> row(F.data(), n); applyVectorDirMatrixExtRow(row, c.ids, c.Vo, c.nc, c.dc); std::vector<double> u; double w[3]; unknowns(c, u, w); std::vector<double> z = u; for (int l = 0; l < d; ++l) { double s = 0; for (int k = 0; k < d; ++k) s += c.V[k + d * l] * (is[k] ? 0.0 : w[k]); z[c.ids[l]] = s; } double s = 0, t = 0; for (int i = 0; i < n; ++i) s += F[i] * u[i], t += F0[i] * z[i]; vc_eq(s, t, "row of another test keeps the free components only"); } }
}
VC(rest_1) { rest(1); } VC(rest_2) { rest(2); } VC(rest_3) { rest(3); }
VC(memory) { double A[16], V[4] = {1, 0, 0, 1}, m[8]; for (auto& x : A) x = 1; DenseMatrix<> a(A, 4, 4), v(V, 2, 2); unsigned id[2] = {0, 2}; bool t = false; ArrayView<> mv(m, 7); try { applyVectorDirMatrix(a, id, v, mv, 1u); } catch (std::runtime_error&) { t = true; } vc_check(t, "too little memory is reported"); }
