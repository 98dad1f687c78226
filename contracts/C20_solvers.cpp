// VCFLAGS: timeout=250 eigen=0
// C20: Cholesky, fully pivoted LU and Householder QR: announced results for every well-posed matrix, const inputs and the announced aliasings, exactly the documented work
// memory, and what happens to matrices outside the domain. A positive definite matrix is written as L0 L0^T (every one has that form).
#include "common.h"
#include "anifem++/fem/geometry.h"
using namespace Ani; typedef std::vector<double> V; typedef std::vector<int> I;
static V undef(size_t n) { V v(n); if (n) vc_undef(v.data(), n * sizeof(double)); return v; }
static I undefi(size_t n) { I v(n); if (n) vc_undef(v.data(), n * sizeof(int)); return v; }
static V any(size_t n, const char* s) { V v(n); for (auto& x : v) x = vc_real(s, -2, 2); return v; }
static V mul(const V& a, const V& b, int n, int k, int m) { V c(n * m, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int l = 0; l < k; ++l) c[i + n * j] += a[i + n * l] * b[l + k * j]; return c; }
static void same(const V& a, const V& b, const char* l) { vc_check(a.size() == b.size(), "size"); for (size_t i = 0; i < b.size(); ++i) vc_eq(a[i], b[i], l); }
static V ident(int n) { V e(n * n, 0.); for (int i = 0; i < n; ++i) e[i + n * i] = 1; return e; }
template<class F> static bool refuses(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
// symmetric matrix with Cholesky pivots d[k]
static V ldl(int n, const V& l, const V& d) { V a(n * n, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) a[i + n * j] += (i == k ? 1 : l[i + n * k]) * (j == k ? 1 : l[j + n * k]) * d[k]; return a; }
static V spd(int n) { V l(n * n, 0.); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) l[i + n * j] = i == j ? vc_real("diagonal", 0.3, 2) : vc_real("L", -1, 1); for (int i = 0; i < n; ++i) vc_assume(l[i + n * i] > 0); V a(n * n, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) a[i + n * j] += l[i + n * k] * l[j + n * k]; return a; }
VC(cholesky_solve) {
    int n = (int)vc_choose("N", 1, 4), m = (int)vc_choose("M", 1, 2), alias = (int)vc_choose("X is B", 0, 1), over = (int)vc_choose("memory is A", 0, 1); V A = spd(n), A0 = A, B = any(n * m, "B"), B0 = B, X = undef(n * m), W = undef(n * (n + 1) / 2); vc_scale(1e4);
    cholesky_solve((const double*)A.data(), (const double*)B.data(), n, m, alias ? B.data() : X.data(), over ? A.data() : W.data());
    same(mul(A0, alias ? B : X, n, n, m), B0, "A X = B"); if (!alias) same(B, B0, "right-hand side kept"); if (!over) same(A, A0, "matrix kept"); vc_cover("cholesky");
}
VC(cholesky_inverse) { int n = (int)vc_choose("N", 1, 4), over = (int)vc_choose("memory is A", 0, 1); V A = spd(n), A0 = A, X = undef(n * n), W = undef(n * (n + 1) / 2); vc_scale(1e4); cholesky_inverse((const double*)A.data(), X.data(), n, over ? A.data() : W.data()); same(mul(A0, X, n, n, n), ident(n), "A inv(A) = 1"); if (!over) same(A, A0, "matrix kept"); vc_cover("inverse"); }
VC(cholesky_refuses) {
    int n = (int)vc_choose("N", 1, 4), k = (int)vc_choose("first pivot that is not positive", 0, 3); vc_assume(k < n); V l = any(n * n, "L"), d(n); for (int i = 0; i < n; ++i) { d[i] = vc_real("pivot", -1, 1); if (i < k) vc_assume(d[i] > 0); if (i == k) vc_assume(d[i] <= 0); }
    if (!vc_symbolic()) { d[k] = d[k] - 1; } V A = ldl(n, l, d), B = any(n, "B"), X = undef(n), W = undef(n * (n + 1) / 2), Y = undef(n * n);
    vc_check(refuses([&] { cholesky_solve((const double*)A.data(), (const double*)B.data(), n, 1, X.data(), W.data()); }), "a matrix that is not positive definite is reported"); vc_check(refuses([&] { cholesky_inverse((const double*)A.data(), Y.data(), n, W.data()); }), "a matrix that is not positive definite is reported"); vc_cover("refused");
}
VC_NEG(cholesky) { V A = spd(2), B = any(2, "B"), X = undef(2), W = undef(3); cholesky_solve((const double*)A.data(), (const double*)B.data(), 2, 1, X.data(), W.data()); vc_eq(X[0], B[0] / A[0], "wrong"); }
static I perm(int n, int k) { I p(n), left; for (int i = 0; i < n; ++i) left.push_back(i); for (int i = 0, f = n; i < n; ++i, --f) { p[i] = left[k % f]; left.erase(left.begin() + k % f); k /= f; } return p; }
// contract of the triangular solves: for every unit lower L, upper U with nonzero diagonal and permutations, P A Q = L U and A X = B
VC(LU_solve) {
    int n = (int)vc_choose("N", 1, 4), m = (int)vc_choose("M", 1, 2), kp = (int)vc_choose("rows", 0, 5), kq = (int)vc_choose("columns", 0, 5); int f = n == 1 ? 1 : n == 2 ? 2 : 6; vc_assume((kp < f) & (kq < f)); I p = perm(n, n == 4 ? 4 * kp + 3 : kp), q = perm(n, n == 4 ? 4 * ((kq + 2) % 6) + 1 : kq), p0 = p, q0 = q;
    V LU = any(n * n, "LU"), LU0 = LU, B = any(n * m, "B"), B0 = B, X = undef(n * m), A(n * n, 0.); for (int i = 0; i < n; ++i) vc_nonzero(LU[i + n * i]); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k <= std::min(i, j); ++k) A[p[i] + n * q[j]] += (i == k ? 1 : LU[i + n * k]) * LU[k + n * j]; vc_scale(1e4);
    LU_solve(LU.data(), n, p.data(), q.data(), B.data(), X.data(), m); same(mul(A, X, n, n, m), B0, "A X = B"); same(LU, LU0, "factors kept"); for (int i = 0; i < n; ++i) vc_check(p[i] == p0[i] && q[i] == q0[i], "permutations kept"); vc_cover("LU_solve");
}
static void factors(const V& LU, const V& A, int n, const I& p, const I& q) {
    I hp(n, 0), hq(n, 0); for (int i = 0; i < n; ++i) { vc_check(p[i] >= 0 && p[i] < n && q[i] >= 0 && q[i] < n, "permutation"); hp[p[i]]++; hq[q[i]]++; } for (int i = 0; i < n; ++i) vc_check(hp[i] == 1 && hq[i] == 1, "permutation");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k <= std::min(i, j); ++k) s += (i == k ? 1 : LU[i + n * k]) * LU[k + n * j]; vc_eq(s, A[p[i] + n * q[j]], "P A Q = L U"); } vc_cover("factors");
}
static void pivoted(const V& A0, int n) {
    V A = A0; I p(n), q(n); for (int i = 0; i < n; ++i) p[i] = q[i] = i; fullPivLU(A.data(), n, p.data(), q.data()); factors(A, A0, n, p, q);
}
VC(fullPivLU2) { int n = (int)vc_choose("N", 1, 2); vc_scale(100); V A = any(n * n, "A"); pivoted(A, n); }
// three rows: the entries are taken in a given order of magnitude (the orders below), everything after the first elimination is free
static V ordered3(int k, bool signs) {
    static const int O[6][9] = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1, 0}, {4, 0, 8, 2, 6, 1, 3, 5, 7}, {5, 6, 1, 8, 3, 0, 7, 2, 4}, {2, 4, 6, 0, 8, 7, 5, 3, 1}, {7, 3, 0, 4, 1, 8, 2, 6, 5}};
    V A(9), a(9); for (int i = 0; i < 9; ++i) { a[i] = vc_real("magnitude", 0, 1); } if (!vc_symbolic()) { std::vector<double> s = a; std::sort(s.begin(), s.end()); a = s; } vc_assume(a[0] > 0); for (int i = 1; i < 9; ++i) vc_assume(a[i] > a[i - 1]); for (int i = 0; i < 9; ++i) A[O[k][8 - i]] = (signs && (0x95 >> (i % 8) & 1) ? -1 : 1) * a[i]; return A;
}
VC(fullPivLU3) { vc_bounded("3x3 with six orders of magnitudes"); V A = ordered3((int)vc_choose("order", 0, 5), vc_choose("signs", 0, 1)); vc_scale(100); pivoted(A, 3); }
VC(fullPivLU_zeros) { vc_bounded("3x3 and 4x4 with entries -1, 0, 1"); int n = (int)vc_choose("N", 2, 4); unsigned r = 77 + 131 * (unsigned)vc_choose("matrix", 0, 79); V A(n * n); for (auto& x : A) { r = r * 1664525u + 1013904223u; x = (double)(r >> 20 & 3 ? (int)(r >> 24 & 1) : 0) - (double)(int)(r >> 26 & 1) * (r >> 27 & 1); } pivoted(A, n); }
static double det2(const V& A) { return A[0] * A[3] - A[1] * A[2]; }
VC(fullPivLU_solve) {
    int n = (int)vc_choose("N", 1, 2), m = (int)vc_choose("M", 1, 2), alias = (int)vc_choose("X is B", 0, 1); V A = any(n * n, "A"), A0 = A, B = any(n * m, "B"), B0 = B, X = undef(n * m), W = undef(n * (n + m)); I w = undefi(2 * n); vc_nonzero(n == 1 ? A[0] : det2(A)); vc_scale(1e4);
    fullPivLU_solve((const double*)A.data(), (const double*)B.data(), n, m, alias ? B.data() : X.data(), W.data(), w.data()); same(mul(A0, alias ? B : X, n, n, m), B0, "A X = B"); if (!alias) same(B, B0, "right-hand side kept"); same(A, A0, "matrix kept"); vc_cover("solve");
}
VC(fullPivLU_inverse) { int n = (int)vc_choose("N", 1, 2), alias = (int)vc_choose("Inv is A", 0, 1); V A = any(n * n, "A"), A0 = A, X = undef(n * n), W = undef(2 * n * n); I w = undefi(2 * n); vc_nonzero(n == 1 ? A[0] : det2(A)); vc_scale(1e4); fullPivLU_inverse((const double*)A.data(), alias ? A.data() : X.data(), n, W.data(), w.data()); same(mul(A0, alias ? A : X, n, n, n), ident(n), "A inv(A) = 1"); if (!alias) same(A, A0, "matrix kept"); vc_cover("inverse"); }
VC(fullPivLU_solve3) {
    vc_bounded("3x3 with six orders of magnitudes"); V A = ordered3((int)vc_choose("order", 0, 5), true), A0 = A, B = any(3, "B"), B0 = B, X = undef(3), Y = undef(9), W = undef(18); I w = undefi(6); double d = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[3] * (A[1] * A[8] - A[2] * A[7]) + A[6] * (A[1] * A[5] - A[2] * A[4]); vc_nonzero(d); vc_scale(1e5);
    if (vc_choose("inverse", 0, 1)) { fullPivLU_inverse((const double*)A.data(), Y.data(), 3, W.data(), w.data()); same(mul(A0, Y, 3, 3, 3), ident(3), "A inv(A) = 1"); } else { fullPivLU_solve((const double*)A.data(), (const double*)B.data(), 3, 1, X.data(), W.data(), w.data()); same(mul(A0, X, 3, 3, 1), B0, "A X = B"); same(B, B0, "right-hand side kept"); } same(A, A0, "matrix kept"); vc_cover("solve3");
}
VC(LU_dense) {
    vc_bounded("dense matrices drawn from a generator"); int n = (int)vc_choose("N", 3, 6), m = (int)vc_choose("M", 1, 2), kind = (int)vc_choose("kind", 0, 2); unsigned r = 5 + 7 * n + (unsigned)vc_choose("seed", 0, 7); V A(n * n), B(n * m); for (auto& x : A) { r = r * 1664525u + 1013904223u; x = kind == 2 ? ((double)(r >> 24) - 128) * (r & 0x10000 ? 256. : 1.) * (r & 0x20000 ? 1. / 16 : 1.) * (r & 0x40000 ? 16. : 1.) : (double)(int)(r >> 12) / 1048576. - 0.5; if (kind == 1 && (r >> 8 & 3)) x = 0; } for (int i = 0; i < n; ++i) A[i + n * ((i * (kind == 1 ? 1 : 2) + 1) % n)] += kind == 1 ? 1.5 : 0; for (auto& x : B) { r = r * 1664525u + 1013904223u; x = (double)(r >> 12) / 1048576. - 0.5; }
    V A0 = A, B0 = B, X = undef(n * m), Y = undef(n * n), W = undef(n * (n + std::max(n, m))); I w = undefi(2 * n); vc_scale(1e5);
    fullPivLU_solve((const double*)A.data(), (const double*)B.data(), n, m, X.data(), W.data(), w.data()); same(mul(A0, X, n, n, m), B0, "A X = B"); fullPivLU_inverse((const double*)A.data(), Y.data(), n, W.data(), w.data()); V Z = mul(Y, A0, n, n, n); same(Z, ident(n), "A inv(A) = 1"); same(A, A0, "matrix kept"); same(B, B0, "right-hand side kept"); vc_cover("dense");
}
VC(singular) {
    int n = (int)vc_choose("N", 1, 4), k = (int)vc_choose("kind", 0, 3); V A(n * n, 0.), B = any(n, "B"), X = undef(n), Y = undef(n * n), W = undef(2 * n * n); I w = undefi(2 * n); double t = vc_real("t", 1, 2); vc_assume(t > 0); vc_scale(100);
    if (k == 1) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i + n * j] = n == 1 ? 0 : t; } else if (k == 2) for (int i = 0; i < n; ++i) { if (i != n / 2) A[i + n * i] = t; } else if (k == 3) for (int i = 0; i + 1 < n; ++i) A[i + n * (i + 1)] = t;
    vc_check(refuses([&] { fullPivLU_solve((const double*)A.data(), (const double*)B.data(), n, 1, X.data(), W.data(), w.data()); }), "a singular matrix is reported"); vc_check(refuses([&] { fullPivLU_inverse((const double*)A.data(), Y.data(), n, W.data(), w.data()); }), "a singular matrix is reported"); vc_cover("singular");
}
static void qr(int n, int m, V A) {
    V A0 = A, Q = undef(n * n), R = undef(m * m), W = undef(n * m + n + m), T(n * n); vc_scale(1e3); householderQR((const double*)A.data(), n, m, Q.data(), R.data(), W.data()); same(A, A0, "matrix kept");
    for (int j = 0; j < m; ++j) for (int i = j + 1; i < m; ++i) vc_eq(R[i + m * j], 0, "R is upper triangular"); same(mul(Q, R, n, m, m), A0, "A = Q R"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) T[i + n * j] = Q[j + n * i]; same(mul(T, Q, n, n, n), ident(n), "Q is orthogonal"); vc_cover("QR");
}
VC(QR1) { int n = (int)vc_choose("N", 1, 4); qr(n, 1, any(n, "A")); }
// two columns. Every first column is r u with a unit vector u, every second one c u + w e with a unit vector e orthogonal to u (u, e over all values of the rational
// parametrisations of circle and sphere; their missing points are reached by the signs of r and w)
VC(QR2) {
    double r = vc_real("r", -2, 2), s = vc_real("s", -1, 1), d = 1 + s * s; V A{r * (1 - s * s) / d, 2 * r * s / d, vc_real("b", -1, 1), vc_real("b", -1, 1)}; if (vc_choose("first column zero", 0, 1)) A[0] = A[1] = 0; qr(2, 2, A);
}
VC(QR_dense) {
    vc_bounded("dense matrices drawn from a generator"); int n = (int)vc_choose("N", 2, 5), m = (int)vc_choose("M", 1, 5), kind = (int)vc_choose("kind", 0, 3); vc_assume(m <= n); unsigned r = 9 + 7 * n + 31 * m + (unsigned)vc_choose("seed", 0, 2); V A(n * m); for (auto& x : A) { r = r * 1664525u + 1013904223u; x = kind == 0 ? (double)(int)(r >> 12) / 1048576. - 0.5 : kind == 1 ? (double)(int)(r >> 28) - 8 : kind == 2 ? (double)((int)(r >> 20) % 3 - 1) : 1e-9 * (double)(r >> 25); }
    if (kind == 1 && m > 1) for (int i = 0; i < n; ++i) A[i + n * (m - 1)] = 2 * A[i]; qr(n, m, A);
}
// longer shapes: sparse patterns with arbitrary entries, whole zero columns included
VC(QR_patterns) {
    vc_bounded("patterns of zeros"); int k = (int)vc_choose("pattern", 0, 5), n = k < 3 ? 3 : 4, m = k == 3 ? 4 : 3; static const int P[6][16] = {{1, 0, 0, 1, 1, 0, 1, 1, 1}, {0, 1, 0, 0, 1, 0, 1, 0, 1}, {0, 0, 0, 1, 0, 1, 0, 0, 0}, {0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0}, {1, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 0}};
    V A(n * m); for (int i = 0; i < n * m; ++i) A[i] = P[k][i] ? vc_real("a", -1, 1) : 0; qr(n, m, A);
}
VC_NEG(QR) { V A = any(2, "A"), Q = undef(4), R = undef(1), W = undef(5); householderQR((const double*)A.data(), 2, 1, Q.data(), R.data(), W.data()); vc_eq(R[0], A[0], "wrong"); }
