// VCFLAGS: timeout=100 eigen=1
// C20, the same functions built with Eigen (WITH_EIGEN): proved where the code stays small, bounded runs of concrete matrices (here and in the native runs) for the rest
#include "common.h"
#include "anifem++/fem/geometry.h"
using namespace Ani; typedef std::vector<double> V; typedef std::vector<int> I;
static V undef(size_t n) { V v(n); if (n) vc_undef(v.data(), n * sizeof(double)); return v; }
static I undefi(size_t n) { I v(n); if (n) vc_undef(v.data(), n * sizeof(int)); return v; }
static V any(size_t n, const char* s) { V v(n); for (auto& x : v) x = vc_real(s, -2, 2); return v; }
static V mul(const V& a, const V& b, int n, int k, int m) { V c(n * m, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int l = 0; l < k; ++l) c[i + n * j] += a[i + n * l] * b[l + k * j]; return c; }
static V tr(const V& a, int n, int m) { V c(n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[j + m * i] = a[i + n * j]; return c; }
static void same(const V& a, const V& b, const char* l, double tol = 1e-8) { vc_check(a.size() == b.size(), "size"); double s = 1; for (double x : b) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < b.size(); ++i) vc_near(a[i], b[i], tol * s, l); }
static V ident(int n) { V e(n * n, 0.); for (int i = 0; i < n; ++i) e[i + n * i] = 1; return e; }
template<class F> static bool refuses(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
struct Rnd { unsigned r; double operator()() { r = r * 1664525u + 1013904223u; return (double)(int)(r >> 12) / 524288. - 1; } };
static Rnd gen(int a, int b, int c) { Rnd r{17u + 7u * a + 31u * b + 1009u * c}; if (!vc_symbolic()) { double z = vc_real("seed", 0, 1); r.r += (unsigned)(z * 1e6) * 7919u; } return r; }
// dense well-conditioned matrix: rotations of a diagonal
static V good(Rnd& r, int n) { V A(n * n); for (auto& x : A) x = r(); for (int i = 0; i < n; ++i) A[i + n * ((i + 1) % n)] += A[i + n * ((i + 1) % n)] > 0 ? n : -n; return A; }
VC(eigen_cholesky) {
    vc_bounded("concrete positive definite and indefinite matrices"); int n = (int)vc_choose("N", 1, 6), m = (int)vc_choose("M", 1, 3), alias = (int)vc_choose("X is B", 0, 1), seed = (int)vc_choose("seed", 0, 3); Rnd r = gen(n, m, seed); V L = good(r, n), A = mul(L, tr(L, n, n), n, n, n), A0 = A, B(n * m), X = undef(n * m), Y = undef(n * n), W = undef(n * (n + 1) / 2); for (auto& x : B) x = r(); V B0 = B;
    cholesky_solve((const double*)A.data(), (const double*)B.data(), n, m, alias ? B.data() : X.data(), W.data()); same(mul(A, alias ? B : X, n, n, m), B0, "A X = B"); if (!alias) same(B, B0, "right-hand side kept", 0); same(A, A0, "matrix kept", 0); cholesky_inverse((const double*)A.data(), Y.data(), n, W.data()); same(mul(A, Y, n, n, n), ident(n), "A inv(A) = 1");
    A[(n - 1) + n * (n - 1)] -= 1000 * n; vc_check(refuses([&] { cholesky_solve((const double*)A.data(), (const double*)B.data(), n, m, X.data(), W.data()); }), "a matrix that is not positive definite is reported"); vc_check(refuses([&] { cholesky_inverse((const double*)A.data(), Y.data(), n, W.data()); }), "a matrix that is not positive definite is reported"); vc_cover("cholesky");
}
VC(eigen_LU) {
    vc_bounded("concrete regular and singular matrices"); int n = (int)vc_choose("N", 1, 6), m = (int)vc_choose("M", 1, 3), alias = (int)vc_choose("aliased", 0, 1), seed = (int)vc_choose("seed", 0, 3), k = (int)vc_choose("kind", 0, 1); Rnd r = gen(n, m, seed); V A = good(r, n), B(n * m), X = undef(n * m), Y = undef(n * n), W = undef(n * (n + std::max(n, m))); I w = undefi(2 * n); if (seed == 3) for (auto& x : A) x *= 1e-9; for (auto& x : B) x = r(); if (k) for (int i = 0; i < n; ++i) A[i + n * (n - 1)] = n == 1 ? 0 : 2 * A[i]; V A0 = A, B0 = B;
    if (k) { vc_check(refuses([&] { fullPivLU_solve((const double*)A.data(), (const double*)B.data(), n, m, X.data(), W.data(), w.data()); }), "a singular matrix is reported"); vc_check(refuses([&] { fullPivLU_inverse((const double*)A.data(), Y.data(), n, W.data(), w.data()); }), "a singular matrix is reported"); return; }
    fullPivLU_solve((const double*)A.data(), (const double*)B.data(), n, m, alias ? B.data() : X.data(), W.data(), w.data()); same(mul(A, alias ? B : X, n, n, m), B0, "A X = B"); if (!alias) same(B, B0, "right-hand side kept", 0); same(A, A0, "matrix kept", 0); fullPivLU_inverse((const double*)A.data(), alias ? A.data() : Y.data(), n, W.data(), w.data()); same(mul(A0, alias ? A : Y, n, n, n), ident(n), "A inv(A) = 1"); if (!alias) same(A, A0, "matrix kept", 0); vc_cover("LU");
}
VC(eigen_QR) {
    vc_bounded("concrete matrices"); int n = (int)vc_choose("N", 1, 6), m = (int)vc_choose("M", 1, 6), seed = (int)vc_choose("seed", 0, 3); vc_assume(m <= n); Rnd r = gen(n, m, seed); V A(n * m), Q = undef(n * n), R = undef(m * m), W = undef(n * m + n + m); for (auto& x : A) { x = r(); if (seed == 1) x = x > 0 ? 1 : 0; if (seed == 2) x *= 1e-9; } if (seed == 3 && m > 1) for (int i = 0; i < n; ++i) A[i] = 0; V A0 = A; double sc = 0; for (double x : A) sc = std::max(sc, std::fabs(x));
    householderQR((const double*)A.data(), n, m, Q.data(), R.data(), W.data()); same(A, A0, "matrix kept", 0); for (int j = 0; j < m; ++j) for (int i = j + 1; i < m; ++i) vc_near(R[i + m * j], 0, 0, "R is upper triangular"); V P = mul(Q, R, n, m, m); for (int i = 0; i < n * m; ++i) vc_near(P[i], A0[i], 1e-8 * sc, "A = Q R"); same(mul(tr(Q, n, n), Q, n, n, n), ident(n), "Q is orthogonal"); vc_cover("QR");
}
VC(eigen_SVD) {
    vc_bounded("concrete matrices"); int n = (int)vc_choose("N", 1, 5), m = (int)vc_choose("M", 1, 5), seed = (int)vc_choose("seed", 0, 3), opt = (int)vc_choose("U, V wanted", 0, 3); Rnd r = gen(n, m, seed); int K = std::min(n, m); V A(n * m), U = undef(n * n), S = undef(K), W = undef(m * m), mem = undef(2 * K * K + K); for (auto& x : A) { x = r(); if (seed == 1) x = x > 0.3 ? 1 : 0; if (seed == 2) x *= 1e-9; } if (seed == 3) for (int i = 0; i < n; ++i) A[i + n * (m - 1)] = A[i]; V A0 = A; double sc = 0, f = 0, g = 0; for (double x : A) sc = std::max(sc, std::fabs(x)); if (sc == 0) sc = 1;
    int e = jacobiSVD((const double*)A.data(), n, m, opt & 1 ? nullptr : U.data(), S.data(), opt & 2 ? nullptr : W.data(), mem.data()); vc_check(e == 0, "converges"); same(A, A0, "matrix kept", 0); for (int k = 0; k < K; ++k) vc_check(S[k] >= 0 && (!k || S[k] <= S[k - 1]), "singular values decrease"); for (double x : A) f += x / sc * (x / sc); for (double x : S) g += x / sc * (x / sc); vc_near(f, g, 1e-8 * (1 + f), "sum of squares of the singular values");
    if (!(opt & 1)) same(mul(tr(U, n, n), U, n, n, n), ident(n), "U is orthogonal"); if (!(opt & 2)) same(mul(tr(W, m, m), W, m, m, m), ident(m), "V is orthogonal"); if (!opt) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double v = 0; for (int k = 0; k < K; ++k) v += U[i + n * k] * S[k] * W[j + m * k]; vc_near(v, A0[i + n * j], 1e-8 * sc, "A = U S V^T"); } vc_cover("SVD");
}
