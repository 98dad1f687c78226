// VCFLAGS: timeout=120 eigen=0
// C20: singular value decomposition. Gram matrices, ordering, orthonormalisation and the recovery of singular vectors from eigenvectors are proved as contracts of the
// functions; the convergence of the sweeps of rotations is covered by bounded concrete runs (see jacobiSVD).
#include "common.h"
#include "anifem++/fem/geometry.h"
using namespace Ani; typedef std::vector<double> V; typedef std::vector<int> I;
static V undef(size_t n) { V v(n); if (n) vc_undef(v.data(), n * sizeof(double)); return v; }
static V any(size_t n, const char* s) { V v(n); for (auto& x : v) x = vc_real(s, -2, 2); return v; }
static V ident(int n) { V e(n * n, 0.); for (int i = 0; i < n; ++i) e[i + n * i] = 1; return e; }
static V mul(const V& a, const V& b, int n, int k, int m) { V c(n * m, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int l = 0; l < k; ++l) c[i + n * j] += a[i + n * l] * b[l + k * j]; return c; }
static V tr(const V& a, int n, int m) { V c(n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[j + m * i] = a[i + n * j]; return c; }
static void same(const V& a, const V& b, const char* l) { vc_check(a.size() == b.size(), "size"); for (size_t i = 0; i < b.size(); ++i) vc_eq(a[i], b[i], l); }
VC(gram) { int n = (int)vc_choose("N", 1, 4), m = (int)vc_choose("M", 1, 4); V A = any(n * m, "A"), A0 = A, G = undef(m * m), H = undef(n * n); vc_scale(100); detail::gram_ata((const double*)A.data(), n, m, G.data()); same(G, mul(tr(A0, n, m), A0, m, n, m), "A^T A"); detail::gram_aat((const double*)A.data(), n, m, H.data()); same(H, mul(A0, tr(A0, n, m), n, m, n), "A A^T"); same(A, A0, "matrix kept"); vc_cover("gram"); }
VC(sort) {
    int n = (int)vc_choose("n", 1, 4); V e = any(n, "eigenvalue"), q = any(n * n, "vectors"), e0 = e, q0 = q; detail::sort_eigen_desc(e.data(), q.data(), n); for (int i = 1; i < n; ++i) vc_check(e[i - 1] >= e[i], "descending");
    I used(n, 0); for (int i = 0; i < n; ++i) { int f = -1; for (int j = 0; j < n && f < 0; ++j) if (!used[j] && e[i] == e0[j]) { bool eq = true; for (int k = 0; k < n; ++k) eq = eq & (q[k + n * i] == q0[k + n * j]); if (eq) f = j; } vc_check(f >= 0, "the vector moves together with its value"); if (f >= 0) used[f] = 1; } vc_cover("sort");
}
// columns 0..j-1 orthonormal (rotated coordinate vectors), column j arbitrary: the column becomes its normalised orthogonal part and the norm of that part is returned
static V orthonormal(int n, int k) { V q(n * n); double s = vc_real("s", -1, 1), d = 1 + s * s, t = vc_real("t", -1, 1), h = 1 + t * t; q = ident(n); auto rot = [&](int a, int b, double c, double w) { for (int i = 0; i < n; ++i) { double x = q[i + n * a], y = q[i + n * b]; q[i + n * a] = c * x - w * y; q[i + n * b] = w * x + c * y; } }; if (n > 1) rot(0, 1, (1 - s * s) / d, 2 * s / d); if (n > 2 && k) rot(1, 2, (1 - t * t) / h, 2 * t / h); return q; }
VC(orthonormalize) {
    int n = (int)vc_choose("n", 1, 3), j = (int)vc_choose("column", 0, 2); vc_assume(j < n); V Q = orthonormal(n, j > 0 && n > 2), b = any(n, "b"), q = undef(n * n), r(n), keep; for (int i = 0; i < n * j; ++i) q[i] = Q[i]; for (int i = 0; i < n; ++i) q[i + n * j] = r[i] = b[i]; for (int c = 0; c < j; ++c) { double d = 0; for (int i = 0; i < n; ++i) d += Q[i + n * c] * b[i]; for (int i = 0; i < n; ++i) r[i] -= d * Q[i + n * c]; } vc_scale(10);
    double nrm2 = 0; for (double x : r) nrm2 += x * x; double g = detail::orthonormalize_col(q.data(), n, j); vc_eq(g * g, nrm2, "norm of the orthogonal part"); vc_check(g >= 0, "norm is not negative"); if (g > 0) for (int i = 0; i < n; ++i) vc_eq(q[i + n * j] * g, r[i], "normalised orthogonal part"); for (int i = 0; i < n * j; ++i) vc_eq(q[i], Q[i], "previous columns kept"); vc_cover("orthonormalize");
}
VC(complete) {
    int n = (int)vc_choose("n", 1, 3), j = (int)vc_choose("columns given", 0, 3); vc_assume(j <= n); V Q = orthonormal(n, 0), q = undef(n * n); for (int i = 0; i < n * j; ++i) q[i] = Q[i]; vc_scale(10); detail::complete_orthonormal_cols(q.data(), n, j); same(mul(tr(q, n, n), q, n, n, n), ident(n), "orthogonal matrix"); for (int i = 0; i < n * j; ++i) vc_eq(q[i], Q[i], "given columns kept"); vc_cover("complete");
}
// B = U diag(s) E^T with arbitrary s_j of different sizes (also zero) and E the eigenvectors of B^T B: the function gives back |s| in decreasing order and orthogonal matrices
VC(from_eigen) {
    int m = (int)vc_choose("m", 1, 2), n = (int)vc_choose("n", 1, 3), zero = (int)vc_choose("zero value", 0, 3), trans = (int)vc_choose("transposed storage", 0, 1), noU = (int)vc_choose("without U", 0, 1); vc_assume((m <= n) & (zero < (1 << m)) & (m == 2 || zero < 2)); V U0 = orthonormal(n, 0), E0 = m == 1 ? V{1.} : V{0.6, 0.8, -0.8, 0.6}, s0(m), B(n * m, 0.); for (int j = 0; j < m; ++j) { s0[j] = (zero >> j & 1) ? 0 : vc_real("s", 0.1, 2); if (!(zero >> j & 1)) vc_assume(s0[j] > (vc_symbolic() ? 0.001 : 0)); if (!(zero >> j & 1)) vc_assume(s0[j] < 1000); } for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < m; ++k) B[i + n * j] += U0[i + n * k] * s0[k] * E0[j + m * k];
    V S = undef(m), U = undef(n * n), E = E0, A = trans ? tr(B, n, m) : B; vc_scale(1e3); detail::svd_from_eigen((const double*)A.data(), trans ? m : 1, trans ? 1 : n, n, m, E.data(), S.data(), noU ? (double*)nullptr : U.data()); for (int j = 0; j < m; ++j) vc_check(S[j] >= 0 && (!j || S[j - 1] >= S[j]), "singular values decrease");
    if (!noU) { V R(n * m, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < m; ++k) R[i + n * j] += U[i + n * k] * S[k] * E[j + m * k]; same(R, B, "A = U S V^T"); same(mul(tr(U, n, n), U, n, n, n), ident(n), "U is orthogonal"); } same(mul(tr(E, m, m), E, m, m, m), ident(m), "V is orthogonal"); double a = 0, b = 0; for (int j = 0; j < m; ++j) { a += S[j] * S[j]; b += s0[j] * s0[j]; } vc_eq(a, b, "singular values"); vc_cover("from eigenvectors");
}
VC(jacobiSVD) {
    vc_bounded("concrete matrices up to 6x6 drawn from a generator: full, integer rank-deficient, multiple singular values, scales 1e-12..1e12"); int n = (int)vc_choose("N", 1, 6), m = (int)vc_choose("M", 1, 6), kind = (int)vc_choose("kind", 0, 3), sk = (int)vc_choose("scale", 0, 2), opt = (int)vc_choose("U, V wanted", 0, 3); unsigned r = 17 + 7 * n + 31 * m; double sc = sk == 0 ? 1 : sk == 1 ? 1e-12 : 1e12; auto rnd = [&] { r = r * 1664525u + 1013904223u; return r >> 8; };
    if (!vc_symbolic()) { double z = vc_real("seed", 0, 1); r += (unsigned)(z * 1e6) * 7919u; } V A(n * m); if (kind < 2) for (auto& x : A) x = kind ? (double)(rnd() >> 4) / (1 << 19) - 1 : (double)(int)((rnd() >> 9) % 3) - 1; else { int k = 1 + (kind == 3 ? (int)(rnd() % (unsigned)std::min(n, m)) : 0); V p(n * k), q(m * k); for (auto& x : p) x = (double)((rnd() >> 9) % 5) - 2; for (auto& x : q) x = (double)((rnd() >> 9) % 5) - 2; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { A[i + n * j] = 0; for (int l = 0; l < k; ++l) A[i + n * j] += p[i + n * l] * q[j + m * l]; } } double sz = 0; for (auto& x : A) { x *= sc; sz = std::max(sz, std::fabs(x)); } if (sz == 0) sz = 1;
    int K = std::min(n, m); V A0 = A, U = undef(n * n), S = undef(K), W = undef(m * m), mem = undef(2 * K * K + K), R = A; int e = jacobiSVD((const double*)A.data(), n, m, opt & 1 ? nullptr : U.data(), S.data(), opt & 2 ? nullptr : W.data(), mem.data()); vc_check(e == 0, "converges"); vc_check(A == A0, "matrix kept"); for (int k = 0; k < K; ++k) vc_check(S[k] >= 0 && (!k || S[k] <= S[k - 1]), "singular values decrease"); double f = 0, g = 0; for (double x : A) f += x / sz * (x / sz); for (double x : S) g += x / sz * (x / sz); vc_near(f, g, 1e-7 * (1 + f), "sum of squares of the singular values");
    if (!(opt & 1)) { V T = mul(tr(U, n, n), U, n, n, n); for (int i = 0; i < n * n; ++i) vc_near(T[i], ident(n)[i], 1e-7, "U is orthogonal"); } if (!(opt & 2)) { V T = mul(tr(W, m, m), W, m, m, m); for (int i = 0; i < m * m; ++i) vc_near(T[i], ident(m)[i], 1e-7, "V is orthogonal"); }
    if (!opt) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double v = 0; for (int k = 0; k < K; ++k) v += U[i + n * k] * S[k] / sz * W[j + m * k]; vc_near(v, A0[i + n * j] / sz, 1e-7, "A = U S V^T"); } vc_cover("SVD");
}
VC_NEG(SVD) { V A = any(4, "A"), G = undef(4); detail::gram_ata((const double*)A.data(), 2, 2, G.data()); vc_eq(G[1], 0, "wrong"); }
