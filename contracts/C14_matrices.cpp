// VCFLAGS: timeout=300
// C14, second order: every operation of PhysArr, PhysMtx and SymMtx equals its definition on full index arrays, for all component values (dimensions 2, 3, 4;
// the class templates have a closed-form specialisation for 3 and one generic body for every other dimension).
#define ABSTRACT_INVERSE
#include "tensors.h"
template<sz N> void full() {
    const Mat<N> A = anyF<N>("A"), B = anyF<N>("B"); auto f = anyV<N>("f"), s = anyV<N>("s"); PhysMtx<N> a = mk(A), b = mk(B); const PhysMtx<N> ca = a, cb = b; PhysArr<N> F(f), S(s); double t = vc_real("t", -2, 2); vc_scale(20);
    vc_eq(ca.Trace(), trace(A), "trace"); vc_eq(ca.SquareFrobNorm(), dot(A, A), "squared norm"); vc_eq(ca.Dot(cb), dot(A, B), "double contraction"); vc_eq(ca.Dot(F, S), form(A, f, s), "f.A.s");
    is(un(a * cb), mul(A, B), "product"); is(un(ca.Transpose()), tr(A), "transpose"); is(un(ca.Sym()), lin(0.5, A, 0.5, tr(A)), "symmetric part");
    is(un(ca - PhysMtx<N>(ca.Sym())), lin(0.5, A, -0.5, tr(A)), "skew part"); is(un(PhysMtx<N>::Identity()), one<N>(), "identity"); is(un(PhysMtx<N>::Identity(t)), lin(t, one<N>(), 0, one<N>()), "scaled identity");
    auto u = ca.Mul(f); PhysArr<N> v = ca.Mul(F); for (sz i = 0; i < N; ++i) { double e = 0; for (sz j = 0; j < N; ++j) e += A[i][j] * f[j]; vc_eq(u[i], e, "matrix times array"); vc_eq(v[i], e, "matrix times vector"); }
    auto sq = un(PhysMtx<N>::TensorSquare(F)), sm = un(PhysMtx<N>::TensorSymMul2(F, S)); for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { vc_eq(sq[i][j], f[i] * f[j], "f x f"); vc_eq(sm[i][j], f[i] * s[j] + s[i] * f[j], "f x s + s x f"); }
    is(un(ca), A, "operand kept"); is(un(cb), B, "operand kept");
    double row[N * N], col[N * N]; std::array<double, N * N> ra, cl; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { ra[N * i + j] = row[N * i + j] = A[i][j]; cl[i + N * j] = col[i + N * j] = A[i][j]; }
    is(un(PhysMtx<N>(row)), A, "from rows"); is(un(PhysMtx<N>(row, true)), A, "from rows"); is(un(PhysMtx<N>(col, false)), A, "from columns"); is(un(PhysMtx<N>(ra)), A, "from array of rows"); is(un(PhysMtx<N>(cl, false)), A, "from array of columns");
    for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) {
        vc_eq(ca(i, j), A[i][j], "(i, j)"); vc_eq(ca(std::array<sz, 1>{i}, std::array<sz, 1>{j}), A[i][j], "({i}, {j})"); vc_eq(ca(std::array<sz, 2>{i, j}), A[i][j], "({i, j})"); vc_check(ca.index_duplication(N * i + j) == 1, "duplication");
        double o = b(i, j); b(i, j) = t; vc_eq(b.m_dat[N * i + j], t, "write (i, j)"); b(std::array<sz, 1>{i}, std::array<sz, 1>{j}) = 2 * t; vc_eq(b.m_dat[N * i + j], 2 * t, "write ({i}, {j})"); b(std::array<sz, 2>{i, j}) = o; }
    is(un(b), B, "writes touch one component"); vc_check(ca.rank() == 2 && ca.continuous_size() == N * N && a.end() - a.begin() == N * N && ca.cend() - ca.cbegin() == N * N && &*a.begin() == &a.m_dat[0], "size and iterators");
    vc_cover("full matrices");
}
template<sz N> void symm() {
    const Mat<N> A = anyS<N>("A"), B = anyS<N>("B"); auto f = anyV<N>("f"), s = anyV<N>("s"); SymMtx<N> a = mkS(A), b = mkS(B); const SymMtx<N> ca = a, cb = b; PhysArr<N> F(f), S(s); double t = vc_real("t", -2, 2); vc_scale(20);
    vc_eq(ca.Trace(), trace(A), "trace"); vc_eq(ca.SquareFrobNorm(), dot(A, A), "squared norm"); vc_eq(ca.Dot(cb), dot(A, B), "double contraction"); vc_eq(ca.Dot(F, S), form(A, f, s), "f.A.s");
    is(un(a * ca), mul(A, A), "square"); is(un(ca.Transpose()), A, "transpose"); is(un(SymMtx<N>::Identity()), one<N>(), "identity"); is(un(SymMtx<N>::Identity(t)), lin(t, one<N>(), 0, one<N>()), "scaled identity");
    // commuting operands: polynomials of one matrix
    SymMtx<N> p = ca * t + SymMtx<N>::Identity(2.); is(un(p * ca), lin(t, mul(A, A), 2, A), "product of commuting matrices");
    auto u = ca.Mul(f); PhysArr<N> v = ca.Mul(F); for (sz i = 0; i < N; ++i) { double e = 0; for (sz j = 0; j < N; ++j) e += A[i][j] * f[j]; vc_eq(u[i], e, "matrix times array"); vc_eq(v[i], e, "matrix times vector"); }
    auto sq = un(SymMtx<N>::TensorSquare(F)), sm = un(SymMtx<N>::TensorSymMul2(F, S)); for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { vc_eq(sq[i][j], f[i] * f[j], "f x f"); vc_eq(sm[i][j], f[i] * s[j] + s[i] * f[j], "f x s + s x f"); }
    is(un(ca), A, "operand kept"); is(un(SymMtx<N>(ca.m_dat)), A, "from array");
    for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) {
        typename SymMtx<N>::Index id(i, j); sz c = posS<N>(i, j); vc_check(id.i == std::min(i, j) && id.j == std::max(i, j) && id[0] == id.i && id[1] == id.j && id == typename SymMtx<N>::Index(j, i), "index is ordered");
        vc_check(SymMtx<N>::continuous_index(id) == c && SymMtx<N>::index(c) == id && ca.index_duplication(c) == (i == j ? 1u : 2u), "index and position");
        vc_eq(ca(i, j), A[i][j], "(i, j)"); vc_eq(ca[id], A[i][j], "[index]"); vc_eq(ca(std::array<sz, 1>{i}, std::array<sz, 1>{j}), A[i][j], "({i}, {j})"); vc_eq(ca(std::array<sz, 2>{i, j}), A[i][j], "({i, j})");
        double o = b.m_dat[c]; b(i, j) = t; vc_eq(b.m_dat[c], t, "write (i, j)"); b(std::array<sz, 1>{i}, std::array<sz, 1>{j}) = 2 * t; vc_eq(b.m_dat[c], 2 * t, "write ({i}, {j})"); b[id] = 3 * t; vc_eq(b.m_dat[c], 3 * t, "write [index]"); b(std::array<sz, 2>{i, j}) = o; }
    is(un(b), B, "writes touch one component"); vc_check(ca.rank() == 2 && ca.continuous_size() == N * (N + 1) / 2, "size");
    typename SymMtx<N>::Index z; vc_check(z.i == 0 && z.j == 0, "default index"); vc_cover("symmetric matrices");
}
template<sz N> void mixed() {
    const Mat<N> A = anyS<N>("A"), B = anyF<N>("B"); const SymMtx<N> a = mkS(A); const PhysMtx<N> b = mk(B), fa = mk(A); vc_scale(10);
    is(un(PhysMtx<N>(a)), A, "symmetric to full"); is(un(a * b), mul(A, B), "symmetric times full"); is(un(b * a), mul(B, A), "full times symmetric"); is(un(a + b), lin(1, A, 1, B), "symmetric + full"); is(un(b + a), lin(1, A, 1, B), "full + symmetric");
    is(un(a - b), lin(1, A, -1, B), "symmetric - full"); is(un(b - a), lin(-1, A, 1, B), "full - symmetric"); is(un(fa.Sym()), A, "symmetric part of a symmetric matrix");
    is(un(tensor_convert<PhysMtx<N>>(a)), A, "convert to full"); is(un(tensor_convert<SymMtx<N>>(fa)), A, "convert to symmetric"); is(un(tensor_convert<PhysMtx<N>>(b)), B, "convert to itself"); is(un(tensor_convert<SymMtx<N>>(a)), A, "convert to itself");
    auto ab = tensor_convert<PhysArr<N * N>>(b); auto aa = tensor_convert<PhysArr<N * N>>(a); auto as = tensor_convert<PhysArr<N * (N + 1) / 2>>(a);
    for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { vc_eq(ab[j + N * i], B[i][j], "full to array"); vc_eq(aa[j + N * i], A[i][j], "symmetric to full array"); vc_eq(as[posS<N>(i, j)], A[i][j], "symmetric to array"); }
    is(un(tensor_convert<PhysMtx<N>>(ab)), B, "array to full"); is(un(tensor_convert<SymMtx<N>>(aa)), A, "full array to symmetric"); is(un(tensor_convert<SymMtx<N>>(as)), A, "array to symmetric"); vc_cover("mixed");
}
template<sz N> void arrays() {
    auto f = anyV<N>("f"), s = anyV<N>("s"); double a = vc_real("a", -2, 2); vc_nonzero(a); const PhysArr<N> F(f), S(s); PhysArr<N> Z; double n = 0, d = 0; for (sz i = 0; i < N; ++i) { n += f[i] * f[i]; d += f[i] * s[i]; vc_eq(Z[i], 0, "default is zero"); }
    vc_eq(F.SquareFrobNorm(), n, "squared norm"); vc_eq(F.Dot(S), d, "scalar product"); auto P = F + S, M = F - S, U = -F, K = F * a, L = a * F, D = F / a; PhysArr<N> p = F, m = F, k = F, q = F; p += S; m -= S; k *= a; q /= a; PhysArr<N> I{f[0]}; std::array<double, N> ff = f; PhysArr<N> mv(std::move(ff)); PhysArr<N> C = tensor_convert<PhysArr<N>>(F);
    for (sz i = 0; i < N; ++i) { vc_eq(P[i], f[i] + s[i], "x + y"); vc_eq(p[i], f[i] + s[i], "x += y"); vc_eq(M[i], f[i] - s[i], "x - y"); vc_eq(m[i], f[i] - s[i], "x -= y"); vc_eq(U[i], -f[i], "-x"); vc_eq(K[i], a * f[i], "x * a"); vc_eq(L[i], a * f[i], "a * x"); vc_eq(k[i], a * f[i], "x *= a"); vc_eq(D[i], f[i] / a, "x / a"); vc_eq(q[i], f[i] / a, "x /= a");
        vc_eq(I[i], i == 0 ? f[0] : 0, "short initialiser list"); vc_eq(mv[i], f[i], "from array"); vc_eq(F(std::array<sz, 1>{i}), f[i], "({i})"); p(std::array<sz, 1>{i}) = a; vc_eq(p[i], a, "write ({i})"); vc_eq(C[i], f[i], "convert"); vc_check(F.index_duplication(i) == 1, "duplication"); }
    PhysArr<N> J{f[0], f[1], f[0], f[1], f[0], f[1]}; for (sz i = 0; i < N; ++i) vc_eq(J[i], f[i % 2], "long initialiser list"); vc_check(F.rank() == 1 && F.continuous_size() == N, "size"); vc_cover("arrays");
}
template<sz N> void determinant(bool s) {
    const Mat<N> A = s ? anyS<N>("A") : anyF<N>("A"); vc_scale(10); vc_eq(s ? mkS(A).Det() : mk(A).Det(), det(A), "determinant"); vc_cover("determinant");
}
template<sz N> void inverse() {
    const Mat<N> A = anyF<N>("A"), B = anyS<N>("B"); std::vector<double> a, b; for (auto& r : A.a) a.insert(a.end(), r, r + N); for (auto& r : B.a) b.insert(b.end(), r, r + N); const PhysMtx<N> m = mk(A); const SymMtx<N> s = mkS(B); auto x = un(m.Inv()), y = un(s.Inv());
    for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { vc_eq(x[i][j], spec_inverse((int)(N * i + j), a), "the inverse is taken from the solver"); if (i <= j) vc_eq(y[i][j], spec_inverse((int)(N * i + j), b), "the inverse is taken from the solver"); } is(un(m), A, "operand kept"); is(un(s), B, "operand kept"); vc_cover("inverse");
}
VC(full2) { full<2>(); } VC(full3) { full<3>(); } VC(full4) { full<4>(); }
VC(symm2) { symm<2>(); } VC(symm3) { symm<3>(); } VC(symm4) { symm<4>(); }
VC(mixed2) { mixed<2>(); } VC(mixed3) { mixed<3>(); } VC(mixed4) { mixed<4>(); }
VC(arrays) { switch (vc_choose("N", 2, 5)) { case 2: return arrays<2>(); case 3: return arrays<3>(); case 4: return arrays<4>(); default: return arrays<5>(); } }
VC(linear) { switch (vc_choose("class", 0, 5)) { case 0: return linear<PhysMtx<2>>(); case 1: return linear<PhysMtx<3>>(); case 2: return linear<PhysMtx<4>>(); case 3: return linear<SymMtx<2>>(); case 4: return linear<SymMtx<3>>(); default: return linear<SymMtx<4>>(); } }
VC(determinant) { bool s = vc_choose("symmetric", 0, 1); switch (vc_choose("N", 1, 3)) { case 1: return determinant<1>(s); case 2: return determinant<2>(s); default: return determinant<3>(s); } }
// every matrix is P L U with the multipliers of rows above the pivot's place below one in absolute value and the others at most one (partial pivoting); singular matrices included
VC(determinant4) {
    static int perm[24][4]; int n = 0; for (int p = 0; p < 256; ++p) { int a[4] = {p & 3, p >> 2 & 3, p >> 4 & 3, p >> 6}; if ((1 << a[0] | 1 << a[1] | 1 << a[2] | 1 << a[3]) == 15) { for (int k = 0; k < 4; ++k) perm[n][k] = a[k]; ++n; } }
#ifdef VC_THOROUGH
    const int* p = perm[vc_choose("rows of the pivots", 0, 23)];
#else
    const int* p = perm[7 * vc_choose("rows of the pivots (every seventh)", 0, 3) + 2];
#endif
    double L[4][4] = {}, U[4][4] = {}; int sign = 1; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (p[j] > p[i]) sign = -sign;
    for (int i = 0; i < 4; ++i) { L[i][i] = 1; for (int j = 0; j < i; ++j) { L[i][j] = vc_real("l", -1, 1); if (p[i] < p[j]) vc_assume((L[i][j] < 1) & (L[i][j] > -1)); else vc_assume((L[i][j] <= 1) & (L[i][j] >= -1)); } for (int j = i; j < 4; ++j) U[i][j] = vc_real("u", -1, 1); vc_nonzero(U[i][i]); }
    Mat<4> A = zero<4>(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) A[p[i]][j] += L[i][k] * U[k][j];
    double d = sign * U[0][0] * U[1][1] * U[2][2] * U[3][3]; vc_eq(mk(A).Det(), d, "determinant"); vc_cover("determinant4");
}
VC(determinant_numbers) {
    vc_bounded("matrices with integer entries"); int k = (int)vc_choose("matrix", 0, 59); unsigned r = 12345 + 977 * k; auto next = [&r]() { r = r * 1664525u + 1013904223u; return (double)(int)(r >> 24 & 7) - 3; }; const double unit = k % 3 == 0 ? 1e-9 : k % 3 == 1 ? 1 : 1e9;
    Mat<4> A, S; for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) { S[i][j] = S[j][i] = unit * next(); A[i][j] = unit * next(); A[j][i] = unit * next(); } if (k % 5 == 0) for (int j = 0; j < 4; ++j) { A[2][j] = A[0][j] + A[1][j]; S[j][3] = S[3][j] = S[j][0]; if (j == 3) S[3][3] = S[0][0]; }
    double u = unit * unit * unit * unit; vc_near(mk(A).Det() / u, det(A) / u, 1e-10, "determinant"); vc_near(mkS(S).Det() / u, det(S) / u, 1e-10, "determinant"); vc_cover("numbers");
}
VC(inverse) { if (vc_choose("N", 0, 1)) inverse<2>(); else inverse<4>(); }
VC(inverse3) {
    const Mat<3> A = anyF<3>("A"), B = anyS<3>("B"); const PhysMtx<3> a = mk(A); const SymMtx<3> b = mkS(B); auto adj = [](const Mat<3>& m) { Mat<3> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int p = (i + 1) % 3, q = (i + 2) % 3, u = (j + 1) % 3, v = (j + 2) % 3; r[j][i] = m[p][u] * m[q][v] - m[p][v] * m[q][u]; } return r; }; vc_scale(10);
    is(un(a.Adj()), adj(A), "adjugate"); is(un(b.Adj()), adj(B), "adjugate"); is(mul(un(a.Adj()), A), lin(det(A), one<3>(), 0, A), "adjugate times matrix"); vc_nonzero(det(A)); vc_nonzero(det(B)); auto x = un(a.Inv()), y = un(b.Inv()); vc_scale(1e6);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vc_eq(x[i][j] * det(A), adj(A)[i][j], "inverse"); vc_eq(y[i][j] * det(B), adj(B)[i][j], "inverse"); } vc_cover("inverse3");
}
VC(triangles) { auto t = [](auto z) { constexpr sz N = decltype(z)::value; const Mat<N> A = anyS<N>("A"); std::array<double, N * (N + 1) / 2> up, lo; for (sz i = 0; i < N; ++i) for (sz j = 0; j <= i; ++j) { lo[i * (i + 1) / 2 + j] = A[i][j]; up[posS<N>(j, i)] = A[i][j]; } is(un(SymMtx<N>(up, true)), A, "rows of the upper triangle"); is(un(SymMtx<N>(lo, false)), A, "rows of the lower triangle"); vc_cover("triangles"); };
    t(std::integral_constant<sz, 2>()); t(std::integral_constant<sz, 4>()); }
