// Definitions used by the C14 contracts: tensors as plain arrays indexed by all their indices, and the documented storage order of each class.
#pragma once
#include "common.h"
#include <vector>
#include <cmath>
#include "anifem++/fem/geometry.h"
#ifdef ABSTRACT_INVERSE
// contract of the callee: fullPivLU_inverse reads N*N numbers and may use 2*N*N reals and 2*N integers of work memory; which numbers it returns is left open
namespace Ani {
static double spec_inverse(int k, const std::vector<double>& A) { double h = k; for (double a : A) h = vc_uf2("inverse", h, a); return h; }
template<typename Scalar> inline void spec_fullPivLU_inverse(const Scalar* A, Scalar* Inv, int N, Scalar* mem, int* imem) {
    std::vector<double> a(A, A + N * N); vc_undef(mem, sizeof(Scalar) * 2 * N * N); vc_undef(imem, sizeof(int) * 2 * N);
    for (int i = 0; i < N * N; ++i) Inv[i] = spec_inverse(i, a);
} }
#define fullPivLU_inverse spec_fullPivLU_inverse
#endif
#include "anifem++/autodiff/physical_tensors.h"
#undef fullPivLU_inverse
using namespace Ani;
typedef std::size_t sz;
template<sz N> struct Mat { double a[N][N]; double* operator[](sz i) { return a[i]; } const double* operator[](sz i) const { return a[i]; } };
template<sz N> struct Ten { double a[N][N][N][N]; };
inline sz tri(sz n, sz i, sz j) { if (i > j) std::swap(i, j); sz p = 0; for (sz r = 0; r < i; ++r) p += n - r; return p + j - i; }
template<sz N> sz posS(sz i, sz j) { return tri(N, i, j); }
template<sz N> sz posST(sz i, sz j, sz k, sz l) { return tri(N * N, j + N * i, l + N * k); }
template<sz N> sz posB(sz i, sz j, sz k, sz l) { return tri(N * (N + 1) / 2, tri(N, i, j), tri(N, k, l)); }
template<sz N> sz posT(sz i, sz j, sz k, sz l) { return l + N * (k + N * (j + N * i)); }
template<sz N> Mat<N> anyF(const char* n) { Mat<N> m; for (auto& r : m.a) for (auto& x : r) x = vc_real(n, -1, 1); return m; }
template<sz N> Mat<N> anyS(const char* n) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = i; j < N; ++j) m[i][j] = m[j][i] = vc_real(n, -1, 1); return m; }
template<sz N> std::array<double, N> anyV(const char* n) { std::array<double, N> v; for (auto& x : v) x = vc_real(n, -1, 1); return v; }
// arrays read as the classes promise to store them
template<sz N> PhysMtx<N> mk(const Mat<N>& m) { PhysMtx<N> r; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) r.m_dat[N * i + j] = m[i][j]; return r; }
template<sz N> SymMtx<N> mkS(const Mat<N>& m) { SymMtx<N> r; for (sz i = 0; i < N; ++i) for (sz j = i; j < N; ++j) r.m_dat[posS<N>(i, j)] = m[i][j]; return r; }
template<sz N> PhysArr<N> mkV(const std::array<double, N>& v) { return PhysArr<N>(v); }
template<sz N> Mat<N> un(const PhysMtx<N>& t) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) m[i][j] = t.m_dat[N * i + j]; return m; }
template<sz N> Mat<N> un(const SymMtx<N>& t) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) m[i][j] = t.m_dat[posS<N>(i, j)]; return m; }
template<sz N> Mat<N> mul(const Mat<N>& a, const Mat<N>& b) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) { m[i][j] = 0; for (sz k = 0; k < N; ++k) m[i][j] += a[i][k] * b[k][j]; } return m; }
template<sz N> Mat<N> tr(const Mat<N>& a) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) m[i][j] = a[j][i]; return m; }
template<sz N> double trace(const Mat<N>& a) { double s = 0; for (sz i = 0; i < N; ++i) s += a[i][i]; return s; }
template<sz N> double dot(const Mat<N>& a, const Mat<N>& b) { double s = 0; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) s += a[i][j] * b[i][j]; return s; }
template<sz N> double form(const Mat<N>& a, const std::array<double, N>& f, const std::array<double, N>& s) { double r = 0; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) r += f[i] * a[i][j] * s[j]; return r; }
inline double minor_det(const std::vector<std::vector<double>>& m) {
    sz n = m.size(); if (n == 1) return m[0][0];
    double d = 0; for (sz c = 0; c < n; ++c) { std::vector<std::vector<double>> k; for (sz i = 1; i < n; ++i) { std::vector<double> r; for (sz j = 0; j < n; ++j) if (j != c) r.push_back(m[i][j]); k.push_back(r); } d += (c % 2 ? -1 : 1) * m[0][c] * minor_det(k); }
    return d;
}
template<sz N> double det(const Mat<N>& a) { std::vector<std::vector<double>> m(N, std::vector<double>(N)); for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) m[i][j] = a[i][j]; return minor_det(m); }
template<sz N> void is(const Mat<N>& x, const Mat<N>& e, const char* l) { for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) vc_eq(x[i][j], e[i][j], l); }
template<sz N> Mat<N> lin(double a, const Mat<N>& x, double b, const Mat<N>& y) { Mat<N> m; for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) m[i][j] = a * x[i][j] + b * y[i][j]; return m; }
template<sz N> Mat<N> zero() { Mat<N> m; for (auto& r : m.a) for (auto& x : r) x = 0; return m; }
template<sz N> Mat<N> one() { Mat<N> m = zero<N>(); for (sz i = 0; i < N; ++i) m[i][i] = 1; return m; }
// component-wise operations of any of the classes (stored numbers x, y)
template<class T> T anyT(const char* n) { T t; for (auto& x : t.m_dat) x = vc_real(n, -1, 1); return t; }
template<class T> void sameData(const T& t, const std::vector<double>& e, const char* l) { vc_check(t.m_dat.size() == e.size() && t.continuous_size() == e.size(), "size"); for (sz i = 0; i < e.size(); ++i) vc_eq(t.m_dat[i], e[i], l); }
template<class T> void linear() {
    T x = anyT<T>("x"), y = anyT<T>("y"); double a = vc_real("a", -2, 2); vc_nonzero(a); const T cx = x, cy = y; sz n = x.m_dat.size();
    std::vector<double> s(n), d(n), m(n), p(n), q(n), X(x.m_dat.begin(), x.m_dat.end()), Y(y.m_dat.begin(), y.m_dat.end());
    for (sz i = 0; i < n; ++i) { s[i] = X[i] + Y[i]; d[i] = X[i] - Y[i]; m[i] = -X[i]; p[i] = X[i] * a; q[i] = X[i] / a; }
    sameData(cx + cy, s, "x + y"); sameData(cx - cy, d, "x - y"); sameData(-cx, m, "-x"); sameData(cx * a, p, "x * a"); sameData(a * cx, p, "a * x"); sameData(cx / a, q, "x / a");
    T z = cx; vc_check(&(z += cy) == &z, "+= returns its object"); sameData(z, s, "x += y"); z = cx; z -= cy; sameData(z, d, "x -= y"); z = cx; z *= a; sameData(z, p, "x *= a"); z = cx; z /= a; sameData(z, q, "x /= a");
    sameData(cx, X, "operand kept"); sameData(cy, Y, "operand kept"); T e; for (auto v : e.m_dat) vc_eq(v, 0, "default is zero");
    for (sz i = 0; i < n; ++i) { vc_eq(cx[i], X[i], "continuous access"); x[i] = Y[i]; } sameData(x, Y, "continuous write");
    vc_cover("linear operations");
}
