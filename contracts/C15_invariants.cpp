// VCFLAGS: timeout=300
// C15: each invariant equals its definition through C = I + 2E written out with full matrices, and contracted with arbitrary symmetric directions its
// derivatives are the exact derivatives of that definition along the direction (5-point rules, exact for polynomials of degree up to 4 and 5).
#include "common.h"
#include <cmath>
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
using namespace Ani; using namespace Ani::Mech;
using S3 = SymMtx<3>; using B3 = BiSymTensor4Rank<3>; using A3 = std::array<double, 3>;
struct M { double a[3][3]; };
static M sym(const char* n) { M m; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) m.a[i][j] = m.a[j][i] = vc_real(n, -1, 1); return m; }
static M full(const char* n) { M m; for (auto& r : m.a) for (auto& x : r) x = vc_real(n, -1, 1); return m; }
static S3 pack(const M& m) { static const int I[] = {0, 0, 0, 1, 1, 2}, J[] = {0, 1, 2, 1, 2, 2}; S3 s; for (int k = 0; k < 6; ++k) s.m_dat[k] = m.a[I[k]][J[k]]; return s; }
static PhysMtx<3> packf(const M& m) { PhysMtx<3> s; for (int k = 0; k < 9; ++k) s.m_dat[k] = m.a[k / 3][k % 3]; return s; }
static int pos(int i, int j) { static const int P[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}}; return P[i][j]; }
static int pos4(int i, int j, int k, int l) { int p = pos(i, j), q = pos(k, l); if (p > q) std::swap(p, q); int id = 0; for (int r = 0; r < p; ++r) id += 6 - r; return id + q - p; }
static A3 vec(const char* n) { A3 v; for (auto& x : v) x = vc_real(n, -1, 1); return v; }
static M along(const M& e, const M& h, double t) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = e.a[i][j] + t * h.a[i][j]; return r; }
static M C(const M& e) { M c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.a[i][j] = (i == j) + 2 * e.a[i][j]; return c; }
static M mul(const M& a, const M& b) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.a[i][j] = 0; for (int k = 0; k < 3; ++k) r.a[i][j] += a.a[i][k] * b.a[k][j]; } return r; }
static double tr(const M& m) { return m.a[0][0] + m.a[1][1] + m.a[2][2]; }
static double det(const M& m) { double d = 0; static const int p[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; for (int q = 0; q < 6; ++q) d += (q < 3 ? 1 : -1) * m.a[0][p[q][0]] * m.a[1][p[q][1]] * m.a[2][p[q][2]]; return d; }
static double form(const M& m, const A3& f, const A3& s) { double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += f[i] * m.a[i][j] * s[j]; return r; }
enum { I_0, I_1, I_2, I_3, I_4, I_5 };
static double inv(int w, const M& e, const A3& f, const A3& s) {
    M c = C(e);
    switch (w) { case I_0: return f[0] * s[0] + f[1] * s[1] + f[2] * s[2]; case I_1: return tr(c); case I_2: return (tr(c) * tr(c) - tr(mul(c, c))) / 2; case I_3: return det(c); case I_4: return form(c, f, s); default: return form(mul(c, c), f, s); }
}
static double c1(const S3& d, const M& h) { double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += d.m_dat[pos(i, j)] * h.a[i][j]; return r; }
static double c2(const B3& d, const M& h) { double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) r += d.m_dat[pos4(i, j, k, l)] * h.a[i][j] * h.a[k][l]; return r; }
struct Der { double v, d, dd; };
static Der exact(int w, const M& e, const M& h, const A3& f, const A3& s) {
    double v[5]; for (int t = -2; t <= 2; ++t) v[t + 2] = inv(w, along(e, h, t), f, s);
    return Der{v[2], (8 * (v[3] - v[1]) - (v[4] - v[0])) / 12, (-v[4] + 16 * v[3] - 30 * v[2] + 16 * v[1] - v[0]) / 12};
}
static Der root(Der x) { double J = std::sqrt(x.v); return Der{J, x.d / (2 * J), x.dd / (2 * J) - x.d * x.d / (4 * J * J * J)}; }
static void is(const Der& x, double v, const S3& d, const B3& dd, const M& h) { vc_eq(v, x.v, "value"); vc_eq(c1(d, h), x.d, "first derivative"); vc_eq(c2(dd, h), x.dd, "second derivative"); }
// arbitrary stored garbage must not survive
VC(functions) {
    M e = sym("E"), h = sym("H"); A3 f = vec("f"), s = vec("s"); S3 E = pack(e); int w = (int)vc_choose("invariant", 0, 6); vc_scale(30);
    if (w == 6) { Der x = exact(I_3, e, h, f, s); vc_assume(x.v > 0); is(root(x), C_J(E), C_J_dE(E), C_J_ddE(E), h); vc_cover("J"); return; }
    Der x = exact(w, e, h, f, s);
    switch (w) {
    case I_0: is(x, C_I0fs(f, s), C_I0fs_dE(), C_I0fs_ddE(), h); is(x, C_I0fs(E, f, s), C_I0fs_dE(E, f, s), C_I0fs_ddE(E, f, s), h); break;
    case I_1: is(x, C_I1(E), C_I1_dE(), C_I1_ddE(), h); is(x, C_I1(E), C_I1_dE(E), C_I1_ddE(E), h); break;
    case I_2: is(x, C_I2(E), C_I2_dE(E), C_I2_ddE(), h); is(x, C_I2(E), C_I2_dE(E), C_I2_ddE(E), h); break;
    case I_3: is(x, C_I3(E), C_I3_dE(E), C_I3_ddE(E), h); break;
    case I_4: is(x, C_I4fs(E, f, s), C_I4fs_dE(f, s), C_I4fs_ddE(), h); is(x, C_I4fs(E, f, s), C_I4fs_dE(E, f, s), C_I4fs_ddE(f, s), h); is(x, C_I4fs(E, f, s), C_I4fs_dE(E, f, s), C_I4fs_ddE(E, f, s), h); break;
    default: is(x, C_I5fs(E, f, s), C_I5fs_dE(E, f, s), C_I5fs_ddE(f, s), h); is(x, C_I5fs(E, f, s), C_I5fs_dE(E, f, s), C_I5fs_ddE(E, f, s), h);
    }
    vc_cover("invariant");
}
template <class T> static void node(const Der& x, const T& t, int level, const M& h) {
    vc_eq(t(), x.v, "value"); vc_check(t.m_dif == level, "declared order");
    if (level >= 1) { vc_eq(c1(t.D(), h), x.d, "first derivative"); if (!T::State::NotTrivialDeriv) vc_eq(0, x.d, "declared constant"); }
    if (level >= 2) { vc_eq(c2(t.DD(), h), x.dd, "second derivative"); if (!T::State::NotTrivialSecondDeriv) vc_eq(0, x.dd, "declared linear"); }
    vc_cover("variable");
}
VC(variables) {
    M e = sym("E"), h = sym("H"); A3 f = vec("f"), s = vec("s"); S3 E = pack(e); int w = (int)vc_choose("invariant", 0, 6), n = (int)vc_choose("level", 0, 2); bool init = vc_choose("Init", 0, 1); vc_scale(30);
    Der x = exact(w == 6 ? I_3 : w, e, h, f, s); if (w == 6) { vc_assume(x.v > 0); x = root(x); }
    switch (w) {
    case I_0: { I0fs<> t; if (init) t.Init(n, f, s); else t = I0fs<>(n, f, s); node(x, t, n, h); break; }
    case I_1: { I1<> t; if (init) t.Init(n, E); else t = I1<>(n, E); node(x, t, n, h); break; }
    case I_2: { I2<> t; if (init) t.Init(n, E); else t = I2<>(n, E); node(x, t, n, h); break; }
    case I_3: { I3<> t; if (init) t.Init(n, E); else t = I3<>(n, E); node(x, t, n, h); break; }
    case I_4: { I4fs<> t; if (init) t.Init(n, E, f, s); else t = I4fs<>(n, E, f, s); node(x, t, n, h); break; }
    case I_5: { I5fs<> t; if (init) t.Init(n, E, f, s); else t = I5fs<>(n, E, f, s); node(x, t, n, h); break; }
    default: { J<> t; if (init) t.Init(n, E); else t = J<>(n, E); node(x, t, n, h); }
    }
}
// strain from deformation, its derivative, and the conversion to the first Piola-Kirchhoff stress
static M strain(const M& F) { M e; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double c = 0; for (int k = 0; k < 3; ++k) c += F.a[k][i] * F.a[k][j]; e.a[i][j] = (c - (i == j)) / 2; } return e; }
static M plusI(const M& g) { M F = g; for (int i = 0; i < 3; ++i) F.a[i][i] += 1; return F; }
static void same(const S3& s, const M& m, const char* l) { for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) vc_eq(s.m_dat[pos(i, j)], m.a[i][j], l); }
VC(strain_of_deformation) {
    M g = full("grU"), dg = full("dgrU"), F = plusI(g); same(F_to_E(packf(F)), strain(F), "E(F)"); same(grU_to_E(packf(g)), strain(F), "E(grU)");
    M p = strain(along(F, dg, 1)), q = strain(along(F, dg, -1)), d = along(p, q, -1); for (auto& r : d.a) for (auto& x : r) x /= 2;
    same(F_and_dF_to_dE(packf(F), packf(dg)), d, "dE(F, dF)"); same(grU_and_dgrU_to_dE(packf(g), packf(dg)), d, "dE(grU, dgrU)"); vc_cover("strain");
}
VC(stress) {
    M g = full("grU"), F = plusI(g), s = sym("S"); S3 S = pack(s); M want = mul(F, s); PhysMtx<3> P = S_to_P(packf(g), S); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc_eq(P.m_dat[3 * i + j], want.a[i][j], "P = F S");
    B3 d; for (auto& x : d.m_dat) x = vc_real("dS", -1, 1); auto D = dS_to_dP(packf(g), S, d);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) { double w = i == k ? s.a[l][j] : 0; for (int n = 0; n < 3; ++n) for (int m = 0; m < 3; ++m) w += F.a[i][n] * F.a[k][m] * d.m_dat[pos4(n, j, m, l)]; vc_eq(D(i, j, k, l), w, "dP/dF"); }
    vc_cover("stress");
}
VC_NEG(wrong) { M e = sym("E"), h = sym("H"); A3 f = vec("f"), s = vec("s"); S3 E = pack(e); Der x = exact(I_3, e, h, f, s); is(x, C_I2(E), C_I2_dE(E), C_I3_ddE(E), h); }
