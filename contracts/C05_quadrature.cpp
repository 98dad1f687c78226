// VCFLAGS: timeout=300 link=anifem++/fem/quadrature_formulas.cpp eigen=0
// C05: contracts of the three quadrature tables. The precondition (order) ranges over a finite set and so does a
// basis of the homogeneous polynomials of degree = order, so the postcondition below is checked completely; lower degrees
// follow because the barycentric coordinates of every point sum to one, other polynomials by linearity.
// The arithmetic is that of doubles: tol = 2e-14 * (exact value) absorbs the rounding of the tabulated constants.
#include "common.h"
#include "anifem++/fem/quadrature_formulas.h"
#include <stdexcept>

static double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
// ∫ λ^a over the d-simplex of measure 1 = (Π a_i!) d! / (|a| + d)!
template <int D> static double exact(const int* a, int deg) {
    double r = 1; int n = deg + D;                       // product of a multinomial-like ratio kept exact as long as possible
    for (int k = 0; k <= D; ++k) r *= fact(a[k]);
    return r * fact(D) / fact(n);
}
template <int D, class Q> static void monomials(const Q& q, int deg) {
    const int n = q.num_points;
    static double pw[600][4][22];
    for (int i = 0; i < n; ++i) {
        auto w = q.GetPointWeight(i);
        for (int k = 0; k <= D; ++k) { double v = 1; for (int e = 0; e <= deg; ++e) { pw[i][k][e] = v; v *= w.p[k]; } }
        pw[i][0][0] = w.w;
        for (int e = 1; e <= deg; ++e) pw[i][0][e] *= w.w;
    }
    int a[4] = {0, 0, 0, 0}; bool ok = true; double worst = 0; int wa[4] = {0, 0, 0, 0};
    for (a[0] = 0; a[0] <= deg; ++a[0])
        for (a[1] = 0; a[0] + a[1] <= deg; ++a[1])
            for (a[2] = 0; a[0] + a[1] + a[2] <= deg; ++a[2]) {
                const int rest = deg - a[0] - a[1] - a[2];
                if (D == 1) { if (a[2] || rest) continue; }
                else if (D == 2) { if (rest) continue; }
                a[3] = D == 3 ? rest : 0;
                double s = 0;
                for (int i = 0; i < n; ++i) { double t = pw[i][0][a[0]] * pw[i][1][a[1]]; if (D > 1) t *= pw[i][2][a[2]]; if (D > 2) t *= pw[i][3][a[3]]; s += t; }
                const double ex = exact<D>(a, deg), tol = 2e-14 * ex, d = s > ex ? s - ex : ex - s;
                if (!(d <= tol)) { if (ok || d > worst) { worst = d; for (int k = 0; k < 4; ++k) wa[k] = a[k]; } ok = false; }
            }
    (void)wa;
    vc_check(ok, "quadrature integrates every homogeneous polynomial of the requested degree");
}
// ---- data invariants: coordinates, weights, symmetry classes
template <int D, class Q> static void table(const Q& q, int order) {
    vc_check(q.GetNumPoints() == q.num_points && q.num_points > 0 && q.num_points <= 600, "number of points");
    vc_check(q.GetPointData() == q.p && q.GetWeightData() == q.w, "data accessors");
    double ws = 0; bool in = true, same = true, one = true;
    for (int i = 0; i < q.num_points; ++i) {
        auto w = q.GetPointWeight(i);
        double s = 0, s2 = 0;
        for (int k = 0; k <= D; ++k) {
            s += w.p[k]; s2 += q.p[(D + 1) * i + k];
            in = in && w.p[k] > 0 && w.p[k] < 1;
            double d = w.p[k] - q.p[(D + 1) * i + k]; same = same && d < 1e-15 && d > -1e-15;
        }
        in = in && w.w > 0; same = same && w.w == q.w[i];
        one = one && s - 1 < 1e-15 && 1 - s < 1e-15 && s2 - 1 < 1e-15 && 1 - s2 < 1e-15;
        ws += w.w;
    }
    vc_check(one, "barycentric coordinates of every point sum to one");
    vc_check(in, "all points are inside the simplex and all weights positive");
    vc_check(same, "GetPointWeight agrees with the tables");
    vc_near(ws, 1, 1e-14, "weights sum to one");
    // announced symmetry: the points come in groups of the announced sizes, each a full orbit with one weight
    if (q.IsSymmetric()) {
        static const int sz[3][5] = {{1, 2, 0, 0, 0}, {1, 3, 6, 0, 0}, {1, 4, 6, 12, 24}};
        auto s = q.GetSymmetryPartition();
        int at = 0; bool orb = true;
        int total = 0; for (unsigned c = 0; c < s.size(); ++c) total += s[c] * sz[D - 1][c];
        vc_check(total == q.num_points, "symmetry classes add up to the number of points");
        if (total != q.num_points) return;
        for (unsigned c = 0; c < s.size(); ++c)
            for (int g = 0; g < s[c]; ++g) {
                const int m = sz[D - 1][c];
                // every transposition of coordinates of the first point (generators) of each member stays in the group
                for (int i = 0; i < m; ++i) {
                    double d = q.w[at + i] - q.w[at]; orb = orb && d < 1e-15 && d > -1e-15;
                    for (int u = 0; u < D; ++u) {
                        double x[4]; for (int k = 0; k <= D; ++k) x[k] = q.p[(D + 1) * (at + i) + k];
                        double t = x[u]; x[u] = x[u + 1]; x[u + 1] = t;
                        bool found = false;
                        for (int j = 0; j < m && !found; ++j) { bool eq = true; for (int k = 0; k <= D; ++k) { double e = x[k] - q.p[(D + 1) * (at + j) + k]; eq = eq && e < 1e-13 && e > -1e-13; } found = eq; }
                        orb = orb && found;
                    }
                    // members of a class are pairwise different points
                    for (int j = 0; j < i; ++j) { bool eq = true; for (int k = 0; k <= D; ++k) { double e = q.p[(D + 1) * (at + i) + k] - q.p[(D + 1) * (at + j) + k]; eq = eq && e < 1e-9 && e > -1e-9; } orb = orb && !eq; }
                }
                at += m;
            }
        vc_check(orb, "every announced symmetry class is an orbit of the symmetry group with a single weight");
    }
    vc_cover("table");
}
template <class F> static bool throws(F f, int o) { try { f(o); } catch (const std::runtime_error&) { return true; } return false; }
VC(segment) { int o = (int)vc_choose("order", 0, 21); auto q = segment_quadrature_formulas(o); table<1>(q, o); monomials<1>(q, o); }
VC(triangle) { int o = (int)vc_choose("order", 0, 20); auto q = triangle_quadrature_formulas(o); table<2>(q, o); monomials<2>(q, o); }
#define TET(NAME, LO, HI) VC(NAME) { int o = (int)vc_choose("order", LO, HI); auto q = tetrahedron_quadrature_formulas(o); table<3>(q, o); monomials<3>(q, o); }
TET(tetra_0_10, 0, 10)
TET(tetra_11_13, 11, 13)
TET(tetra_14_15, 14, 15)
TET(tetra_16, 16, 16)
TET(tetra_17, 17, 17)
TET(tetra_18, 18, 18)
TET(tetra_19, 19, 19)
TET(tetra_20, 20, 20)
VC(out_of_range) {
    int o = (int)vc_choose("order", -3, 30);
    // an order is either served by a table (whose contract is above) or reported
    vc_check((o >= 0 && o <= 21) || throws(segment_quadrature_formulas, o), "unsupported segment order is reported");
    vc_check((o >= 0 && o <= 20) || throws(triangle_quadrature_formulas, o), "unsupported triangle order is reported");
    vc_check((o >= 0 && o <= 20) || throws(tetrahedron_quadrature_formulas, o), "unsupported tetrahedron order is reported");
    vc_cover("range");
}
VC(out_of_range_any) {
    int o = (int)vc_int("order", -2147483647 - 1, 2147483647);
    vc_assume(o < 0 || o > 21);
    vc_check(throws(segment_quadrature_formulas, o) && throws(triangle_quadrature_formulas, o) && throws(tetrahedron_quadrature_formulas, o), "every unsupported order is reported");
    vc_cover("range");
}
VC_NEG(weights) { auto q = tetrahedron_quadrature_formulas(4); double s = 0; for (int i = 1; i < q.num_points; ++i) s += q.w[i]; vc_near(s, 1, 1e-14, "weights sum to one"); }
VC_NEG(degree) { auto q = segment_quadrature_formulas(3); monomials<1>(q, 4); }
