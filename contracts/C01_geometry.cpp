// Contracts of the geometric primitives in anifem++/fem/geometry.h for all real coordinates.
// VCFLAGS: timeout=90
#include "common.h"
#include "anifem++/fem/geometry.h"
using namespace Ani; using namespace vcx;
VC(inverse3x3) {
    double m[9], inv[9]; fill_real(m, 9, "m"); vc_undef(inv, sizeof inv);
    double d = det3(m, m + 3, m + 6); vc_nonzero(d);
    double r = inverse3x3(m, inv);
    vc_eq(r, d, "returns the determinant");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        double s = 0, t = 0; for (int k = 0; k < 3; ++k) { s += inv[i + 3 * k] * m[k + 3 * j]; t += m[i + 3 * k] * inv[k + 3 * j]; }
        vc_eq(s, i == j, "inv * m = I"); vc_eq(t, i == j, "m * inv = I");
    }
    vc_cover("reached");
}
VC_NEG(inverse3x3) {
    double m[9], inv[9]; fill_real(m, 9, "m");
    double d = det3(m, m + 3, m + 6); vc_nonzero(d);
    double r = inverse3x3(m, inv);
    vc_eq(r, -d, "wrong");
}
static void spec_cross(const double* a, const double* b, double* c) { for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = a[j] * b[k] - a[k] * b[j]; } }
VC(cross_of_vectors) {
    double a[3], b[3], c[3], s[3]; fill_real(a, 3, "a"); fill_real(b, 3, "b"); vc_undef(c, sizeof c);
    cross(a, b, c); spec_cross(a, b, s); for (int i = 0; i < 3; ++i) vc_eq(c[i], s[i], "a x b");
}
VC(cross_of_points) {
    double p[3][3], c[3], s[3], a[3], b[3]; for (auto& r : p) fill_real(r, 3, "p"); vc_undef(c, sizeof c);
    cross(p[0], p[1], p[2], c);
    for (int k = 0; k < 3; ++k) { a[k] = p[0][k] - p[2][k]; b[k] = p[1][k] - p[2][k]; }
    spec_cross(a, b, s); for (int i = 0; i < 3; ++i) vc_eq(c[i], s[i], "(p0-p2) x (p1-p2)");
}
VC(tri_area) {
    double p[3][3], s[3], a[3], b[3]; for (auto& r : p) fill_real(r, 3, "p");
    double A = tri_area(p[0], p[1], p[2]);
    for (int k = 0; k < 3; ++k) { a[k] = p[1][k] - p[0][k]; b[k] = p[2][k] - p[0][k]; }
    spec_cross(a, b, s);
    vc_eq(4 * A * A, dot3(s, s), "area squared"); vc_check(A >= 0, "area >= 0");
    double A2 = tri_area(p[2], p[0], p[1]); vc_eq(A * A, A2 * A2, "independent of the order of the vertices");
}
VC(face_normal) {
    double p[4][3]; for (auto& r : p) fill_real(r, 3, "p"); vc_nonzero(tet_det(p));
    double n[3]; vc_undef(n, sizeof n);
    double A = face_normal(p[0], p[1], p[2], p[3], n);
    double e1[3], e2[3], e3[3]; for (int k = 0; k < 3; ++k) { e1[k] = p[1][k] - p[0][k]; e2[k] = p[2][k] - p[0][k]; e3[k] = p[3][k] - p[0][k]; }
    vc_eq(dot3(n, n), 1, "unit length"); vc_eq(dot3(n, e1), 0, "orthogonal to edge 1"); vc_eq(dot3(n, e2), 0, "orthogonal to edge 2");
    vc_check(dot3(n, e3) < 0, "outward");
    vc_eq(4 * A * A, dot3(e1, e1) * dot3(e2, e2) - dot3(e1, e2) * dot3(e1, e2), "area");
    vc_check(A >= 0, "area >= 0");
}
VC(tetra_centroid) {
    double p[4][3]; for (auto& r : p) fill_real(r, 3, "p");
    Tetra<const double> T(p[0], p[1], p[2], p[3]);
    auto c = T.centroid(); for (int k = 0; k < 3; ++k) vc_eq(4 * c[k], p[0][k] + p[1][k] + p[2][k] + p[3][k], "centroid");
    Tetra<double> T2(p[0], p[1], p[2], p[3]);
    auto c2 = T2.centroid(); for (int k = 0; k < 3; ++k) vc_eq(c[k], c2[k], "const and mutable handles agree");
}
VC(tetra_diameter) {
    double p[4][3]; for (auto& r : p) fill_real(r, 3, "p");
    Tetra<const double> T(p[0], p[1], p[2], p[3]);
    double d = T.diameter(), prod = 1; vc_check(d >= 0, "diameter >= 0");
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) {
        double l = 0; for (int k = 0; k < 3; ++k) l += (p[i][k] - p[j][k]) * (p[i][k] - p[j][k]);
        vc_check(d * d >= l || !vc_symbolic() && d * d >= l * (1 - 1e-12), "not shorter than any edge"); prod *= d * d - l;
    }
    vc_eq(prod, 0, "equal to some edge");
}
VC(tetra_normal) {
    double p[4][3]; for (auto& r : p) fill_real(r, 3, "p"); vc_nonzero(tet_det(p));
    Tetra<const double> T(p[0], p[1], p[2], p[3]);
    int i = vc_choose("face", 0, 3);
    auto n = T.normal(i); int a = (i + 1) % 4, b = (i + 2) % 4, c = (i + 3) % 4;
    double e1[3], e2[3], e3[3]; for (int k = 0; k < 3; ++k) { e1[k] = p[b][k] - p[a][k]; e2[k] = p[c][k] - p[a][k]; e3[k] = p[i][k] - p[a][k]; }
    vc_eq(dot3(n.data(), n.data()), 1, "unit length"); vc_eq(dot3(n.data(), e1), 0, "orthogonal to edge 1"); vc_eq(dot3(n.data(), e2), 0, "orthogonal to edge 2");
    vc_check(dot3(n.data(), e3) < 0, "points away from the opposite vertex");
}
VC(tetra_normal_direction) {
    double p[4][3]; for (auto& r : p) fill_real(r, 3, "p"); vc_nonzero(tet_det(p));
    Tetra<const double> T(p[0], p[1], p[2], p[3]);
    int i = vc_choose("face", 0, 3);
    auto n = T.normal_direction(i); int a = (i + 1) % 4, b = (i + 2) % 4, c = (i + 3) % 4;
    double e1[3], e2[3], e3[3], x[3]; for (int k = 0; k < 3; ++k) { e1[k] = p[b][k] - p[a][k]; e2[k] = p[c][k] - p[a][k]; e3[k] = p[i][k] - p[a][k]; }
    vc_eq(dot3(n.data(), e1), 0, "orthogonal to edge 1"); vc_eq(dot3(n.data(), e2), 0, "orthogonal to edge 2");
    spec_cross(e1, e2, x); vc_eq(dot3(n.data(), n.data()), dot3(x, x), "length is twice the face area");
    vc_check(dot3(n.data(), e3) < 0, "points away from the opposite vertex");
}
