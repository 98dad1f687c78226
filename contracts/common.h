// Helpers shared by the contract files.
#pragma once
#include "../engine/vc.h"
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
#include <array>

namespace vcx {
// a general tetrahedron with 12 arbitrary real coordinates, non-degenerate
struct Tet {
    double X[4][3];
    double det;      // det [x1-x0, x2-x0, x3-x0]
};
inline double det3(const double* a, const double* b, const double* c) {
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
inline double tet_det(const double X[4][3]) {
    double e[3][3];
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) e[i][k] = X[i + 1][k] - X[0][k];
    return det3(e[0], e[1], e[2]);
}
inline void sym_tet(Tet& t) {
    static const double base[4][3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) t.X[i][k] = i == 1 && k == 0 ? vc_real("x", 2.7, 1.3) : vc_real("x", base[i][k] - 0.7, base[i][k] + 0.7);
    t.det = tet_det(t.X);
    vc_nonzero(t.det);
}
inline double dot3(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline void fill_real(double* a, int n, const char* nm, double lo = -2, double hi = 2) { for (int i = 0; i < n; ++i) a[i] = vc_real(nm, lo, hi); }
}
