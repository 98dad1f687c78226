// Handling tetrahedra and points together gives, at each tetrahedron and point, what handling them alone gives: for arbitrary
// (even unrelated) geometry data, so that the contracts proved for one tetrahedron and one point hold in every batch.
#pragma once
#include "fem.h"
namespace vcx {
// fixed vertices of both orientations, for operators that choose the direction of a normal (a choice per face of every tetrahedron)
inline void fix_vertices(double* x, int f) { static const double b[12] = {0, 0, 0, 4, 1, 0, 1, 5, -1, 0, 1, 3}; for (int r = 0; r < f; ++r) for (int i = 0; i < 4; ++i) { int j = r % 2 && i > 1 ? 5 - i : i; for (int k = 0; k < 3; ++k) x[12 * r + 3 * i + k] = b[3 * j + k] + ((r + 2) * (i + k + 1) % 5) / 8.; } }
template<int OP, typename FEM, int f, int q, bool FIX> static void alone() {
    std::unique_ptr<Geo<f, q>> g(new Geo<f, q>); g->free_geometry(); if (FIX) { fix_vertices(g->XYP, f); for (int r = 0; r < f; ++r) g->DET[r] = det3(g->XYP + 12 * r + 3, g->XYP + 12 * r + 6, g->XYP + 12 * r + 9); } g->sym_points(); g->bind();
    std::unique_ptr<OpEval<OP, FEM, f, q>> a(new OpEval<OP, FEM, f, q>); a->run(g->mem);
    std::unique_ptr<OpEval<OP, FEM, 1, 1>> b(new OpEval<OP, FEM, 1, 1>); Geo<1, 1> s;
    for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) {
        for (int k = 0; k < 12; ++k) s.XYP[k] = g->XYP[12 * r + k]; for (int k = 0; k < 9; ++k) s.PSI[k] = g->PSI[9 * r + k]; for (int k = 0; k < 3; ++k) s.X0[k] = g->X0[3 * r + k]; for (int k = 0; k < 4; ++k) s.XYL[k] = g->XYL[4 * n + k];
        s.DET[0] = g->DET[r]; s.MES[0] = g->MES[r]; s.bind(); b->run(s.mem);
        for (int i = 0; i < a->nfa; ++i) for (int k = 0; k < a->dim; ++k) vc_eq((*a)(k, n, i, r), (*b)(k, 0, i, 0), "value in a batch = value alone");
    }
    vc_cover("compared");
}
// every combination of one, two, three tetrahedra and points, and larger batches
template<int OP, typename FEM, bool FIX> static void alones() {
    if (FIX) vc_bounded("fixed vertices");
    switch ((int)vc_choose("batch", 0, 10)) {
        case 0: alone<OP, FEM, 1, 2, FIX>(); break; case 1: alone<OP, FEM, 1, 3, FIX>(); break; case 2: alone<OP, FEM, 2, 1, FIX>(); break; case 3: alone<OP, FEM, 2, 2, FIX>(); break;
        case 4: alone<OP, FEM, 2, 3, FIX>(); break; case 5: alone<OP, FEM, 3, 1, FIX>(); break; case 6: alone<OP, FEM, 3, 2, FIX>(); break; case 7: alone<OP, FEM, 3, 3, FIX>(); break;
        case 8: alone<OP, FEM, 1, 26, FIX>(); break; case 9: alone<OP, FEM, 17, 1, FIX>(); break; case 10: alone<OP, FEM, 5, 7, FIX>(); break;
    }
}
#define ALONE(NAME, OP, ...) VC(alone_##NAME) { alones<OP, __VA_ARGS__, false>(); }
#define ALONE_FIX(NAME, OP, ...) VC(alone_##NAME) { alones<OP, __VA_ARGS__, true>(); }
}
