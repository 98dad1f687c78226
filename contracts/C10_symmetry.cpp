// Renumbering of the dofs of a symmetry class under a renumbering of the vertices, exhaustively over all permutations.
// VCFLAGS: timeout=120 link=anifem++/fem/tetdofmap.cpp
#include "dofmodel.h"
using namespace vcx; using namespace Ani::DofT;
using Perm = std::array<uchar, 4>;
static Perm nth(int k) { Perm p{}; bool used[4] = {}; int f[4] = {6, 2, 1, 1}; for (int i = 0; i < 4; ++i) { int d = k / f[i]; k %= f[i]; for (uchar x = 0; x < 4; ++x) if (!used[x] && d-- == 0) { p[i] = x; used[x] = true; break; } } return p; }
static Perm mul(const Perm& a, const Perm& b) { Perm r{}; for (int i = 0; i < 4; ++i) r[i] = a[b[i]]; return r; }   // first b, then a
static const int en[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
static int I(int t, int e, int c, int l, const Perm& s) { return DofSymmetries::index_on_reorderd_elem(1 << t, e, c, l, s.data()); }
// nodes and edges
VC(nodes) { for (int e = 0; e < 4; ++e) for (int k = 0; k < 24; ++k) vc_check(I(0, e, 0, 0, nth(k)) == 0, "a single dof stays"); }
VC(edges) {
    int t = vc_choose("type", 1, 2), e = vc_choose("edge", 0, 5);
    for (int k = 0; k < 24; ++k) { Perm s = nth(k); bool keep = s[en[e][0]] < s[en[e][1]]; vc_check(I(t, e, 0, 0, s) == 0, "a single dof stays"); for (int l = 0; l < 2; ++l) vc_check(I(t, e, 1, l, s) == (keep ? l : 1 - l), "the index counts from the end with the smaller number"); }
}
// faces: the index depends only on how the vertices of the face are ranked, and is an action of the permutations of three vertices
struct R3 { int r[3]; };
static R3 ranks(int f, const Perm& s) { int v[3] = {s[f], s[(f + 1) % 4], s[(f + 2) % 4]}; R3 q; for (int i = 0; i < 3; ++i) { q.r[i] = 0; for (int j = 0; j < 3; ++j) q.r[i] += v[j] < v[i]; } return q; }
static int id3(const R3& q) { return q.r[0] * 9 + q.r[1] * 3 + q.r[2]; }
VC(faces) {
    int t = vc_choose("type", 3, 4), c = vc_choose("class", 0, 2), n = sym_vol[t][c]; int T[27][6]; bool have[27] = {};
    for (int f = 0; f < 4; ++f) for (int k = 0; k < 24; ++k) { Perm s = nth(k); int q = id3(ranks(f, s)); for (int l = 0; l < n; ++l) { int x = I(t, f, c, l, s); vc_check(x >= 0 && x < n, "an index of the class"); if (!have[q]) T[q][l] = x; else vc_check(T[q][l] == x, "neighbours sharing the face agree"); } have[q] = true; }
    R3 p[6] = {{{0, 1, 2}}, {{0, 2, 1}}, {{1, 0, 2}}, {{1, 2, 0}}, {{2, 0, 1}}, {{2, 1, 0}}};
    for (auto& a : p) vc_check(have[id3(a)], "every ranking occurs");
    for (int l = 0; l < n; ++l) vc_check(T[id3(p[0])][l] == l, "identity");
    for (auto& a : p) { bool seen[6] = {}; for (int l = 0; l < n; ++l) { int x = T[id3(a)][l]; vc_check(!seen[x], "a permutation"); seen[x] = true; if (c == 1) vc_check(x == a.r[l], "a dof attached to a vertex follows the vertex"); if (c == 2 && &a != p) vc_check(x != l, "no dof without symmetry stays"); }
        for (auto& b : p) { R3 ab{{a.r[b.r[0]], a.r[b.r[1]], a.r[b.r[2]]}}; for (int l = 0; l < n; ++l) vc_check(T[id3(ab)][l] == T[id3(a)][T[id3(b)][l]], "composition"); } }
}
// cell
VC(cell) {
    int c = vc_choose("class", 0, 4), n = sym_vol[5][c]; int T[24][24];
    for (int k = 0; k < 24; ++k) { bool seen[24] = {}; for (int l = 0; l < n; ++l) { T[k][l] = I(5, 0, c, l, nth(k)); vc_check(T[k][l] >= 0 && T[k][l] < n, "an index of the class"); if (T[k][l] < 0 || T[k][l] >= n) return; vc_check(!seen[T[k][l]], "a permutation"); seen[T[k][l]] = true; if (k == 0) vc_check(T[k][l] == l, "identity"); if (c == 1) vc_check(T[k][l] == nth(k)[l], "a dof attached to a vertex follows the vertex"); } }
    for (int a = 0; a < 24; ++a) for (int b = 0; b < 24; ++b) { Perm m = mul(nth(a), nth(b)); for (int k = 0; k < 24; ++k) if (nth(k) == m) for (int l = 0; l < n; ++l) vc_check(T[k][l] == T[a][T[b][l]], "composition"); }
    // one orbit, and the stabiliser of every dof is the group of the class: pairs of equal coordinates
    for (int l = 0; l < n; ++l) { int fix = 0, even = 0; for (int k = 0; k < 24; ++k) if (T[k][l] == l) { ++fix; Perm s = nth(k); int moved = 0; for (int i = 0; i < 4; ++i) moved += s[i] != i; if (moved == 2) ++even; } vc_check(fix == 24 / n, "size of the stabiliser"); static const int tr[5] = {6, 3, 2, 1, 0}; vc_check(even == tr[c], "the stabiliser exchanges vertices with equal coordinates"); }
}
// numbers and sizes of the classes, position of a dof inside its class
VC(classes) {
    for (int t = 0; t < 6; ++t) { vc_check(DofSymmetries::symmetries_amount(1 << t) == sym_n[t] && DofSymmetries::symmetries_amount_by_geom_num(t) == sym_n[t], "number of classes"); for (int c = 0; c < sym_n[t]; ++c) vc_check(DofSymmetries::symmetry_volume(1 << t, c) == sym_vol[t][c] && DofSymmetries::symmetry_volume_by_geom_num(t, c) == sym_vol[t][c], "size of a class"); }
    int t = vc_choose("type", 0, 5); DofSymmetries d; vc_check(!d.isInited() && d.GetSymMask(1 << t) == DofSymmetries::MASK_UNDEF && !d.GetLocSymOrder(1 << t, 0).isValid() && d.get(1 << t, 0) == unsigned(-1), "no symmetry information");
    unsigned g[5] = {}; for (int c = 0; c < sym_n[t]; ++c) g[c] = vc_choose("groups", 0, 2); for (int c = 0; c < sym_n[t]; ++c) { d.add(1 << t, c, g[c]); }
    unsigned l = 0; uchar mask = 0; for (int c = 0; c < sym_n[t]; ++c) { vc_check(d.get(1 << t, c) == g[c], "number of groups of a class"); if (g[c]) mask |= 1 << c; for (unsigned k = 0; k < g[c]; ++k) for (int p = 0; p < sym_vol[t][c]; ++p, ++l) { auto o = d.GetLocSymOrder(1 << t, l); vc_check(o.stype == c && o.lsid == p, "position of a dof in its class"); } }
    vc_check(d.GetSymMask(1 << t) == mask && d.isInited(), "classes present");
}
// action on a whole numbering
VC(helpers) {
    vc_check(S4::identity_perm() == nth(0), "identity"); std::array<Perm, 24> all; S4::all_permutations(all); for (int i = 0; i < 24; ++i) { bool s[4] = {}; for (uchar x : all[i]) { vc_check(x < 4 && !s[x], "a permutation"); s[x & 3] = true; } for (int j = 0; j < i; ++j) vc_check(all[i] != all[j], "every permutation once"); }
    for (int e = 0; e < 6; ++e) { vc_check(S4::edge_vertex(e, 0) == en[e][0] && S4::edge_vertex(e, 1) == en[e][1], "ends of an edge"); vc_check(S4::find_edge_elem(en[e][0], en[e][1]) == e && S4::find_edge_elem(en[e][1], en[e][0]) == e, "edge with given ends"); }
    for (int f = 0; f < 4; ++f) { int v[3] = {f, (f + 1) % 4, (f + 2) % 4}; int m = 0; for (int k = 0; k < 3; ++k) m |= 1 << S4::face_vertex(f, k); vc_check(m == ((1 << v[0]) | (1 << v[1]) | (1 << v[2])) && S4::face_vertex(f, 0) < S4::face_vertex(f, 1) && S4::face_vertex(f, 1) < S4::face_vertex(f, 2), "vertices of a face in increasing order"); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) if (a != b && b != c && a != c) vc_check(S4::find_face_elem(v[a], v[b], v[c]) == f, "face with given vertices"); }
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) { if (a == b || a > 3 || b > 3) vc_check(S4::find_edge_elem(a, b) == 255, "no such edge"); for (int c = 0; c < 5; ++c) if (a == b || b == c || a == c || a > 3 || b > 3 || c > 3) vc_check(S4::find_face_elem(a, b, c) == 255, "no such face"); }
}
static std::shared_ptr<BaseDofMap> U(const Syms& s) { return std::make_shared<UniteDofMap>(DofSymmetries({s[0][0]}, {s[1][0], s[1][1]}, {s[2][0], s[2][1]}, {s[3][0], s[3][1], s[3][2]}, {s[4][0], s[4][1], s[4][2]}, {s[5][0], s[5][1], s[5][2], s[5][3], s[5][4]})); }
static std::shared_ptr<BaseDofMap> map(int k) {
    switch (k) { case 0: return U({{{1}}}); case 1: return U({{{1}, {1}}}); case 2: return U({{{1}, {0, 1}, {}, {1}}}); case 3: return U({{{}, {}, {1}}}); case 4: return U({{{}, {}, {}, {}, {1}}}); case 5: return U({{{}, {}, {}, {1}}});
        case 6: return U({{{}, {0, 1}, {0, 1}}}); case 7: return U({{{}, {}, {}, {0, 1}, {1, 0}}}); case 8: return U({{{}, {}, {}, {1, 1}}}); case 9: return U({{{}, {}, {}, {0, 0, 1}}}); case 10: return U({{{}, {}, {}, {}, {0, 1, 0}}}); case 11: return U({{{}, {}, {}, {}, {}, {1, 1, 1}}}); case 12: return U({{{}, {}, {}, {}, {}, {0, 0, 0, 1}}}); case 13: return U({{{1}, {}, {}, {}, {}, {0, 0, 0, 0, 1}}});
        case 14: return U({{{2}, {2, 1}}}); case 15: return std::make_shared<VectorDofMap>(2, U({{{1}, {0, 1}}})); case 16: return std::make_shared<ComplexDofMap>(std::vector<std::shared_ptr<BaseDofMap>>{U({{{1}}}), U({{{}, {}, {1}}}), U({{{1}}})}); case 17: return std::make_shared<VectorDofMap>(2, U({{{}, {}, {}, {0, 1}}})); }
    return U({{{1}}});
}
constexpr int NM = 18;
static int vset(const LocalOrder& o) { switch (GeomTypeDim(o.etype)) { case 0: return 1 << o.nelem; case 1: return (1 << en[o.nelem][0]) | (1 << en[o.nelem][1]); case 2: return 15 & ~(1 << (o.nelem + 3) % 4); default: return 15; } }
VC(tet_action) {
    auto m = map(vc_choose("map", 0, NM - 1)); int n = m->NumDofOnTet(), a = vc_choose("sigma", 0, 23); std::vector<double> A(n * n), B(n * n), C(n * n); Perm s = nth(a);
    S4::build_dof_permutation(*m, s.data(), A.data(), n);
    std::vector<int> img(n, -1), sg(n, 0); std::vector<char> hit(n, 0);
    for (int j = 0; j < n; ++j) { int cnt = 0; for (int i = 0; i < n; ++i) if (A[i + j * n] != 0) { ++cnt; img[j] = i; sg[j] = A[i + j * n] > 0 ? 1 : -1; vc_check(A[i + j * n] == 1 || A[i + j * n] == -1, "entries are signs"); } vc_check(cnt == 1, "every dof has one image"); if (cnt != 1) return; vc_check(!hit[img[j]], "no two dofs have the same image"); hit[img[j]] = 1;
        auto o = m->LocalOrderOnTet(TetOrder(j)), r = m->LocalOrderOnTet(TetOrder(img[j])); int v = 0; for (int k = 0; k < 4; ++k) if (vset(o) >> k & 1) v |= 1 << s[k]; vc_check(r.etype == o.etype && r.stype == o.stype && vset(r) == v, "the image lives on the image of the element");
        if (o.etype != EDGE_ORIENT && o.etype != FACE_ORIENT) vc_check(sg[j] == 1, "no sign without orientation");
        if (o.etype == EDGE_ORIENT) vc_check(sg[j] == (s[en[o.nelem][0]] < s[en[o.nelem][1]] ? 1 : -1), "sign of an oriented edge"); }
    if (a == 0) for (int j = 0; j < n; ++j) vc_check(img[j] == j && sg[j] == 1, "identity");
    int b = vc_choose("tau", 0, 23); Perm t = nth(b), st = mul(s, t);
    S4::build_dof_permutation(*m, t.data(), B.data(), n); S4::build_dof_permutation(*m, st.data(), C.data(), n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (B[i + j * n] != 0) for (int k = 0; k < n; ++k) vc_check(C[k + j * n] == A[k + i * n] * B[i + j * n], "composition");
}
// stabilisers
VC(stabiliser) {
    int t = vc_choose("type", 0, 5), e = vc_choose("elem", 0, 5); if (e >= n_elem[t]) return; LocalOrder o(0, 1 << t, e, 0, 0, 0); auto d = S4::stabilizer_data(o); bool in[24] = {}; in[0] = true;
    for (auto& g : d.generators) vc_check([&] { int v = 0; for (int k = 0; k < 4; ++k) if (vset(o) >> k & 1) v |= 1 << g[k]; return v == vset(o); }(), "a generator keeps the element");
    for (bool more = true; more;) { more = false; for (int k = 0; k < 24; ++k) if (in[k]) for (auto& g : d.generators) { Perm m = mul(g, nth(k)); for (int q = 0; q < 24; ++q) if (nth(q) == m && !in[q]) in[q] = more = true; } }
    for (int k = 0; k < 24; ++k) { Perm s = nth(k); int v = 0; for (int i = 0; i < 4; ++i) if (vset(o) >> i & 1) v |= 1 << s[i]; vc_check(in[k] == (v == vset(o)), "the generators give every permutation that keeps the element");
        if (v == vset(o)) { int c = S4::stabilizer_character(s.data(), o), want = 1; if (t == 2) want = s[en[e][0]] == en[e][0] ? 1 : -1; if (t == 4) { for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if ((vset(o) >> i & 1) && (vset(o) >> j & 1) && s[i] > s[j]) want = -want; } vc_check(c == want, "sign of a permutation of the element"); } }
    LocalOrder r(0, 1 << t, 0, 0, 0, 0); Perm p = S4::perm_vertex_to_repr(r, o); int v = 0; bool seen[4] = {}; for (int i = 0; i < 4; ++i) { vc_check(p[i] < 4 && !seen[p[i]], "a permutation"); seen[p[i] & 3] = true; if (vset(r) >> i & 1) v |= 1 << p[i]; } vc_check(v == vset(o), "takes the first element to the target");
}
VC(keys) { for (int t = 0; t < 6; ++t) { LocalOrder o(0, 1 << t, 0, 0, 0, 0); auto k = S4::symmetry_type_key(o); vc_check(k.oriented == (t == 2 || t == 4) && k.etype == (t == 0 ? NODE : t == 5 ? CELL : t < 3 ? EDGE : FACE) && k == k && !(k < k), "type and orientation"); for (int u = 0; u < 6; ++u) { LocalOrder q(0, 1 << u, 0, 0, 0, 0); auto z = S4::symmetry_type_key(q); vc_check((k == z) == (t == u) && ((k < z) + (z < k) + (k == z)) == 1, "keys are ordered"); vc_check(S4::same_geom_sym(o, q) == (t == u), "same location"); } }
    LocalOrder a(0, EDGE_ORIENT, 1, 0, 1, 0), b(5, EDGE_ORIENT, 1, 7, 1, 0), c(0, EDGE_ORIENT, 2, 0, 1, 0), d(0, EDGE_ORIENT, 1, 0, 1, 1), e(0, EDGE_ORIENT, 1, 0, 0, 0); vc_check(S4::same_geom_sym(a, b) && !S4::same_geom_sym(a, c) && !S4::same_geom_sym(a, d) && !S4::same_geom_sym(a, e), "same location"); }
