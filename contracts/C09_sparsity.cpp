// Sets of geometric parts (TetGeomSparsity): every operation is the set operation it is named after, for every set.
// VCFLAGS: timeout=120 link=anifem++/fem/tetdofmap.cpp
#include "dofgeom.h"
using namespace vcx; using namespace Ani::DofT;
using Sp = TetGeomSparsity;
static const int cnt[4] = {4, 6, 4, 1}, edge_nodes[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
static int nodes_of(int d, int e) { switch (d) { case 0: return 1 << e; case 1: return (1 << edge_nodes[e][0]) | (1 << edge_nodes[e][1]); case 2: return (1 << e) | (1 << (e + 1) % 4) | (1 << (e + 2) % 4); default: return 15; } }
static bool in_closure(int d, int e, int D, int E) { return d <= D && (d < D || e == E) && (nodes_of(d, e) & ~nodes_of(D, E)) == 0; }
static bool has(const Sp& s, int d, int e) { auto r = s.getElemsIds(d); for (int k = 0; k < r.second; ++k) if (r.first[k] == e) return true; return false; }
static int bit(int d, int e) { static const int off[4] = {0, 4, 10, 14}; return 1 << (off[d] + e); }
static Sp make(int mask) { Sp s; for (int d = 0; d < 4; ++d) for (int e = 0; e < cnt[d]; ++e) if (mask & bit(d, e)) s.set(d, e); return s; }
static int spread(int k) { return (int)((unsigned)k * 2654435761u >> 17); }     // 15-bit masks all over the range
static void is(const Sp& s, int mask, const char* what) {
    bool any = false; for (int d = 0; d < 4; ++d) { int k = 0; auto r = s.getElemsIds(d); for (int e = 0; e < cnt[d]; ++e) if (mask & bit(d, e)) { vc_check(k < r.second && r.first[k] == e, what); ++k; any = true; } vc_check(r.second == k && s.empty(d) == (k == 0), what); }
    vc_check(s.empty() == !any, what);
}
static void walk(int mask) {
    Sp s = make(mask); is(s, mask, "parts of the set");
    auto p = s.beginPos(); for (int d = 0; d < 4; ++d) { auto q = s.beginPos(d); for (int e = 0; e < cnt[d]; ++e) if (mask & bit(d, e)) { vc_check(p.isValid() && p.elem_dim == d && p.elem_num == e, "walk over all parts in order"); vc_check(q.isValid() && q.elem_dim == d && q.elem_num == e, "walk over the parts of a dimension"); p = s.nextPos(p); q = s.nextPosOnDim(q); } vc_check(!q.isValid() && q == s.endPos(), "end of the parts of a dimension"); }
    vc_check(!p.isValid() && p == s.endPos(), "end of the walk");
    for (int d = 0; d < 4; ++d) for (int e = 0; e < cnt[d]; ++e) {   // from any position, contained or not
        auto n = s.nextPos(Sp::Pos(d, e)); bool found = false; for (int D = d; D < 4 && !found; ++D) for (int E = D == d ? e + 1 : 0; E < cnt[D] && !found; ++E) if (mask & bit(D, E)) { found = true; vc_check(n.elem_dim == D && n.elem_num == E, "next part after a position"); } vc_check(found == n.isValid(), "next part after a position");
    }
}
static void update(int mask, int D, int E) {
    int up = mask, down = mask; for (int d = 0; d < 4; ++d) for (int e = 0; e < cnt[d]; ++e) if (in_closure(d, e, D, E)) { up |= bit(d, e); down &= ~bit(d, e); }
    Sp a = make(mask); is(a.set(D, E), mask | bit(D, E), "set"); Sp b = make(mask); is(b.unset(D, E), mask & ~bit(D, E), "unset");
    Sp c = make(mask); is(c.set(D, E, true), up, "set with closure"); Sp d = make(mask); is(d.unset(D, E, true), down, "unset with closure");
    Sp e = make(mask), f = make(mask), g = make(mask), h = make(mask);
    switch (D) { case 0: is(e.setNode(E), mask | bit(D, E), "setNode"); is(f.unsetNode(E), mask & ~bit(D, E), "unsetNode"); break;
        case 1: is(e.setEdge(E), mask | bit(D, E), "setEdge"); is(f.unsetEdge(E), mask & ~bit(D, E), "unsetEdge"); is(g.setEdge(E, true), up, "setEdge with closure"); is(h.unsetEdge(E, true), down, "unsetEdge with closure"); break;
        case 2: is(e.setFace(E), mask | bit(D, E), "setFace"); is(f.unsetFace(E), mask & ~bit(D, E), "unsetFace"); is(g.setFace(E, true), up, "setFace with closure"); is(h.unsetFace(E, true), down, "unsetFace with closure"); break;
        case 3: is(e.setCell(), mask | bit(D, E), "setCell"); is(f.unsetCell(), mask & ~bit(D, E), "unsetCell"); is(g.setCell(true), up, "setCell with closure"); is(h.unsetCell(true), down, "unsetCell with closure"); break; }
    int all = 0; for (int k = 0; k < cnt[D]; ++k) all |= bit(D, k); Sp i = make(mask), j = make(mask); is(i.set(D), mask | all, "set a dimension"); is(j.unset(D), mask & ~all, "unset a dimension");
    Sp k = make(mask), l = make(mask); switch (D) { case 0: is(k.setNodes(), mask | all, "setNodes"); is(l.unsetNodes(), mask & ~all, "unsetNodes"); break; case 1: is(k.setEdges(), mask | all, "setEdges"); is(l.unsetEdges(), mask & ~all, "unsetEdges"); break; case 2: is(k.setFaces(), mask | all, "setFaces"); is(l.unsetFaces(), mask & ~all, "unsetFaces"); break; }
    k.clear(); is(k, 0, "clear");
}
static void binary(int x, int y) {
    Sp a = make(x), b = make(y); is(a & b, x & y, "intersection"); is(a | b, x | y, "union"); is(a ^ b, x ^ y, "symmetric difference"); is(~a, ~x & 0x7FFF, "complement"); Sp c = a; is(c.set(b), x | y, "set of a set"); Sp d = a; is(d.unset(b), x & ~y, "unset of a set"); is(~(~a), x, "complement twice"); auto n = ~a; vc_check((~Sp().setNodes().setEdges().setFaces().setCell()).empty(), "complement of everything is empty"); (void)n;
}
// a part of one dimension is independent of the other dimensions: exhaustive over the words of every dimension
VC(walk_dims) { walk(vc_choose("nodes", 0, 15) | vc_choose("edges", 0, 63) << 4); }
VC(walk_dims2) { walk((int)vc_choose("edges", 0, 3) << 4 | vc_choose("faces", 0, 15) << 10 | vc_choose("cell", 0, 1) << 14 | vc_choose("nodes", 0, 1)); }
VC(update_node) { update(vc_choose("nodes", 0, 15) | 0x2550, 0, vc_choose("i", 0, 3)); }
VC(update_edge) { int e = vc_choose("i", 0, 5); update(vc_choose("nodes", 0, 15) | vc_choose("edges", 0, 63) << 4, 1, e); }
VC(update_face) { int f = vc_choose("i", 0, 3), w = vc_choose("word", 0, 511); update(spread(w) & 0x7FFF, 2, f); }
VC(update_cell) { update(spread(vc_choose("word", 0, 511)) & 0x7FFF, 3, 0); }
VC(algebra) { int x = spread(vc_choose("x", 0, 63)), y = spread(vc_choose("y", 0, 63) + 1000); binary(x & 0x7FFF, y & 0x7FFF); }
VC(bad_dim) { bool t = false; Sp s; try { s.set(4, 0); } catch (std::runtime_error&) { t = true; } vc_check(t && s.empty(), "a dimension that does not exist is reported"); t = false; try { s.unset(4, 0); } catch (std::runtime_error&) { t = true; } vc_check(t, "a dimension that does not exist is reported"); }
