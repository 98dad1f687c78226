// Local dof numbering of elementary, vector and composite maps against the reference model (list of dofs in order).
// VCFLAGS: timeout=300 link=anifem++/fem/tetdofmap.cpp
#include "dofmodel.h"
using namespace vcx; using namespace Ani::DofT;
using P = std::shared_ptr<BaseDofMap>;
struct MM { P map; Model m; };
static MM leaf(std::array<uint, 6> n) { return {std::make_shared<UniteDofMap>(n), m_leaf(n)}; }
static MM syms(const Syms& s) { DofSymmetries d({s[0][0]}, {s[1][0], s[1][1]}, {s[2][0], s[2][1]}, {s[3][0], s[3][1], s[3][2]}, {s[4][0], s[4][1], s[4][2]}, {s[5][0], s[5][1], s[5][2], s[5][3], s[5][4]}); return {std::make_shared<UniteDofMap>(d), m_sym(s)}; }
static MM vec(int d, const MM& a) { return {std::make_shared<VectorDofMap>(d, a.map), m_vec(d, a.m)}; }
static MM com(std::initializer_list<MM> l) { std::vector<P> v; Model m; for (auto& x : l) { v.push_back(x.map); m_append(m, x.m); } return {std::make_shared<ComplexDofMap>(v), m}; }
static const Syms sP1 = {{{1}}}, sP2 = {{{1}, {1}}}, sP3 = {{{1}, {0, 1}, {}, {1}}}, sND = {{{}, {}, {1}}}, sRT = {{{}, {}, {}, {}, {1}}}, sP0 = {{{}, {}, {}, {}, {}, {1}}},
    sMix = {{{2}, {1, 1}, {2, 1}, {1, 1, 1}, {2, 1}, {1, 1, 0, 1}}}, sEF = {{{}, {1}, {0, 1}, {0, 1}, {1}}}, sCR = {{{}, {}, {}, {1}}}, sND2 = {{{1}, {}, {0, 1}, {0, 1}}}, sB4 = {{{}, {}, {}, {}, {}, {1}}};
static MM tree(int k) {
    switch (k) {
        case 0: return leaf({1, 0, 0, 0, 0, 0});  case 1: return leaf({1, 2, 0, 1, 0, 0}); case 2: return leaf({0, 0, 1, 0, 0, 0}); case 3: return leaf({0, 0, 0, 0, 1, 0}); case 4: return leaf({0, 0, 0, 0, 0, 3});
        case 5: return leaf({2, 1, 2, 2, 1, 4}); case 6: return leaf({0, 2, 1, 0, 0, 0}); case 7: return leaf({0, 0, 0, 1, 2, 0}); case 8: return syms(sP3); case 9: return syms(sMix); case 10: return syms(sEF);
        case 11: return vec(3, syms(sP2)); case 12: return vec(2, syms(sEF)); case 13: return vec(2, vec(3, syms(sND))); case 14: return vec(1, leaf({2, 1, 2, 0, 1, 1})); case 15: return vec(3, leaf({0, 2, 1, 1, 2, 0}));
        case 16: return com({syms(sP1), syms(sP0), syms(sP1)}); case 17: return com({vec(3, syms(sP2)), syms(sP1)}); case 18: return com({syms(sND), syms(sP2)}); case 19: return com({syms(sP2), syms(sND)});
        case 20: return com({syms(sRT), syms(sCR), syms(sP0)}); case 21: return com({syms(sCR), syms(sP3), syms(sRT), syms(sND)}); case 22: return com({vec(2, com({syms(sP1), syms(sP0)})), vec(2, syms(sCR)), syms(sB4), syms(sP2)});
        case 23: return vec(2, com({syms(sND), vec(2, syms(sP1)), syms(sP2)})); case 24: return com({com({syms(sEF), syms(sP0)}), com({syms(sRT), com({syms(sCR), syms(sND)})})});
        case 25: return vec(3, vec(2, com({syms(sP1), syms(sB4)}))); case 26: return com({syms(sP0)}); case 27: return com({leaf({0, 0, 2, 0, 0, 0}), leaf({0, 1, 0, 0, 0, 1}), leaf({0, 0, 0, 0, 3, 0}), leaf({0, 0, 0, 2, 0, 0})});
    }
    return leaf({0, 0, 0, 0, 0, 0});
}
constexpr int N = 28;
VC(pointwise) { auto x = tree(vc_choose("map", 0, N)); check_map(*x.map, x.m); }
#define R(a) VC(sparse_##a) { auto x = tree(a); Sel s; all_selections(s); check_sparse(*x.map, x.m, s); } VC(geom_##a) { auto x = tree(a); Sel s; all_selections(s); check_sparse_geom(*x.map, x.m, s); }
R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(11) R(12) R(13) R(14) R(15) R(16) R(17) R(18) R(19) R(20) R(21) R(22) R(23) R(24) R(25) R(26) R(27)
// views on the components
static void view(const BaseDofMap& whole, const Model& W, const NestedDofMapBase& v, const Model& C, unsigned off, const std::array<unsigned, 6>& sh) {
    vc_check(v.base() != nullptr && v.NumDofOnTet() == C.size(), "size of the component");
    for (unsigned i = 0; i < C.size(); ++i) {
        vc_check(same(v.LocalOrderOnTet(TetOrder(i)), W[off + i], off + i), "component number to composite location");
        LocGeomOrder go(1 << C[i].t, C[i].e, C[i].l); vc_check(v.TetDofID(go) == off + i && v.TetDofIDExt(go).first == off + i && same(v.LocalOrderOnTet(go), W[off + i], off + i) && v.TypeOnTet(i) == (1u << C[i].t), "component location to composite number");
    }
    for (unsigned i = 0; i < W.size(); ++i) { bool in = i >= off && i < off + C.size(); auto lo = whole[i]; vc_check(v.isValidOutputIndex(TetOrder(i)) == in && v.isValidOutputIndex(lo) == in && v.isValidOutputIndex(lo.getGeomOrder()) == in, "membership in the component"); }
    for (int t = 0; t < 6; ++t) vc_check(v.m_shiftNumDof[t] == sh[t], "shift on every type");
    Sel s; all_selections(s); unsigned k = 0;
    for (auto it = v.beginBySparsity(s.sp); it != v.endBySparsity(); ++it, ++k) { while (k < C.size() && !s.has(Where{t_dim[C[k].t], C[k].e, C[k].t})) ++k; vc_check(k < C.size() && same(*it, W[off + k], off + k), "selection on the component"); if (k >= C.size()) return; }
    for (; k < C.size(); ++k) vc_check(!s.has(Where{t_dim[C[k].t], C[k].e, C[k].t}), "no selected dof of the component is missed");
}
static void views(const MM& x, std::initializer_list<MM> before, const MM& comp, std::initializer_list<int> path) {
    std::vector<int> p(path); Model pre; for (auto& b : before) m_append(pre, b.m); std::array<unsigned, 6> sh; for (int t = 0; t < 6; ++t) sh[t] = m_count(pre, t);
    if (vc_choose("kind", 0, 1)) { auto v = x.map->GetNestedDofMapView(p.data(), p.size()); view(*x.map, x.m, v, comp.m, pre.size(), sh); } else { auto v = x.map->GetNestedDofMap(p.data(), p.size()); view(*x.map, x.m, v, comp.m, pre.size(), sh); }
    auto sub = x.map->GetSubDofMap(p.data(), p.size()); vc_check(sub && *sub == *comp.map, "stored component");
}
VC(view_vec) { int c = vc_choose("c", 0, 2); auto b = syms(sND2); auto x = vec(3, b); if (c == 0) views(x, {}, b, {0}); else if (c == 1) views(x, {b}, b, {1}); else views(x, {b, b}, b, {2}); }
VC(view_com) { auto a = vec(2, syms(sP2)), b = syms(sND), c = com({syms(sP1), vec(3, syms(sRT))}); auto x = com({a, b, c}); auto p1 = syms(sP1), rt = syms(sRT), p2 = syms(sP2);
    switch (vc_choose("c", 0, 6)) { case 0: views(x, {}, a, {0}); break; case 1: views(x, {a}, b, {1}); break; case 2: views(x, {a, b}, c, {2}); break; case 3: views(x, {p2}, p2, {0, 1}); break; case 4: views(x, {a, b}, p1, {2, 0}); break; case 5: views(x, {a, b, p1, rt, rt}, rt, {2, 1, 2}); break; default: views(x, {a, b, p1}, vec(3, rt), {2, 1}); } }
VC(view_bad) { auto x = com({syms(sP1), vec(2, syms(sP2))}); int p[2] = {2, 0}; auto v = x.map->GetNestedDofMapView(p, 1); vc_check(v.base() == nullptr, "a component that does not exist"); p[0] = 1; p[1] = 2; v = x.map->GetNestedDofMapView(p, 2); vc_check(v.base() == nullptr && !x.map->GetSubDofMap(p, 2), "a component that does not exist"); p[0] = -1; vc_check(!x.map->GetSubDofMap(p, 1) && x.map->GetNestedDofMapView(p, 1).base() == nullptr, "a component that does not exist"); }
// nested maps of nested maps
VC(view_nested) { auto b = syms(sP2), rt = syms(sRT); auto c = com({b, rt}); auto x = vec(2, c); int p0[1] = {1}, p1[2] = {0, 1}; auto v1 = x.map->GetNestedDofMapView(p0, 1); auto v2 = v1.GetNestedDofMapView(p1, 1); (void)v2;
    auto w = v1.GetNestedDofMapView(p1, 2); Model pre = m_cat({c.m, b.m}); std::array<unsigned, 6> sh; for (int t = 0; t < 6; ++t) sh[t] = m_count(pre, t); view(*x.map, x.m, w, rt.m, pre.size(), sh); }
// components of a number
VC(component_ids) {
    auto a = vec(2, syms(sP2)), b = syms(sND), c = syms(sMix); auto x = com({a, b, c}); auto& m = static_cast<ComplexDofMap&>(*x.map); unsigned off = 0; int p = 0;
    for (auto* q : {&a, &b, &c}) { for (unsigned i = 0; i < q->m.size(); ++i) { auto r = m.ComponentID(TetOrder(off + i)); vc_check(r.gid.gid == off + i && r.cgid.gid == i && (int)r.part_id == p && m.TetDofID(p, TetOrder(i)) == off + i, "component of a composite number"); } off += q->m.size(); ++p; }
    for (int t = 0; t < 6; ++t) { unsigned k = 0; p = 0; for (auto* q : {&a, &b, &c}) { for (unsigned i = 0; i < m_count(q->m, t); ++i, ++k) { auto r = m.ComponentID(ElemOrder(1 << t, k)); vc_check(r.etype == (1 << t) && r.gid == k && r.cgid == i && (int)r.part_id == p, "component of a number on an element"); } ++p; } }
    auto& v = static_cast<VectorDofMap&>(*a.map); for (unsigned i = 0; i < a.m.size(); ++i) { auto r = v.ComponentID(TetOrder(i)); vc_check(r.gid.gid == i && r.cgid.gid == i % 10 && r.part_id == i / 10 && v.TetDofID(r.part_id, r.cgid) == i, "component of a vector number"); }
    for (int t = 0; t < 2; ++t) for (unsigned i = 0; i < 2; ++i) { auto r = v.ComponentID(ElemOrder(1 << t, i)); vc_check(r.cgid == 0 && r.part_id == i, "component of a vector number on an element"); }
}
// building maps with the operators of DofMap: the numbering is the concatenation of the numberings
struct DM { DofMap d; Model m; };
static DM dm(const MM& x) { return {DofMap(x.map), x.m}; }
static DM pick(int k) { switch (k) { case 0: return dm(syms(sP1)); case 1: return dm(vec(2, syms(sP1))); case 2: return dm(syms(sEF)); case 3: return dm(com({syms(sP1), syms(sEF)})); case 4: return dm(vec(3, syms(sEF))); case 5: return dm(com({syms(sEF), vec(2, syms(sP1))})); default: return dm(vec(3, syms(sP1))); } }
VC(product) { auto a = pick(vc_choose("a", 0, 6)), b = pick(vc_choose("b", 0, 6)); auto r = a.d * b.d; check_map(*r.base(), m_cat({a.m, b.m})); auto q = merge({a.d, b.d}); check_map(*q.base(), m_cat({a.m, b.m})); vc_check((int)q.NestedDim() == 2, "merge keeps its arguments apart"); }
VC(power) { auto a = pick(vc_choose("a", 0, 6)); int k = vc_choose("k", 1, 3); auto r = a.d ^ k; check_map(*r.base(), m_vec(k, a.m)); auto p = pow(a.d, k); check_map(*p.base(), m_vec(k, a.m)); vc_check((int)p.NestedDim() == k, "pow keeps its argument as component"); }
VC(merge3) { auto a = pick(vc_choose("a", 0, 6)), b = pick(vc_choose("b", 0, 6)), c = pick(vc_choose("c", 0, 6)); auto r = merge_with_simplifications({a.d, b.d, c.d}); vc_check(r.NumDofOnTet() == a.m.size() + b.m.size() + c.m.size(), "total"); Model M = m_cat({a.m, b.m, c.m}); for (unsigned i = 0; i < M.size(); ++i) vc_check(same(r[i], M[i], i) && r.TetDofID(LocGeomOrder(1 << M[i].t, M[i].e, M[i].l)) == i, "numbering of the merged map"); }
VC(compressed) { std::vector<P> v; Model M; P p[3] = {syms(sP1).map, syms(sEF).map, vec(2, syms(sP1)).map}; Model m[3] = {m_sym(sP1), m_sym(sEF), m_vec(2, m_sym(sP1))}; int n = vc_choose("n", 1, 4); for (int i = 0; i < n; ++i) { int k = vc_choose("k", 0, 2); v.push_back(p[k]); m_append(M, m[k]); } auto r = ComplexDofMap::makeCompressed(v); check_map(r, M); }
VC(equality) { auto a = pick(vc_choose("a", 0, 6)), b = pick(vc_choose("b", 0, 6)); auto eq = [](const Model& x, const Model& y) { if (x.size() != y.size()) return false; for (unsigned i = 0; i < x.size(); ++i) if (x[i].t != y[i].t || x[i].e != y[i].e || x[i].l != y[i].l) return false; return true; }; if (*a.d.base() == *b.d.base()) vc_check(eq(a.m, b.m), "equal maps number alike"); vc_check(*a.d.base() == *a.d.base()->Copy(), "a copy is equal"); check_map(*a.d.base()->Copy(), a.m); }
VC(pushback) { ComplexDofMap c; Model M; int n = vc_choose("n", 1, 3); for (int i = 0; i < n; ++i) { auto x = tree(vc_choose("k", 16, 20)); c.PushBack(x.map); m_append(M, x.m); } check_map(c, M); }
