// Independent reference model of a local dof numbering: the list of dofs of a tetrahedron in numbering order.
#pragma once
#include "dofgeom.h"
#include <memory>
namespace vcx {
using DofT::uint; using DofT::uchar;
static const int n_elem[6] = {4, 6, 6, 4, 4, 1}, t_dim[6] = {0, 1, 1, 2, 2, 3};
struct MD { int t, e; unsigned l; uchar st, ls; bool mix = false; MD(int t, int e, unsigned l, uchar st, uchar ls): t(t), e(e), l(l), st(st), ls(ls) {} };     // geometric type, element, number on the element, symmetry class and position; mix: the elementary map has oriented and unoriented dofs on the same elements
inline void m_mark(std::vector<MD>& m) { bool h[6] = {}; for (auto& d : m) h[d.t] = true; if ((h[1] && h[2]) || (h[3] && h[4])) for (auto& d : m) d.mix = true; }
using Model = std::vector<MD>;
inline unsigned m_count(const Model& m, int t, int e = 0) { unsigned c = 0; for (auto& d : m) c += d.t == t && d.e == e; return c; }
inline Model m_leaf(std::array<uint, 6> n) { Model m; for (int t = 0; t < 6; ++t) for (int e = 0; e < n_elem[t]; ++e) for (unsigned k = 0; k < n[t]; ++k) m.push_back(MD{t, e, k, 255, 255}); m_mark(m); return m; }
// s[t]: how many symmetry groups of every class live on one element of type t
static const int sym_vol[6][5] = {{1}, {1, 2}, {1, 2}, {1, 3, 6}, {1, 3, 6}, {1, 4, 6, 12, 24}}, sym_n[6] = {1, 2, 2, 3, 3, 5};
using Syms = std::array<std::array<uint, 5>, 6>;
inline Model m_sym(const Syms& s) { Model m; for (int t = 0; t < 6; ++t) for (int e = 0; e < n_elem[t]; ++e) { unsigned l = 0; for (int c = 0; c < sym_n[t]; ++c) for (unsigned g = 0; g < s[t][c]; ++g) for (int p = 0; p < sym_vol[t][c]; ++p) m.push_back(MD{t, e, l++, uchar(c), uchar(p)}); } m_mark(m); return m; }
inline void m_append(Model& r, const Model& m) { unsigned sh[6]; for (int t = 0; t < 6; ++t) sh[t] = m_count(r, t); for (auto d : m) { d.l += sh[d.t]; r.push_back(d); } }
inline Model m_vec(int dim, const Model& m) { Model r; for (int i = 0; i < dim; ++i) m_append(r, m); return r; }
inline Model m_cat(std::initializer_list<Model> l) { Model r; for (auto& m : l) m_append(r, m); return r; }
inline bool same(const DofT::LocalOrder& o, const MD& d, unsigned gid) { return o.gid == gid && o.etype == (1 << d.t) && o.nelem == d.e && o.leid == d.l && o.stype == d.st && o.lsid == d.ls; }
// every pointwise fact about a numbering
inline void check_map(const DofT::BaseDofMap& m, const Model& M) {
    using namespace DofT;
    vc_check(m.NumDofOnTet() == M.size(), "total number of dofs");
    auto nd = m.NumDofs(); auto nt = m.NumDofsOnTet(); unsigned mask = 0;
    for (int t = 0; t < 6; ++t) {
        unsigned c = m_count(M, t); uchar g = 1 << t;
        vc_check(m.NumDof(g) == c && nd[t] == c, "number of dofs on one element");
        vc_check(m.NumDofOnTet(g) == c * n_elem[t] && nt[t] == c * n_elem[t], "number of dofs on all elements of a type");
        vc_check(m.DefinedOn(g) == (c > 0), "definedness"); if (c) mask |= g;
    }
    vc_check(m.GetGeomMask() == mask, "mask of the types with dofs");
    for (unsigned i = 0; i < M.size(); ++i) {
        auto& d = M[i]; LocGeomOrder go(1 << d.t, d.e, d.l);
        vc_check(m.isValidIndex(TetOrder(i)) && m.isValidIndex(go), "valid indices are accepted");
        auto lo = m.LocalOrderOnTet(TetOrder(i));
        vc_check(same(lo, d, i), "number to location");
        vc_check(lo.isValid() && m.isValidIndex(lo), "the location is a valid index");
        vc_check(m.isValidIndex(lo, true) == (d.st != 255), "validity with the symmetry position");
        vc_check(m.TypeOnTet(i) == (1u << d.t), "type of a dof");
        vc_check(m.TetDofID(go) == i, "location to number");
        auto x = m.TetDofIDExt(go); vc_check(x.first == i && x.second.stype == d.st && x.second.lsid == d.ls, "location to number and symmetry position");
        vc_check(same(m.LocalOrderOnTet(go), d, i) && same(m[go], d, i) && same(m[i], d, i) && same(m.at(TetOrder(i)), d, i) && same(m.at(go), d, i), "accessors agree");
    }
    for (int t = 0; t < 6; ++t) {
        vc_check(!m.isValidIndex(LocGeomOrder(1 << t, n_elem[t], 0)) && !m.isValidIndex(LocGeomOrder(1 << t, 0, m_count(M, t))), "invalid locations are rejected");
        unsigned k = 0; uchar want = 0; for (auto& d : M) if (d.t == t && d.st != 255) want |= 1 << d.st; bool und = false; for (auto& d : M) if (d.st == 255) und = true;
        (void)k; if (!und && !M.empty()) vc_check(m.SymComponents(1 << t) == want, "symmetry classes present on a type");
    }
    vc_check(!m.isValidIndex(TetOrder(M.size())), "numbers past the end are rejected");
    bool thrown = false; try { m.at(TetOrder(M.size())); } catch (std::out_of_range&) { thrown = true; } vc_check(thrown, "at() reports an invalid number");
    unsigned k = 0; for (auto it = m.begin(); it != m.end(); ++it, ++k) vc_check(k < M.size() && same(*it, M[k], k) && it->gid == k && it - m.begin() == (int)k, "iteration over all dofs");
    vc_check(k == M.size(), "iteration visits every dof once");
    if (M.size() > 2) { auto it = m.begin() + 2; vc_check(it->gid == 2 && same(it[-1], M[1], 1) && (it - 1)->gid == 1 && it > m.begin() && m.begin() < it && it >= it && it <= it && !(it < it), "iterator arithmetic"); --it; it += 1; it -= 2; vc_check(it == m.begin() && (*it++).gid == 0 && (*it--).gid == 1, "iterator arithmetic"); }
}
// selection iterators in both orders
inline void check_sparse(const DofT::BaseDofMap& m, const Model& M, const Sel& s) {
    unsigned k = 0; auto end = m.endBySparsity(); bool mix = false; for (auto& d : M) mix |= d.mix;
    if (mix) {  // an elementary map with both kinds of dofs on one element goes element by element: only the set of visited dofs is promised
        std::vector<char> seen(M.size(), 0); unsigned steps = 0;
        for (auto it = m.beginBySparsity(s.sp); it != end; ++it) { unsigned g = it->gid; vc_check(g < M.size() && ++steps <= M.size(), "a selected dof is visited"); if (g >= M.size() || steps > M.size()) return; vc_check(same(*it, M[g], g), "full description of the visited dof"); vc_check(!seen[g] && s.has(Where{t_dim[M[g].t], M[g].e, M[g].t}), "each selected dof once"); seen[g] = 1; }
        for (unsigned i = 0; i < M.size(); ++i) vc_check(seen[i] || !s.has(Where{t_dim[M[i].t], M[i].e, M[i].t}), "no selected dof is missed");
        return;
    }
    for (auto it = m.beginBySparsity(s.sp); it != end; ++it, ++k) {
        while (k < M.size() && !s.has(Where{t_dim[M[k].t], M[k].e, M[k].t})) ++k;
        vc_check(k < M.size() && same(*it, M[k], k), "the selected dofs come in increasing order");
        if (k >= M.size()) return;
    }
    for (; k < M.size(); ++k) vc_check(!s.has(Where{t_dim[M[k].t], M[k].e, M[k].t}), "no selected dof is missed");
}
inline void check_sparse_geom(const DofT::BaseDofMap& m, const Model& M, const Sel& s) {
    std::vector<char> seen(M.size(), 0); int last = -1; auto end = m.endBySparsity(); unsigned steps = 0;
    for (auto it = m.beginBySparsity(s.sp, true); it != end; ++it) {
        unsigned g = it->gid; vc_check(g < M.size() && ++steps <= M.size(), "a selected dof is visited"); if (g >= M.size() || steps > M.size()) return;
        vc_check(same(*it, M[g], g), "full description of the visited dof");
        int pos = t_dim[M[g].t] * 8 + M[g].e; vc_check(pos >= last, "element by element"); last = pos;
        vc_check(!seen[g] && s.has(Where{t_dim[M[g].t], M[g].e, M[g].t}), "each selected dof once"); seen[g] = 1;
    }
    for (unsigned i = 0; i < M.size(); ++i) vc_check(seen[i] || !s.has(Where{t_dim[M[i].t], M[i].e, M[i].t}), "no selected dof is missed");
}
}
