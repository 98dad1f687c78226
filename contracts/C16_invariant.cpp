// VCFLAGS: timeout=300 native=0
// C16, inductive: from an arbitrary state satisfying the data invariant (n stored intervals with arbitrary real ends, sorted, disjoint, not empty unless
// unbounded, any values, either end unbounded) every form of insertion is accepted exactly if it does not conflict, changes the function the map stands for
// exactly by the new interval, and re-establishes the invariant; lookups return that function. n is an instantiation parameter.
#include "common.h"
#include <limits>
#include <string>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <vector>
#include <set>
#define private public
#include "anifem++/interval/interval_map.h"
#undef private
using namespace Ani; using M = interval_map<double, long>;
static const long R = 10;
struct Op { bool l, r; double a, b; long v; bool has(double x) const { return (l || a <= x) & (r || x < b); } };   // l, r: infinite to the left, right
static int has(const Op& o, double x) { return (o.l | (o.a <= x)) & (o.r | (x < o.b)); }
static int meet(const Op& p, const Op& q) { // some integer lies in both
    int e1 = p.l | p.r | (p.a < p.b), e2 = q.l | q.r | (q.a < q.b);
    return e1 & e2 & (p.l | q.r | (p.a < q.b)) & (q.l | p.r | (q.a < p.b)); }
static Op draw(int n) { (void)n; Op o; int f = (int)vc_choose("form", 0, 3); o.l = f & 1; o.r = f & 2; o.a = o.l ? 0 : vc_real("a", -3, 3); o.b = o.r ? 0 : vc_real("b", -3, 3); o.v = vc_choose("v", 1, 2); return o; }
static std::pair<M::iterator, bool> put(M& m, const Op& o) {
    auto inf = M::tag_inf; if (o.l && o.r) return m.insert(inf, inf, o.v); if (o.l) return m.insert(inf, o.b, o.v); if (o.r) return m.insert(o.a, inf, o.v); return m.insert(o.a, o.b, o.v); }

static void arbitrary(M& m, std::vector<Op>& f, int n) {
    int st = (int)vc_choose("unbounded", 0, n ? 3 : 0); double prev = 0;
    for (int i = 0; i < n; ++i) {
        double a = vc_real("start", -3, 3), b = vc_real("end", -3, 3); bool l = i == 0 && (st & 1), r = i == n - 1 && (st & 2); if (i) vc_assume(prev <= a); if (l || r) { if (!(l && r)) vc_assume(a <= b); } else vc_assume(a < b);
        long v = vc_choose("value", 1, 2); m.m_map_list.push_back({interval<double>{a, b}, v}); f.push_back(Op{l, r, a, b, v}); prev = b; }
    m.boundary_status = (unsigned char)st;
}
static int val(const std::vector<Op>& f, double x, int* in) { int k = 0, v = 0; for (auto& o : f) { int h = has(o, x); k |= h; v |= h * (int)o.v; } *in = k; return v; }
static void look(const M& m, double x, int in, int v) {
    auto it = m.find(x); bool k = it != m.end(); vc_check(k == (in != 0), "find succeeds exactly for keys of accepted intervals"); vc_check(m.contains(x) == k, "contains agrees"); vc_check(m.count(x) == (k ? 1u : 0u), "count agrees");
    if (k) { vc_check(it->second == v, "value of the interval that contains the key"); vc_check(it.contains(x), "the interval contains the key"); vc_check(m.at(x) == v && m[x] == v, "at and operator[]"); }
    else { bool t = false; try { m.at(x); } catch (const std::out_of_range&) { t = true; } vc_check(t, "at reports a missing key"); }
}
static void invariant(const M& m) {
    std::size_t n = m.m_map_list.size(); vc_check(m.boundary_status == 0 || n > 0, "no unbounded end without an interval");
    for (std::size_t i = 0; i < n; ++i) { auto& e = m.m_map_list[i].first; bool l = i == 0 && (m.boundary_status & 1), r = i + 1 == n && (m.boundary_status & 2);
        if (l || r) { if (!(l && r)) vc_check(e.m_start <= e.m_end, "ends of an unbounded interval are ordered"); } else vc_check(e.m_start < e.m_end, "stored intervals are not empty");
        if (i + 1 < n) vc_check(e.m_end <= m.m_map_list[i + 1].first.m_start, "stored intervals are sorted and disjoint"); }
}
VC(lookup) { M m; std::vector<Op> f; arbitrary(m, f, (int)vc_choose("n", 0, 4)); double x = vc_real("key", -3, 3); int in, v = val(f, x, &in); look(m, x, in, v); vc_cover("lookup"); }
static void step(int lo, int hi) {
    M m; std::vector<Op> f; arbitrary(m, f, (int)vc_choose("n", lo, hi)); double x = vc_real("key", -3, 3); int in, v = val(f, x, &in); Op o = draw(0); o.v = 1;   // the two values are interchangeable: the code only compares them
    int empty = (!(o.l | o.r)) & !(o.a < o.b), clash = 0; for (auto& p : f) clash |= (p.v != o.v) & meet(p, o);
    auto r = put(m, o); vc_check(r.second == !(empty | clash), "rejected exactly if empty or in conflict"); invariant(m);
    int nin = in, nv = v; if (r.second) { int h = has(o, x); nin = in | h; nv = h ? 1 : v; }
    auto it = m.find(x); bool k = it != m.end(); vc_check(k == (nin != 0), "the map changes exactly by the accepted interval"); if (k) vc_check(it->second == nv, "values change exactly by the accepted interval");
    if (r.second) vc_check(r.first->second == 1, "the returned iterator points to the interval inserted"); vc_cover("step");
}
VC(insert_small) { step(0, 2); }
VC(insert_three) { step(3, 3); }
#ifdef VC_THOROUGH
VC(insert_four) { step(4, 4); }
#endif
VC_NEG(step) { M m; std::vector<Op> f; arbitrary(m, f, 2); double x = vc_real("key", -3, 3); int in; val(f, x, &in); m.insert(0., 1., 1); vc_check(m.contains(x) == (in != 0), "wrong"); }
