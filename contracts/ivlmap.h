#pragma once
// histories of an interval map against the function it stands for; KEY and ANYKEY(name) chosen by the including file. The values 1 and 2 are
// interchangeable (the code only compares them), so the first one is 1.
#include "common.h"
#include <limits>
#include <string>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "anifem++/interval/interval_map.h"
using namespace Ani; using M = interval_map<KEY, long>;
struct Op { bool l, r; KEY a, b; long v; bool has(KEY x) const { return (l || a <= x) & (r || x < b); } };   // l, r: infinite to the left, right
static int has(const Op& o, KEY x) { return (o.l | (o.a <= x)) & (o.r | (x < o.b)); }
static int meet(const Op& p, const Op& q) { // some integer lies in both
    int e1 = p.l | p.r | (p.a < p.b), e2 = q.l | q.r | (q.a < q.b);
    return e1 & e2 & (p.l | q.r | (p.a < q.b)) & (q.l | p.r | (q.a < p.b)); }
static Op draw(int n) { Op o; int f = (int)vc_choose("form", 0, 3); o.l = f & 1; o.r = f & 2; o.a = o.l ? 0 : ANYKEY("a"); o.b = o.r ? 0 : ANYKEY("b"); o.v = n ? vc_choose("v", 1, 2) : 1; return o; }
static std::pair<M::iterator, bool> put(M& m, const Op& o) {
    auto inf = M::tag_inf; if (o.l && o.r) return m.insert(inf, inf, o.v); if (o.l) return m.insert(inf, o.b, o.v); if (o.r) return m.insert(o.a, inf, o.v); return m.insert(o.a, o.b, o.v); }
static void look(M& m, const std::vector<Op>& acc, KEY x) {
    int in = 0, v = 0; for (auto& o : acc) { int h = has(o, x); in |= h; v |= h * (int)o.v; }   // accepted intervals with different values are disjoint, so v is one of 1, 2
    const M& c = m; bool k = m.contains(x); vc_check(k == (in != 0), "a key is in the map exactly if an accepted interval contains it");
    auto it = c.find(x); vc_check((it != c.end()) == k, "find agrees with contains"); vc_check(m.count(x) == (k ? 1u : 0u), "count");
    if (k && it != c.end()) { vc_check(it->second == v, "the key maps to the value it was accepted with"); vc_check(c[x] == v, "operator[]"); vc_check(c.at(x) == v, "at"); vc_check(it.contains(x), "the interval found contains the key"); vc_check((&*m.find(x)) == (&*it), "mutable and const lookup agree"); }
    else { bool t = false; try { c.at(x); } catch (const std::out_of_range&) { t = true; } vc_check(t, "at reports a missing key"); }
}
static void shape(M& m, const std::vector<Op>& acc) {
    vc_check(m.empty() == (m.size() == 0), "empty"); int any = 0, li = 0, ri = 0; for (auto& o : acc) { any |= 1; li |= o.l; ri |= o.r; } vc_check(m.empty() == !any, "empty exactly if nothing was accepted");
    std::size_t n = 0; for (auto it = m.begin(); it != m.end(); ++it, ++n) { auto nx = std::next(m.begin(), n + 1); bool first = n == 0, last = n + 1 == m.size();
        vc_check(it.is_left_infinite() == (first && li), "only the first interval may be infinite to the left, and it is if such an interval was accepted"); vc_check(it.is_right_infinite() == (last && ri), "only the last interval may be infinite to the right, and it is if such an interval was accepted");
        if (!it.is_left_infinite() && !it.is_right_infinite()) vc_check(it->first.m_start < it->first.m_end, "stored intervals are not empty");
        if (!last) vc_check(it->first.m_end <= nx->first.m_start, "stored intervals are disjoint and sorted"); }
    vc_check(n == m.size(), "iteration visits every interval");
}
static void run(int n, int lookAt) {
    M m; std::vector<Op> acc; KEY x = ANYKEY("key");
    for (int i = 0; i < n; ++i) { Op o = draw(i); int empty = !(o.l | o.r) & (o.a >= o.b), clash = 0; for (auto& p : acc) clash |= (p.v != o.v) & meet(p, o);
        auto r = put(m, o); vc_check(r.second == !(empty | clash), "an insertion is rejected exactly if it is empty or conflicts with a stored interval"); if (r.second) acc.push_back(o); }
    if (lookAt & 1) shape(m, acc); if (lookAt & 2) look(m, acc, x);
    vc_cover("history");
}
