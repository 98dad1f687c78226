// VCFLAGS: timeout=200 iters=300
// C17: interval_enum over an arbitrary valid table of k intervals (k an instantiation parameter; first values, lengths and gaps arbitrary): lookups by
// position and by value are inverse, lookups of anything else give the end, bounds, one-step moves, distance and comparisons agree with positions.
// Table: (number of elements before the interval, first element of the interval) for every interval, then (total number, last element + 1).
#include "common.h"
#include "anifem++/interval/interval_enum.h"
using namespace Ani;
static const long B = 1L << 20;
struct Own { using Mem = interval_own_memory<long, long>; static Mem make(const long* t, int k) { Mem m; for (int i = 0; i <= k; ++i) m.m_dat.push_back({t[2 * i], t[2 * i + 1]}); return m; } };
struct Ext { using Mem = interval_external_memory<long>; static Mem make(const long* t, int k) { Mem m; m.m_dat_st = const_cast<long*>(t); m.m_dat_end = const_cast<long*>(t) + 2 * (k + 1); return m; } };
struct Table { long t[10]; int k; long total() const { return t[2 * k]; } long first(int j) const { return t[2 * j + 1]; } long len(int j) const { return t[2 * j + 2] - t[2 * j]; } };
static Table table(int k) { Table T; T.k = k; long n = 0, v = vc_int("first", -B, B); for (int j = 0; j < k; ++j) { if (j) v += vc_int("gap", 0, B); long L = vc_int("length", 1, B); T.t[2 * j] = n; T.t[2 * j + 1] = v; n += L; v += L; } T.t[2 * k] = n; T.t[2 * k + 1] = v; return T; }
static int intervals(int lo = 1) { return (int)vc_choose("intervals", lo, 3); }
template<class S> static void lookups() {
    Table T = table(intervals()); interval_enum<typename S::Mem> e(S::make(T.t, T.k)); vc_check(e.size() == (std::size_t)T.total(), "size"); vc_check(!e.empty(), "not empty");
    int j = (int)vc_choose("in", 0, T.k - 1); long s = vc_int("offset", 0, B); vc_assume(s < T.len(j)); long pos = T.t[2 * j] + s, val = T.first(j) + s;   // an arbitrary element
    auto p = e.find_left(pos), q = e.find_right(val); vc_check(p != e.end() && q != e.end(), "an element is found by position and by value"); vc_check((*p).first == pos && (*p).second == val, "element at a position"); vc_check(q->first == pos && q->second == val, "position of an element"); vc_check(p == q, "the two lookups agree");
    vc_check(e.contains_left(pos) && e.contains_right(val), "contains"); auto l = e.lower_bound_left(pos), r = e.lower_bound_right(val); vc_check(l == p && r == p, "lower bounds of an element are the element itself"); vc_cover("element");
}
template<class S> static void absent() {
    Table T = table(intervals()); interval_enum<typename S::Mem> e(S::make(T.t, T.k)); int w = (int)vc_choose("where", 0, 2 * T.k); long x = vc_int("x", -4 * B, 4 * B), y = vc_int("y", -8 * B, 8 * B);
    if (w == 0) { vc_assume(x < 0); vc_check(e.find_left(x) == e.end() && !e.contains_left(x), "no element before the first position"); auto lb = e.lower_bound_left(x); vc_check(lb == e.begin(), "lower bound of a position before the first"); }
    if (w == 1) { vc_assume(x >= T.total()); vc_check(e.find_left(x) == e.end() && !e.contains_left(x) && e.lower_bound_left(x) == e.end() && e.upper_bound_left(x) == e.end(), "no element after the last position"); }
    if (w == 2) { vc_assume(y < T.first(0)); vc_check(e.find_right(y) == e.end() && !e.contains_right(y), "no element below the smallest value"); vc_check(e.lower_bound_right(y) == e.begin(), "lower bound of a value below the smallest"); }
    if (w == 3) { vc_assume(y >= T.t[2 * T.k + 1]); vc_check(e.find_right(y) == e.end() && !e.contains_right(y) && e.lower_bound_right(y) == e.end() && e.upper_bound_right(y) == e.end(), "no element above the largest value"); }
    if (w >= 4) { int j = (w - 4) % T.k; if (j + 1 < T.k) { vc_assume((y >= T.first(j) + T.len(j)) & (y < T.first(j + 1))); vc_check(e.find_right(y) == e.end() && !e.contains_right(y), "values in gaps are absent"); auto lb = e.lower_bound_right(y); vc_check(lb->first == T.t[2 * j + 2] && lb->second == T.first(j + 1), "lower bound of a value in a gap is the next element"); } }
    vc_cover("absent");
}
template<class S> static void moves() {
    Table T = table(intervals()); interval_enum<typename S::Mem> e(S::make(T.t, T.k)); long i = vc_int("i", 0, 4 * B), n = T.total(); vc_assume(i < n);
    auto it = e.find_left(i); auto nx = it; ++nx; auto want = e.find_left(i + 1); vc_check(nx == want, "the next iterator is at the next position, or at the end after the last"); vc_check((i + 1 < n) == (nx != e.end()), "the end is reached exactly after the last element");
    auto bk = nx; --bk; vc_check(bk == it, "stepping back undoes stepping forward"); auto old = nx--; vc_check(old == want && nx == it, "postfix decrement"); old = it++; vc_check(it == want && old == bk, "postfix increment");
    if (i == 0) vc_check(old == e.begin(), "the first element is at the beginning"); vc_check(e.upper_bound_left(i) == want, "upper bound of a position"); auto v = (*old).second; auto ub = e.upper_bound_right(v); vc_check(ub == want, "upper bound of an element is the next one"); if (i + 1 < n) vc_check((*want).second > v, "elements are visited in increasing order"); vc_cover("moves");
}
template<class S> static void compare() {
    Table T = table((int)vc_choose("intervals", 1, 2)); interval_enum<typename S::Mem> e(S::make(T.t, T.k)); long n = T.total(), i = vc_int("i", 0, 4 * B), j = vc_int("j", 0, 4 * B); vc_assume((i <= n) & (j <= n)); auto a = i < n ? e.find_left(i) : e.end(), b = j < n ? e.find_left(j) : e.end();
    vc_check((a == b) == (i == j), "=="); vc_check((a != b) == (i != j), "!="); vc_check((a < b) == (i < j), "<"); vc_check((a > b) == (i > j), ">"); vc_check((a <= b) == (i <= j), "<="); vc_check((a >= b) == (i >= j), ">="); vc_check(a - b == i - j, "distance"); vc_cover("compare");
}
VC(own_lookups) { lookups<Own>(); }
VC(ext_lookups) { lookups<Ext>(); }
VC(own_absent) { absent<Own>(); }
VC(ext_absent) { absent<Ext>(); }
VC(own_moves) { moves<Own>(); }
VC(ext_moves) { moves<Ext>(); }
VC(own_compare) { compare<Own>(); }
VC(ext_compare) { compare<Ext>(); }
// iterators of the externally stored table itself
VC(ext_table) {
    long t[16]; for (int i = 0; i < 16; ++i) t[i] = 100 + i; auto m = Ext::make(t, 7); int i = (int)vc_choose("i", 0, 8), j = (int)vc_choose("j", 0, 8); auto a = m.begin(); a += i; auto b = m.begin(); b += j;
    vc_check((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j), "comparisons"); vc_check((a <= b) == (i <= j), "<="); vc_check((a >= b) == (i >= j), ">="); vc_check(a - b == i - j, "distance"); vc_check((i == 8) == (a == m.end()), "end");
    if (i < 8) { vc_check((*a).first == 100 + 2 * i && a->second == 101 + 2 * i, "entry"); vc_check(m.begin()[i].second == 101 + 2 * i, "indexing"); auto c = a; auto d = c++; vc_check(d == a && c - a == 1, "postfix increment"); vc_check(--c == a && ++c != a, "steps"); d = c--; vc_check(c == a && d - a == 1, "postfix decrement"); }
    auto z = m.begin(); vc_check(z + i == a && i + z == a, "sum"); auto y = a; vc_check(y - i == m.begin() && (y -= i) == m.begin(), "difference"); vc_cover("table");
}
VC(nothing) { interval_enum<interval_own_memory<long, long>> e; interval_enum<interval_external_memory<long>> f; long x = vc_int("x", -B, B); vc_check(e.size() == 0 && e.empty() && f.size() == 0 && f.empty(), "empty"); vc_check(e.find_left(x) == e.end() && e.find_right(x) == e.end() && e.begin() == e.end() && e.lower_bound_left(x) == e.end() && e.lower_bound_right(x) == e.end() && !e.contains_left(x) && !e.contains_right(x), "nothing is found"); vc_check(f.find_left(x) == f.end() && f.find_right(x) == f.end() && f.begin() == f.end(), "nothing is found"); Table T = table(1); interval_enum<interval_own_memory<long, long>> g(Own::make(T.t, 1)); g.clear(); vc_check(g.empty(), "clear"); vc_cover("empty"); }
VC_NEG(lookups) { Table T = table(2); interval_enum<Own::Mem> e(Own::make(T.t, 2)); long i = vc_int("i", 0, B); vc_assume(i < T.total()); vc_check((*e.find_left(i)).second == T.first(0) + i, "wrong"); }
