// VCFLAGS: timeout=300 iters=200
// C17: ext_range_array_enum and ext_array_enum. The base set A is every subset of a small box (an instantiation parameter), every insertion position and every
// dependence. Direct mapping and size: the range function takes arbitrary positive values (symbolic) and the inserted value is arbitrary below its range; the
// position of an element must be the number of lexicographically smaller elements, which makes the enumeration an order-preserving bijection onto [0, size).
// Inverse mapping, iterators and lookups divide by sums of range values: bounded, over concrete range values 0..2.
#include "common.h"
#include <algorithm>
#include "anifem++/interval/ext_array_enum.h"
using namespace Ani;
template<unsigned N> using Arr = std::array<std::size_t, N>;
template<unsigned N> static std::vector<Arr<N>> subset(unsigned bits, const unsigned* base) {
    std::vector<Arr<N>> A; unsigned tot = 1; for (unsigned i = 0; i < N; ++i) tot *= base[i];
    for (unsigned t = 0; t < tot; ++t) if (bits >> t & 1) { Arr<N> a; unsigned r = t; for (int i = N - 1; i >= 0; --i) { a[i] = r % base[i]; r /= base[i]; } A.push_back(a); }
    return A;
}
template<unsigned N> static Arr<N + 1> ins(const Arr<N>& a, unsigned n, std::size_t s) { Arr<N + 1> b; for (unsigned i = 0; i <= N; ++i) b[i] = i < n ? a[i] : i == n ? s : a[i - 1]; return b; }
template<unsigned N> static int cmp(const Arr<N>& a, const Arr<N>& b, unsigned st, unsigned ed) { for (unsigned i = st; i < ed; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
#ifdef VC_THOROUGH
static bool large(unsigned) { return false; }
#else
static bool large(unsigned bits) { return __builtin_popcount(bits) > 4; }   // base sets of the 3-dimensional box with more than 4 elements: thorough tier
#endif
template<unsigned N> static void direct(unsigned nsub, const unsigned* base, unsigned n, unsigned m) {
    unsigned bits = (unsigned)vc_choose("subset", 1, nsub - 1); if (N > 2 && large(bits)) return; auto A = subset<N>(bits, base); std::vector<std::size_t> rg(base[m]); for (auto& r : rg) r = (std::size_t)vc_int("range", 1, 1 << 20);
    ext_range_array_enum<N, vec_range_func<>> e(A, vec_range_func<>(rg), n, m); e.setup(); long size = 0; for (auto& a : A) size += (long)rg[a[m]]; vc_check((long)e.size() == size, "size is the sum of the ranges"); vc_check(!e.empty(), "not empty");
    auto a = A[vc_choose("element", 0, (long)A.size() - 1)]; long s = vc_int("inserted", 0, 1 << 20); vc_assume(s < (long)rg[a[m]]); long want = 0;
    for (auto& o : A) { int c = cmp<N>(o, a, 0, n); long r = (long)rg[o[m]]; if (c < 0) want += r; if (c == 0) { want += s < r ? s : r; if (cmp<N>(o, a, n, N) < 0 && s < r) want += 1; } }
    auto b = ins<N>(a, n, (std::size_t)s); vc_check((long)e[b] == want, "position is the number of smaller elements"); vc_check(e.contains(b) && e.count(b) == 1, "element is contained"); b = ins<N>(a, n, rg[a[m]] + (std::size_t)s); vc_check(!e.contains(b) && e.find(b) == e.end(), "value outside the range is absent"); vc_cover("direct");
}
static const unsigned B23[2] = {2, 3}, B32[2] = {3, 2}, B222[3] = {2, 2, 2}, B3[1] = {3}, B121[4] = {2, 1, 2, 1};
#define D(NM, N, SUB, BASE, n, m) VC(NM) { direct<N>(SUB, BASE, n, m); }
D(direct_1_0, 1, 8, B3, 0, 0) D(direct_1_1, 1, 8, B3, 1, 0)
D(direct_2_00, 2, 64, B32, 0, 0) D(direct_2_10, 2, 64, B32, 1, 0) D(direct_2_20, 2, 64, B32, 2, 0) D(direct_2_01, 2, 64, B23, 0, 1) D(direct_2_11, 2, 64, B23, 1, 1) D(direct_2_21, 2, 64, B23, 2, 1)
D(direct_3_00, 3, 256, B222, 0, 0) D(direct_3_10, 3, 256, B222, 1, 0) D(direct_3_20, 3, 256, B222, 2, 0) D(direct_3_30, 3, 256, B222, 3, 0) D(direct_3_01, 3, 256, B222, 0, 1) D(direct_3_11, 3, 256, B222, 1, 1) D(direct_3_21, 3, 256, B222, 2, 1) D(direct_3_31, 3, 256, B222, 3, 1)
D(direct_3_02, 3, 256, B222, 0, 2) D(direct_3_12, 3, 256, B222, 1, 2) D(direct_3_22, 3, 256, B222, 2, 2) D(direct_3_32, 3, 256, B222, 3, 2)

static const char* const BND = "subsets of a small box, range values 0..2";
template<class E, class V> static void bijection(const E& e, const std::vector<V>& B) {
    vc_check(e.size() == B.size() && e.empty() == B.empty(), "size"); bool map = true, look = true, it_ = true, step = true, jump = true, cmp = true;
    for (std::size_t i = 0; i < B.size(); ++i) {
        map &= e[B[i]] == i && e[i] == B[i]; look &= e.contains(B[i]) && e.count(B[i]) == 1 && e.find(i)->second == B[i] && e.find(B[i])->second == B[i]; auto it = e.begin(i); it_ &= it->first == i && (*it).second == B[i] && e.find(B[i]) == it; auto nx = it; auto old = nx++; step &= old == it && (i + 1 < B.size() ? nx->first == i + 1 && nx->second == B[i + 1] : nx == e.end());
        --nx; step &= nx == it && nx->second == B[i] && nx->first == i; if (i) { auto pv = it; old = pv--; step &= old == it && pv->first == i - 1 && pv->second == B[i - 1]; }
        for (std::size_t j = 0; j <= B.size(); ++j) { auto to = e.begin(); if (j < B.size()) to = e.begin(j); else to = e.end(); auto a = it; if (j >= i) a += j - i; else a -= i - j; jump &= a == to; if (j < B.size()) jump &= a->second == B[j]; auto s = j >= i ? it + (j - i) : it - (i - j); jump &= s == to; auto bk = to; if (j >= i) bk -= j - i; else bk += i - j; jump &= bk == it && bk->second == B[i];
            cmp &= (it == to) == (i == j) && (it != to) == (i != j) && (it < to) == (i < j) && (it > to) == (i > j) && (it <= to) == (i <= j) && (it >= to) == (i >= j); }
    }
    std::size_t k = 0; bool tr = true; for (auto it = e.begin(); it != e.end() && k <= B.size(); ++it, ++k) tr &= k < B.size() && it->first == k && it->second == B[k]; tr &= k == B.size();
    vc_check(map, "position to element and element to position"); vc_check(look, "lookups of elements"); vc_check(it_, "iterator at a position"); vc_check(step, "one step forward and back"); vc_check(jump, "moves by offsets"); vc_check(cmp, "comparisons agree with positions"); vc_check(tr, "traversal visits every element once in order");
}
template<unsigned N> static std::vector<Arr<N + 1>> extended(const std::vector<Arr<N>>& A, const std::vector<std::size_t>& rg, unsigned n, unsigned m) { std::vector<Arr<N + 1>> B; for (auto& a : A) for (std::size_t s = 0; s < rg[a[m]]; ++s) B.push_back(ins<N>(a, n, s)); std::sort(B.begin(), B.end()); return B; }
template<unsigned N> static void traverse(unsigned nsub, const unsigned* base, unsigned n, unsigned m, bool lb) {
    vc_bounded(BND); unsigned bits = (unsigned)vc_choose("subset", 0, nsub - 1); if (N > 2 && large(bits)) return; auto A = subset<N>(bits, base); std::vector<std::size_t> rg(base[m]); for (auto& r : rg) r = (std::size_t)vc_choose("range", 0, 2); auto B = extended<N>(A, rg, n, m);
    std::reverse(A.begin(), A.end()); if (A.size()) A.push_back(A[0]); ext_range_array_enum<N, vec_range_func<>> e(A, vec_range_func<>(rg), n, m); e.setup(); bijection(e, B);
    if (lb) { bool ok = true, has = true; unsigned t2 = 1; for (unsigned i = 0; i <= N; ++i) t2 *= 3; for (unsigned t = 0; t < t2; ++t) { Arr<N + 1> b; unsigned r = t; for (int i = N; i >= 0; --i) { b[i] = r % 3; r /= 3; } std::size_t l = std::lower_bound(B.begin(), B.end(), b) - B.begin(), u = std::upper_bound(B.begin(), B.end(), b) - B.begin();
            auto x = e.lower_bound(b); ok &= x == (l < B.size() ? e.begin(l) : e.end()) && (l == B.size() || x->second == B[l]); auto y = e.upper_bound(b); ok &= y == (u < B.size() ? e.begin(u) : e.end()) && (u == B.size() || y->second == B[u]); if (b[m + (m >= n)] < base[m]) { has &= e.contains(b) == (l != u); auto f = e.find(b); has &= (f != e.end()) == (l != u); } }
        vc_check(ok, "lower and upper bounds"); vc_check(has, "presence"); }
    vc_cover("traverse");
}
#define T(NM, N, SUB, BASE, n, m) VC(NM) { traverse<N>(SUB, BASE, n, m, N < 3); }
T(trav_1_0, 1, 8, B3, 0, 0) T(trav_1_1, 1, 8, B3, 1, 0)
T(trav_2_00, 2, 64, B32, 0, 0) T(trav_2_10, 2, 64, B32, 1, 0) T(trav_2_20, 2, 64, B32, 2, 0) T(trav_2_01, 2, 64, B23, 0, 1) T(trav_2_11, 2, 64, B23, 1, 1) T(trav_2_21, 2, 64, B23, 2, 1)
T(trav_3_00, 3, 256, B222, 0, 0) T(trav_3_10, 3, 256, B222, 1, 0) T(trav_3_20, 3, 256, B222, 2, 0) T(trav_3_30, 3, 256, B222, 3, 0) T(trav_3_01, 3, 256, B222, 0, 1) T(trav_3_11, 3, 256, B222, 1, 1) T(trav_3_21, 3, 256, B222, 2, 1) T(trav_3_31, 3, 256, B222, 3, 1)
T(trav_3_02, 3, 256, B222, 0, 2) T(trav_3_12, 3, 256, B222, 1, 2) T(trav_3_22, 3, 256, B222, 2, 2) T(trav_3_32, 3, 256, B222, 3, 2)
// values taken from unions of intervals
using Mem = interval_own_memory<long, long>;
static const std::vector<std::size_t> SETS[6] = {{}, {0}, {1, 2}, {0, 1, 3}, {2, 4}, {3, 5, 6}};
static interval_enum<Mem> ivals(const std::vector<std::size_t>& M) { Mem q; for (std::size_t i = 0; i < M.size(); ++i) if (!i || M[i] != M[i - 1] + 1) q.m_dat.push_back({(long)i, (long)M[i]}); if (M.size()) q.m_dat.push_back({(long)M.size(), (long)M.back() + 1}); return interval_enum<Mem>(q); }
template<unsigned N> static void valued(unsigned nsub, const unsigned* base, unsigned n, unsigned m) {
    vc_bounded("subsets of a small box, values from 2 of 6 unions of intervals"); auto A = subset<N>((unsigned)vc_choose("subset", 0, nsub - 1), base); const std::vector<std::size_t>* M[2]; std::vector<std::size_t> rg; std::array<interval_enum<Mem>, 2> ie; for (int r = 0; r < 2; ++r) { M[r] = &SETS[vc_choose("values", 0, 5)]; rg.push_back(M[r]->size()); ie[r] = ivals(*M[r]); }
    auto B = extended<N>(A, rg, n, m); unsigned mm = m + (m >= n); for (auto& b : B) b[n] = (*M[b[mm]])[b[n]];
    ext_range_array_enum<N, vec_range_func<>> e1(A, vec_range_func<>(rg), n, m); e1.setup(); ext_array_enum<N, 2, vec_range_func<>, std::size_t, std::size_t, Mem> e(e1, ie); bijection(e, B);
    bool has = true; unsigned t2 = 8; for (unsigned i = 0; i < N; ++i) t2 *= 3; for (unsigned t = 0; t < t2; ++t) { Arr<N + 1> b; unsigned r = t; for (int i = N; i >= 0; --i) { unsigned q = i == (int)n ? 8 : 3; b[i] = r % q; r /= q; } bool in = std::find(B.begin(), B.end(), b) != B.end(); has &= e.contains(b) == in && (e.find(b) != e.end()) == in; } vc_check(has, "presence"); vc_cover("valued");
}
static const unsigned B22[2] = {2, 2}, B2[1] = {2};
VC(valued_1_0) { valued<1>(4, B2, 0, 0); }
VC(valued_1_1) { valued<1>(4, B2, 1, 0); }
VC(valued_2_00) { valued<2>(16, B22, 0, 0); }
VC(valued_2_10) { valued<2>(16, B22, 1, 0); }
VC(valued_2_20) { valued<2>(16, B22, 2, 0); }
VC(valued_2_01) { valued<2>(16, B22, 0, 1); }
VC(valued_2_11) { valued<2>(16, B22, 1, 1); }
VC(valued_2_21) { valued<2>(16, B22, 2, 1); }
VC_NEG(direct) { std::vector<Arr<1>> A = {{0}, {1}}; std::vector<std::size_t> rg = {(std::size_t)vc_int("range", 1, 9), (std::size_t)vc_int("range", 1, 9)}; ext_range_array_enum<1, vec_range_func<>> e(A, vec_range_func<>(rg), 1, 0); e.setup(); vc_check(e[Arr<2>{1, 0}] == 1, "wrong"); }
