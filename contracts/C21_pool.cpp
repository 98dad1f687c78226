// VCFLAGS: timeout=120 eigen=0
// C21: the pool of work memories shared by threads, by the resource-invariant rule for locks: every method of DynMemParallel is run by one thread while the others may do
// anything the contracts of the methods allow. The mutex is a ghost: taking it yields an arbitrary state of the protected data that satisfies the invariant and keeps
// what this thread has borrowed; giving it back checks the invariant and makes the protected data inaccessible (undefined). Hence a method that touches the protected data
// without the lock fails, and a method that satisfies its contract does so under every interleaving, for any number of threads.
//   invariant: the positions in m_unused are different, exist and are not borrowed by anybody; every position is unused or borrowed by exactly one owner; a borrowed
//              position keeps its memory object.
// The states offered have at most 4 memories.
#include "common.h"
#include <functional>
#include <algorithm>
#include <cstring>
#define protected public
#include "anifem++/fem/fem_memory_parallel.h"
#undef protected
using namespace Ani;
struct Ghost { void lock(); void unlock(); bool try_lock(); };
struct Pool : DynMemParallel<double, int, Ghost> { ~Pool(); }; typedef DynMem<double, int> Mem; typedef std::vector<std::unique_ptr<Mem>> Mems; typedef std::vector<int> Ids;
enum { UNUSED, MINE, OTHER, GONE };
static struct World { Pool* p; bool hidden, held, first, exclusive; int locks, owner[24], releasing[24]; Mem* mem[24]; int n; alignas(16) unsigned char sm[sizeof(Mems)], su[sizeof(Ids)]; } W;
static void hide() { W.hidden = true; memcpy(W.sm, (void*)&W.p->m_mem, sizeof(Mems)); memcpy(W.su, (void*)&W.p->m_unused, sizeof(Ids)); vc_undef((void*)&W.p->m_mem, sizeof(Mems)); vc_undef((void*)&W.p->m_unused, sizeof(Ids)); }
static void show() { W.hidden = false; memcpy((void*)&W.p->m_mem, W.sm, sizeof(Mems)); memcpy((void*)&W.p->m_unused, W.su, sizeof(Ids)); }
Pool::~Pool() { if (W.p == this && W.hidden) show(); }
static void set_unused(int order) { Ids u; for (int i = 0; i < W.n; ++i) if (W.owner[i] == UNUSED) u.push_back(i); Ids r; while (!u.empty()) { int k = order % (int)u.size(); order /= (int)u.size(); r.push_back(u[k]); u.erase(u.begin() + k); } W.p->m_unused = r; }
// what other threads may have done since the lock was free
static void interfere() {
    if (W.exclusive) return; int what = (int)vc_choose("another thread", 0, 4); if (what == 0) return;
    if (what == 1) { W.p->m_mem.emplace_back(std::make_unique<Mem>()); W.mem[W.n] = W.p->m_mem.back().get(); W.owner[W.n++] = OTHER; }          // borrowed a new one
    else if (what == 2) { for (int i = 0; i < W.n; ++i) if (W.owner[i] == UNUSED) { W.owner[i] = OTHER; break; } }                              // borrowed an unused one
    else if (what == 3) { for (int i = 0; i < W.n; ++i) if (W.owner[i] == OTHER) { W.owner[i] = UNUSED; break; } }                              // returned one
    else { Mems m(W.p->m_mem.size() + 3); for (size_t i = 0; i < W.p->m_mem.size(); ++i) m[i] = std::move(W.p->m_mem[i]); size_t k = W.p->m_mem.size(); for (; k < m.size(); ++k) m[k] = std::make_unique<Mem>(); W.p->m_mem = std::move(m); for (; W.n < (int)W.p->m_mem.size(); ++W.n) { W.owner[W.n] = UNUSED; W.mem[W.n] = W.p->m_mem[W.n].get(); } } // table reallocated, more unused
    set_unused(1);
}
static void invariant() {
    Pool& p = *W.p; int n = (int)p.m_mem.size(); vc_check(n <= 24, "size of the pool"); if (n > 24) vc_assume(0); int cnt[24] = {0}; for (int id : p.m_unused) { vc_check(id >= 0 && id < n, "unused position exists"); if (id >= 0 && id < n) { vc_check(!cnt[id], "unused position listed once"); cnt[id]++; } }
    for (int i = 0; i < n; ++i) vc_check((bool)p.m_mem[i], "every position has a memory"); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vc_check(p.m_mem[i].get() != p.m_mem[j].get(), "memories are different");
    for (int i = 0; i < W.n; ++i) if (W.owner[i] == OTHER || (W.owner[i] == MINE && !W.releasing[i])) { vc_check(i < n && p.m_mem[i < n ? i : 0].get() == W.mem[i], "borrowed memory stays"); vc_check(i < n && !cnt[i < n ? i : 0], "borrowed position is not unused"); }
    for (int i = 0; i < n; ++i) { bool keep = i < W.n && (W.owner[i] == OTHER || (W.owner[i] == MINE && !W.releasing[i])); int o = cnt[i] ? UNUSED : keep ? W.owner[i] : MINE; if (i < W.n && cnt[i]) W.releasing[i] = 0; W.owner[i] = o; W.mem[i] = p.m_mem[i].get(); } for (int i = n; i < W.n; ++i) W.owner[i] = GONE; W.n = n;
}
void Ghost::lock() { vc_check(!W.held, "the lock is not taken twice"); if (W.held) vc_assume(0); W.held = true; W.locks++; show(); if (W.locks > 1) interfere(); }
void Ghost::unlock() { vc_check(W.held, "the lock is held"); if (!W.held) vc_assume(0); invariant(); hide(); W.held = false; }
bool Ghost::try_lock() { if (vc_choose("lock is busy", 0, 1)) return false; lock(); return true; }
// arbitrary state: owners and order of the unused positions
static void state(Pool& p, int n, int code, int order) { memset((void*)&W, 0, sizeof W); W.p = &p; W.n = n; for (int i = 0; i < n; ++i) { W.owner[i] = code % 3; code /= 3; p.m_mem.emplace_back(std::make_unique<Mem>()); W.mem[i] = p.m_mem.back().get(); } set_unused(order); hide(); }
static void any_state(Pool& p, int nmax = 3, int omax = 5) { int n = (int)vc_choose("memories", 0, nmax), pw = 1; for (int i = 0; i < n; ++i) pw *= 3; int code = (int)vc_choose("owners", 0, 80); vc_assume(code < pw); int u = 0; for (int i = 0, c = code; i < n; ++i, c /= 3) u += c % 3 == 0; int f = u < 2 ? 1 : u == 2 ? 2 : u == 3 ? 6 : 24, o = (int)vc_choose("order", 0, omax); vc_assume(o < f); state(p, n, code, o); }
static int mine(int k = 0) { int i = 0; for (; i < W.n; ++i) if (W.owner[i] == MINE && k-- == 0) break; vc_assume(i < W.n); return i; }
static void nobody() { for (int i = 0; i < W.n; ++i) vc_assume((W.owner[i] != OTHER)); W.exclusive = true; }
static void done() { vc_check(!W.held, "the lock is given back"); if (W.held) W.p->m_mutex.unlock(); show(); }
// every position is owned by somebody at the end: those which became mine are exactly the ones returned by the call
static int owned() { int k = 0; for (int i = 0; i < W.n; ++i) k += W.owner[i] == MINE; return k; }
static Mem* expected(int id) { return W.mem[id]; }
VC(alloc) { Pool p; any_state(p); int o0[24], n0 = W.n; memcpy(o0, W.owner, sizeof o0); int k = owned(), u = 0; for (int i = 0; i < n0; ++i) u += o0[i] == UNUSED; int id = p.alloc(); vc_check(id >= 0 && id < W.n && W.owner[id] == MINE, "the position is borrowed by this thread"); vc_check(id >= n0 || o0[id] == UNUSED, "the position was unused or is new"); vc_check(owned() == k + 1, "nothing else is taken"); if (W.locks == 1) vc_check(u == 0 || id < n0, "returned memory is used again"); done(); vc_check(p.m_mem[id].get() == expected(id), "memory object"); vc_cover("alloc"); }
VC(get) { Pool p; any_state(p); int id = mine(); Mem* e = expected(id); vc_check(p.get(id) == e, "memory of the position"); W.locks = 1; vc_check(p.get(id) == e, "memory of the position after interference"); W.locks = 2; int b = p.alloc(); vc_check(p.get(b) != e && p.get(b) == W.mem[b], "another memory"); vc_check(p.get(id) == e, "memory of the position"); done(); vc_cover("get"); }
VC(release) { Pool p; any_state(p); int id = mine((int)vc_choose("which", 0, 2)), k = owned(); W.releasing[id] = 1; p.release(id); vc_check(owned() == k - 1 && !W.releasing[id], "returned"); vc_check(W.owner[id] == UNUSED, "the position is unused"); done(); int f = 0; for (int i : p.m_unused) f += i == id; vc_check(f == 1, "the position can be borrowed again"); vc_cover("release"); }
VC(alloc_range) { Pool p; any_state(p); int o0[24], n0 = W.n; memcpy(o0, W.owner, sizeof o0); int k = owned(), m = (int)vc_choose("threads", 0, 3); std::pair<int, int> r = p.alloc_range(m); vc_check(r.second - r.first == m && r.first >= 0 && r.second <= W.n, "range"); for (int i = r.first; i < r.second && i < W.n; ++i) { vc_check(W.owner[i] == MINE, "the position is borrowed by this thread"); vc_check(i >= n0 || o0[i] == UNUSED, "the position was unused or is new"); } vc_check(owned() == k + m, "nothing else is taken"); int all = 1; for (int i = 0; i < n0; ++i) all &= o0[i] == UNUSED; if (W.locks == 1 && all) vc_check(W.n <= std::max(n0, m), "returned memory is used again"); done(); for (int i = r.first; i < r.second; ++i) vc_check(p.m_mem[i].get() == expected(i), "memory object"); vc_cover("alloc_range"); }
VC(release_range) { Pool p; any_state(p, 4); int a = (int)vc_choose("first", 0, 4), m = (int)vc_choose("threads", 0, 3); vc_assume(a + m <= W.n); for (int i = a; i < a + m; ++i) { vc_assume((W.owner[i] == MINE)); W.releasing[i] = 1; } int k = owned(); p.release_range(std::make_pair(a, a + m)); vc_check(owned() == k - m, "returned"); for (int i = a; i < a + m; ++i) vc_check(W.owner[i] == UNUSED && !W.releasing[i], "the position is unused"); done(); vc_cover("release_range"); }
// announced for exclusive use: all borrowed memory is returned / the pool is emptied
VC(release_all) { Pool p; any_state(p, 4); nobody(); int n0 = W.n; for (int i = 0; i < W.n; ++i) W.releasing[i] = 1; Mem* m[24]; memcpy(m, W.mem, sizeof m); p.release_all(); vc_check(W.n == n0 && owned() == 0, "everything is unused"); for (int i = 0; i < W.n; ++i) vc_check(W.owner[i] == UNUSED && W.mem[i] == m[i], "memory is kept for later use"); done(); vc_cover("release_all"); }
VC(clear) { Pool p; any_state(p); nobody(); for (int i = 0; i < W.n; ++i) W.releasing[i] = 1; p.clear(); done(); vc_check(p.m_mem.empty() && p.m_unused.empty(), "empty pool"); hide(); W.n = 0; memset((void*)W.owner, 0, sizeof W.owner); memset((void*)W.releasing, 0, sizeof W.releasing); int id = p.alloc(); vc_check(id == 0 && W.n == 1, "usable after clear"); done(); vc_cover("clear"); }
// programs of one thread under interference between all steps
VC(programs) {
    Pool p; any_state(p, 2, 1); int ids[8], n = 0; W.locks = 1; for (int s = 0; s < 3; ++s) { int op = (int)vc_choose("operation", 0, 2); if (op == 0) { int id = p.alloc(); for (int i = 0; i < n; ++i) vc_check(ids[i] != id, "different positions"); ids[n++] = id; } else if (op == 1 && n) { int id = ids[--n]; W.releasing[id] = 1; p.release(id); } else if (n) { vc_check(p.get(ids[0]) == W.mem[ids[0]], "memory of the position"); for (int i = 1; i < n; ++i) vc_check(p.get(ids[i]) != W.mem[ids[0]], "different memories"); } } done(); vc_cover("program");
}
// the lock types offered for threads are exactly the standard (OpenMP) ones; the pool without locking is only for a single thread
VC(mutexes) {
    static_assert(std::is_base_of<std::mutex, mutex_std>::value && std::is_same<decltype(&mutex_std::lock), void (std::mutex::*)()>::value && std::is_same<decltype(&mutex_std::unlock), void (std::mutex::*)()>::value && std::is_same<decltype(&mutex_std::try_lock), bool (std::mutex::*)()>::value, "mutex_std is std::mutex"); static_assert(!std::is_copy_constructible<mutex_std>::value && !std::is_copy_constructible<DynMemParallel<double, int, mutex_std>>::value && !std::is_move_constructible<DynMemParallel<double, int, mutex_std>>::value, "the pool cannot be copied away from its lock");
    vc_check((ThreadPar::ParTypeFromMutex<mutex_std>::value == ThreadPar::Type::STD && ThreadPar::ParTypeFromMutex<std::mutex>::value == ThreadPar::Type::STD && ThreadPar::ParTypeFromMutex<mutex_none>::value == ThreadPar::Type::NONE), "type of parallelism"); vc_cover("mutexes");
}
VC_NEG(pool) { Pool p; state(p, 2, 0, 0); int id = p.alloc(); vc_check(id == 0, "wrong"); done(); }
