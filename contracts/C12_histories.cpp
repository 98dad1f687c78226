// VCFLAGS: timeout=300
// C12, black box: every history of allocations, releases, moves, early clears and defragmentations up to the stated length, over the
// public interface only. Each block is filled with its own mark; a block that overlapped another or left its chunk would be noticed.
#include "common.h"
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
template<class MEM> struct Hist {
    using Part = typename MEM::MemPart; using S = typename std::remove_reference<decltype(*std::declval<Part>().getPlainMemoryX().ddata)>::type; using I = typename std::remove_reference<decltype(*std::declval<Part>().getPlainMemoryX().idata)>::type;
    struct Rec { Part part; std::size_t d = 0, i = 0, m = 0; int tag = 0; bool live = false; S* pd = nullptr; I* pi = nullptr; DenseMatrix<S>* pm = nullptr; };
    MEM& w; Rec r[8]; int n = 0, tags = 0; explicit Hist(MEM& w_) : w(w_) {}
    void grab(std::size_t d, std::size_t i, std::size_t m) {
        Rec& x = r[n++]; x.part = w.alloc(d, i, m); x.d = d; x.i = i; x.m = m; x.tag = ++tags; x.live = true; auto p = x.part.getPlainMemoryX(); auto q = x.part.getPlainMemory(); x.pd = p.ddata; x.pi = p.idata; x.pm = p.mdata;
        vc_check(p.dSize == d && p.iSize == i && p.mSize == m && q.dSize == d && q.iSize == i && q.ddata == p.ddata && q.idata == p.idata, "block has the requested size");
        vc_check((reinterpret_cast<std::size_t>(p.ddata) % alignof(S)) == 0 && (reinterpret_cast<std::size_t>(p.idata) % alignof(I)) == 0 && (reinterpret_cast<std::size_t>(p.mdata) % alignof(DenseMatrix<S>)) == 0, "block is aligned");
        for (std::size_t k = 0; k < d; ++k) p.ddata[k] = 100 * x.tag + (int)k;
        for (std::size_t k = 0; k < i; ++k) p.idata[k] = 100 * x.tag + (int)k;
        for (std::size_t k = 0; k < m; ++k) p.mdata[k].nRow = 100 * x.tag + k;
        all();
    }
    void all() { for (int k = 0; k < n; ++k) if (r[k].live) same(r[k]); }
    void same(Rec& x) {
        bool ok = true;
        for (std::size_t k = 0; k < x.d; ++k) ok = ok && x.pd[k] == (S)(100 * x.tag + (int)k);
        for (std::size_t k = 0; k < x.i; ++k) ok = ok && x.pi[k] == (I)(100 * x.tag + (int)k);
        for (std::size_t k = 0; k < x.m; ++k) ok = ok && x.pm[k].nRow == 100 * (std::size_t)x.tag + k;
        vc_check(ok, "live block keeps its contents");
    }
    void drop(int k) { same(r[k]); r[k].part.clear(); r[k].live = false; all(); }
    int lives() { int c = 0; for (int k = 0; k < n; ++k) c += r[k].live; return c; }
    int pick() { int c = lives(); int k = (int)vc_choose("which", 0, c - 1); for (int j = 0; j < n; ++j) if (r[j].live && k-- == 0) return j; return -1; }
};
struct Sz { std::size_t d, i, m; };
template<class MEM> static void run(MEM& w, const Sz* sz, int nsz, int len, bool extra) {
    Hist<MEM> h(w);
    for (int s = 0; s < len; ++s) {
        int live = h.lives(), op = (int)vc_choose("op", 0, nsz + (live > 0 ? 1 : 0) + (extra ? 2 : 0) - 1);
        if (op < nsz) { if (h.n >= 8) return; h.grab(sz[op].d, sz[op].i, sz[op].m); continue; }
        op -= nsz; if (live > 0) { if (op == 0) { h.drop(h.pick()); continue; } op -= 1; }
        if (op == 0) { bool t = false; try { w.defragment(); } catch (std::runtime_error&) { t = true; } vc_check(!t || live > 0, "defragmentation of unused memory works"); h.all(); }
        else { if (h.n >= 8 || !live) return; int k = h.pick(); auto& a = h.r[k]; auto& b = h.r[h.n++]; b.part = std::move(a.part); b.d = a.d; b.i = a.i; b.m = a.m; b.tag = a.tag; b.live = true; b.pd = a.pd; b.pi = a.pi; b.pm = a.pm; a.live = false; h.all();
            auto p = b.part.getPlainMemoryX(); vc_check(p.ddata == b.pd && p.idata == b.pi && p.mdata == b.pm && p.dSize == b.d && p.iSize == b.i && p.mSize == b.m, "a moved block is the same block"); a.part.clear(); h.all(); typename MEM::MemPart c(std::move(b.part)), d; d = std::move(c); b.part = std::move(d); h.all(); }
    }
    // everything returned: the memory is reusable without growing
    while (h.lives() > 0) h.drop(h.pick());
    vc_cover("history");
}
static const char* BND = "histories up to the stated length";
static const Sz S1[] = {{2, 0, 0}, {1, 0, 0}}, S2[] = {{1, 2, 0}, {0, 1, 1}}, S3[] = {{2, 1, 1}};
static void warm(DynMem<>& w, std::size_t k) { auto p = w.alloc(k, k, k); (void)p; } // a pool that has served (and got back) a large request: several blocks share a chunk
VC(warm_7) { vc_bounded(BND); DynMem<> w; warm(w, 7); run(w, S3, 1, 7, false); }
VC(warm_mixed_6) { vc_bounded(BND); DynMem<> w; warm(w, 5); run(w, S2, 2, 6, false); }
VC(warm_moves_5) { vc_bounded(BND); DynMem<> w; warm(w, 6); run(w, S3, 1, 5, true); }
VC(warm_adaptor_6) { vc_bounded(BND); DynMem<double, long> w; { auto p = w.alloc(6, 6, 6); (void)p; } auto a = makeAdaptor<float, int>(w); DynMem<float, int>& b = a; run(b, S3, 1, 6, false); }
VC(reals_5) { vc_bounded(BND); DynMem<> w; run(w, S1, 2, 5, false); }
VC(one_size_7) { vc_bounded(BND); DynMem<> w; run(w, S3, 1, 7, false); }
VC(mixed_5) { vc_bounded(BND); DynMem<> w; run(w, S2, 2, 5, false); }
VC(moves_4) { vc_bounded(BND); DynMem<> w; run(w, S2, 2, 4, true); }
VC(adaptor_5) { vc_bounded(BND); DynMem<double, long> w; auto a = makeAdaptor<float, int>(w); DynMem<float, int>& b = a; run(b, S2, 2, 5, false); }
// returned memory serves later requests
VC(reuse) {
    vc_bounded(BND); DynMem<> w; int k = (int)vc_choose("blocks", 1, 4); std::size_t tot = 0;
    { DynMem<>::MemPart p[4]; for (int i = 0; i < k; ++i) { std::size_t s = vc_choose("size", 1, 3); p[i] = w.alloc(s, s, 1); tot += s; } for (int i = 0; i < k; ++i) { int j = (int)vc_choose("order", 0, 3); p[j].clear(); } }
    std::size_t before = w.m_chunks.size(); w.defragment(); vc_check(w.m_chunks.size() == 1, "one chunk after defragmentation");
    auto q = w.alloc(tot, tot, k); vc_check(w.m_chunks.size() == 1, "released memory is reused"); (void)before;
    for (std::size_t i = 0; i < tot; ++i) q.getPlainMemoryX().ddata[i] = 1; vc_cover("reuse");
}
VC(busy_defragment) { vc_bounded(BND); DynMem<> w; auto a = w.alloc(2, 0, 0); auto b = w.alloc(5, 0, 0); bool t = false; try { w.defragment(); } catch (std::runtime_error&) { t = true; } vc_check(t || w.m_chunks.size() == 1, "defragmentation of busy memory is refused"); a.getPlainMemoryX().ddata[1] = 1; b.getPlainMemoryX().ddata[4] = 2; vc_check(a.getPlainMemoryX().ddata[1] == 1, "refused defragmentation leaves the blocks alone"); vc_cover("busy"); }
VC_NEG(tag) { DynMem<> w; auto a = w.alloc(1, 0, 0), b = w.alloc(1, 0, 0); vc_check(a.getPlainMemoryX().ddata == b.getPlainMemoryX().ddata, "wrong"); }
