// VCFLAGS: timeout=300 native=0
// C12, inductive: the data invariant of the pool is established by the constructor and preserved by alloc and by the release of a block,
// for arbitrary (symbolic) sizes, fill levels, part numbers and counts, and an arbitrary other live block. Any history follows by induction.
// A block = part number, offset and length in each of the three arrays of its chunk. Invariant for live blocks g, h of a chunk c:
//   I1 busy <= size, I2 g.id < ntop, g.off + g.len <= busy, I3 g.id + 1 == ntop => g.off + g.len == busy,
//   I4 g.id < h.id => g.off + g.len <= h.off, with equality if h.id == g.id + 1, I5 number of live blocks <= nparts, nparts == 0 => busy == 0, ntop == 0 (also I6 nparts <= ntop)
#include "common.h"
#include "anifem++/fem/fem_memory.h"
using namespace Ani; using W = DynMem<>; using Chunk = W::Chunk;
static const long BIG = 1L << 40;
struct Blk { std::size_t id, off[3], len[3]; };
template<class T> struct Raw { T *b, *e, *c; };
template<class T> static void fake(std::vector<T>& v, T* base, std::size_t n) { auto* r = reinterpret_cast<Raw<T>*>(&v); r->b = base; r->e = r->c = base + n; }
template<class T> static void forget(std::vector<T>& v) { auto* r = reinterpret_cast<Raw<T>*>(&v); r->b = r->e = r->c = nullptr; }
static double g_r[1]; static int g_i[1]; static char g_m[sizeof(DenseMatrix<>)];
static std::size_t num(const char* n) { return (std::size_t)vc_int(n, 0, BIG); }
static void arbitrary(Chunk& c) {
    fake(c.rdata, g_r, num("size")); fake(c.idata, g_i, num("size")); fake(c.mdata, reinterpret_cast<DenseMatrix<>*>(g_m), num("size"));
    c.rbusy = num("busy"); c.ibusy = num("busy"); c.mbusy = num("busy"); c.nparts = num("parts"); c.ntop = num("top");
}
static void drop(W& w) { for (auto& c : w.m_chunks) { forget(c.rdata); forget(c.idata); forget(c.mdata); } }
static std::size_t busy(const Chunk& c, int k) { return k == 0 ? c.rbusy : k == 1 ? c.ibusy : c.mbusy; }
static std::size_t size(const Chunk& c, int k) { return k == 0 ? c.rdata.size() : k == 1 ? c.idata.size() : c.mdata.size(); }
static Blk blk() { Blk b; b.id = num("id"); for (int k = 0; k < 3; ++k) { b.off[k] = num("off"); b.len[k] = num("len"); } return b; }
static int state(const Chunk& c) { int r = (c.nparts <= c.ntop) & ((c.nparts != 0) | ((c.ntop == 0) & (c.rbusy == 0) & (c.ibusy == 0) & (c.mbusy == 0))); for (int k = 0; k < 3; ++k) r &= busy(c, k) <= size(c, k); return r; }
static int inside(const Chunk& c, const Blk& g) { int r = (g.id < c.ntop) & (c.nparts >= 1); for (int k = 0; k < 3; ++k) { std::size_t e = g.off[k] + g.len[k]; r &= (e <= busy(c, k)) & ((g.id + 1 != c.ntop) | (e == busy(c, k))); } return r; }
static int apart(const Blk& g, const Blk& h) { int r = g.id != h.id; for (int k = 0; k < 3; ++k) { std::size_t eg = g.off[k] + g.len[k], eh = h.off[k] + h.len[k]; r &= (g.id > h.id) | ((eg <= h.off[k]) & ((h.id != g.id + 1) | (eg == h.off[k]))); r &= (h.id > g.id) | ((eh <= g.off[k]) & ((g.id != h.id + 1) | (eh == g.off[k]))); } return r; }
VC(constructor) { W w; vc_check(w.m_chunks.empty(), "no chunks at first"); Chunk c; vc_check(state(c) && c.nparts == 0 && c.ntop == 0, "a new chunk satisfies the invariant"); vc_cover("constructor"); }
// alloc in a chunk which has room: any number of blocks live, earlier chunks without room (because of any of the three arrays)
VC(alloc_fits) {
    W w; int n = (int)vc_choose("chunks", 1, 2), at = (int)vc_choose("block_in", 0, n - 1); w.m_chunks.resize(n); std::size_t want[3]; for (auto& q : want) q = num("want");
    for (int j = 0; j < n; ++j) { auto& c = w.m_chunks[j]; arbitrary(c); vc_assume(state(c)); if (j + 1 < n) { int k = (int)vc_choose("full", 0, 2); vc_assume((busy(c, k) > 0) & (size(c, k) < busy(c, k) + want[k])); } else { int r = 1; for (int k = 0; k < 3; ++k) r &= size(c, k) >= busy(c, k) + want[k]; vc_assume(r); } }
    Blk g = blk(); vc_assume(inside(w.m_chunks[at], g));
    std::size_t d = want[0], i = want[1], m = want[2], o[3]; auto& c = w.m_chunks[n - 1]; for (int k = 0; k < 3; ++k) o[k] = busy(c, k);
    auto p = w.alloc(d, i, m); vc_check((int)w.m_chunks.size() == n, "no new chunk needed"); vc_check(p.m_chunk_id == (std::size_t)n - 1, "the block belongs to the chunk with room");
    Blk h; h.id = p.m_part_id; for (int k = 0; k < 3; ++k) h.off[k] = o[k], h.len[k] = want[k];
    auto x = p.getPlainMemoryX(); vc_check((x.dSize == d) & (x.iSize == i) & (x.mSize == m), "sizes");
    vc_check((d == 0) | (x.ddata == g_r + o[0]), "reals start at the first free place"); vc_check((i == 0) | (x.idata == g_i + o[1]), "integers start at the first free place"); vc_check((m == 0) | ((char*)x.mdata == g_m + sizeof(DenseMatrix<>) * o[2]), "matrices start at the first free place");
    vc_check(state(c), "invariant of the chunk"); vc_check(inside(c, h), "invariant of the new block"); vc_check(inside(w.m_chunks[at], g), "invariant of the other live block");
    if (at == n - 1) vc_check(apart(g, h), "the new block does not overlap another live one");
    vc_check(p.m_link == &w, "block knows its pool"); p.m_link = nullptr; drop(w); vc_cover("alloc");
}
// release of any live block while another one is live
VC(release) {
    W w; int n = (int)vc_choose("chunks", 1, 2), at = (int)vc_choose("block_in", 0, n - 1), from = (int)vc_choose("from", 0, n - 1); w.m_chunks.resize(n); for (auto& c : w.m_chunks) { arbitrary(c); vc_assume(state(c)); }
    Blk g = blk(), h = blk(); vc_assume(inside(w.m_chunks[at], g)); vc_assume(inside(w.m_chunks[from], h)); if (at == from) vc_assume(apart(g, h) & (w.m_chunks[at].nparts >= 2));
    { W::MemPart p; p.m_link = &w; p.m_chunk_id = from; p.m_part_id = h.id; p.m_mem.dSize = h.len[0]; p.m_mem.iSize = h.len[1]; p.m_mem.mSize = h.len[2]; if (vc_choose("how", 0, 1)) { p.clear(); vc_check(p.m_link == nullptr, "a released block is not released twice"); } }
    vc_check(state(w.m_chunks[from]), "invariant of the chunk"); vc_check(inside(w.m_chunks[at], g), "the other live block stays inside the used region");
    drop(w); vc_cover("release");
}
// release of the last live block makes the whole chunk free
VC(release_last) {
    W w; w.m_chunks.resize(1); auto& c = w.m_chunks[0]; arbitrary(c); vc_assume(state(c)); Blk h = blk(); vc_assume(inside(c, h) & (c.nparts == 1));
    w.clearChunk(0, h.id, h.len[0], h.len[1], h.len[2]); vc_check(c.rbusy == 0 && c.ibusy == 0 && c.mbusy == 0 && c.nparts == 0 && state(c), "everything is free again"); drop(w); vc_cover("last");
}
// alloc that grows a chunk or starts a new one: real vectors, small sizes (the growth itself is std::vector's)
VC(alloc_grows) {
    vc_bounded("sizes up to 3; growth is done by std::vector"); W w; int n = (int)vc_choose("chunks", 0, 2); w.m_chunks.resize(n);
    for (auto& c : w.m_chunks) { std::size_t s = vc_choose("size", 0, 2); c.rdata.resize(s); c.idata.resize(2 - s); c.rbusy = vc_choose("busy", 0, (long)s); c.ibusy = vc_choose("busy", 0, 2 - (long)s); c.nparts = c.ntop = (c.rbusy || c.ibusy) ? 1 : 0; }
    std::size_t d = vc_choose("want", 0, 3), i = vc_choose("want", 0, 3); std::vector<std::size_t> rb, ib; for (auto& c : w.m_chunks) rb.push_back(c.rbusy), ib.push_back(c.ibusy); std::vector<double*> base; for (auto& c : w.m_chunks) base.push_back(c.rdata.data());
    auto p = w.alloc(d, i, 0); auto x = p.getPlainMemoryX(); auto& c = w.m_chunks[p.m_chunk_id]; std::size_t r0 = (int)p.m_chunk_id < n ? rb[p.m_chunk_id] : 0, i0 = (int)p.m_chunk_id < n ? ib[p.m_chunk_id] : 0;
    vc_check(state(c), "invariant of the chunk"); vc_check((d == 0 || x.ddata == c.rdata.data() + r0) && c.rbusy == r0 + d && (i == 0 || x.idata == c.idata.data() + i0) && c.ibusy == i0 + i, "block at the first free place");
    for (int j = 0; j < n; ++j) if (rb[j] > 0) vc_check(w.m_chunks[j].rdata.data() == base[j], "memory in use does not move");
    for (std::size_t k = 0; k < d; ++k) x.ddata[k] = 1; for (std::size_t k = 0; k < i; ++k) x.idata[k] = 1; p.m_link = nullptr; vc_cover("grow");
}
VC_NEG(release) { Chunk c; arbitrary(c); vc_assume(state(c)); Blk g = blk(); vc_assume(inside(c, g)); int k = apart(g, blk()); forget(c.rdata); forget(c.idata); forget(c.mdata); vc_check(k, "wrong"); }
