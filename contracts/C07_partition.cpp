// VCFLAGS: timeout=200 eigen=0
// C07, partitioning of a raw buffer: arbitrary address, arbitrary buffer size and arbitrary block sizes.
// Nothing is dereferenced: the functions only compute addresses, so the address itself is a symbolic integer.
#include "common.h"
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
typedef unsigned long ul;
static const long LIM = 1L << 36;
static ul adr(const void* p) { return (ul)p; }
static ul num(const char* n) { return (ul)vc_int(n, 0, LIM); }
static char* base(ul al) { long k = vc_int("address", 4096, 1L << 44); return (char*)(al * (ul)k); }
// block of n objects of size sz aligned at al lies in [lo, hi)
static int inside(ul b, ul n, ul sz, ul al, ul lo, ul hi) { return (n == 0) | ((lo <= b) & (b + n * sz <= hi) & (b % al == 0)); }
static int apart(ul a, ul na, ul b, ul nb) { return (na == 0) | (nb == 0) | (a + na <= b) | (b + nb <= a); }
template<class S, class I> static void raw() {
    PlainMemory<S, I> m; m.dSize = num("reals"); m.iSize = num("ints"); ul d = m.dSize, i = m.iSize, enough = m.enoughRawSize();
    char* a = base(1); ul sz = (ul)vc_int("bytes", 0, 1L << 42), lo = adr(a), hi = lo + sz;
    void* p = m.allocateFromRaw(a, sz);
    if (!p) { vc_check(sz < enough, "a buffer of the announced size is accepted at any alignment"); vc_cover("refused"); return; }
    vc_check((lo <= adr(p)) & (adr(p) <= hi), "the end lies in the buffer"); vc_check((m.dSize == d) & (m.iSize == i), "sizes are kept");
    vc_check(inside(adr(m.ddata), d, sizeof(S), alignof(S), lo, adr(p)), "reals lie in the buffer, aligned"); vc_check(inside(adr(m.idata), i, sizeof(I), alignof(I), lo, adr(p)), "integers lie in the buffer, aligned");
    vc_check(apart(adr(m.ddata), d * sizeof(S), adr(m.idata), i * sizeof(I)), "blocks do not overlap"); vc_cover("accepted");
}
VC(raw_double_int) { raw<double, int>(); }
VC(raw_float_long) { raw<float, long>(); }
VC(raw_double_long) { raw<double, long>(); }
VC(raw_double_short) { raw<double, short>(); }
template<class S, class I> static void rawX() {
    PlainMemoryX<S, I> m; m.dSize = num("reals"); m.iSize = num("ints"); m.mSize = num("matrices"); ul d = m.dSize, i = m.iSize, x = m.mSize, enough = m.enoughRawSize();
    typedef DenseMatrix<S> M; char* a = base(1); ul sz = (ul)vc_int("bytes", 0, 1L << 43), lo = adr(a), hi = lo + sz;
    void* p = m.allocateFromRaw(a, sz);
    if (!p) { vc_check(sz < enough, "a buffer of the announced size is accepted at any alignment"); vc_cover("refused"); return; }
    vc_check((lo <= adr(p)) & (adr(p) <= hi), "the end lies in the buffer"); vc_check((m.dSize == d) & (m.iSize == i) & (m.mSize == x), "sizes are kept");
    vc_check(inside(adr(m.ddata), d, sizeof(S), alignof(S), lo, adr(p)), "reals lie in the buffer, aligned"); vc_check(inside(adr(m.idata), i, sizeof(I), alignof(I), lo, adr(p)), "integers lie in the buffer, aligned");
    vc_check(inside(adr(m.mdata), x, sizeof(M), alignof(M), lo, adr(p)), "matrix headers lie in the buffer, aligned");
    vc_check(apart(adr(m.ddata), d * sizeof(S), adr(m.idata), i * sizeof(I)), "reals and integers do not overlap"); vc_check(apart(adr(m.ddata), d * sizeof(S), adr(m.mdata), x * sizeof(M)), "reals and headers do not overlap"); vc_check(apart(adr(m.mdata), x * sizeof(M), adr(m.idata), i * sizeof(I)), "headers and integers do not overlap"); vc_cover("accepted");
}
VC(rawX_double_int) { rawX<double, int>(); }
VC(rawX_float_long) { rawX<float, long>(); }
VC(rawX_double_long) { rawX<double, long>(); }
// headers placed in the tail of the reals or of the integers of a plain memory (arrays aligned for their own types only)
template<class S, class I> static void plain(bool from_scalars) {
    typedef DenseMatrix<S> M; PlainMemoryX<S, I> m; m.dSize = num("reals"); m.iSize = num("ints"); m.mSize = num("matrices"); ul d = m.dSize, i = m.iSize, x = m.mSize;
    PlainMemory<S, I> e = m.enoughPlainMemory(from_scalars), g; char* ad = base(alignof(S)); char* ai = base(alignof(I)); g.ddata = (S*)ad; g.idata = (I*)ai; g.dSize = (ul)vc_int("have_reals", 0, 1L << 42); g.iSize = (ul)vc_int("have_ints", 0, 1L << 42);
    ul ed = adr(ad) + g.dSize * sizeof(S), ei = adr(ai) + g.iSize * sizeof(I);
    bool ok = m.allocateFromPlainMemory(g, from_scalars);
    if (!ok) { vc_check((g.dSize < e.dSize) | (g.iSize < e.iSize), "a memory of the announced size is accepted at any alignment"); vc_cover("refused"); return; }
    vc_check((m.dSize == d) & (m.iSize == i) & (m.mSize == x), "sizes are kept");
    vc_check(inside(adr(m.ddata), d, sizeof(S), alignof(S), adr(ad), ed), "reals lie in the given reals"); vc_check(inside(adr(m.idata), i, sizeof(I), alignof(I), adr(ai), ei), "integers lie in the given integers");
    if (from_scalars) vc_check(inside(adr(m.mdata), x, sizeof(M), alignof(M), adr(ad) + d * sizeof(S), ed), "headers lie in the tail of the reals"); else vc_check(inside(adr(m.mdata), x, sizeof(M), alignof(M), adr(ai) + i * sizeof(I), ei), "headers lie in the tail of the integers");
    vc_cover("accepted");
}
VC(plain_double_int_from_reals) { plain<double, int>(true); }
VC(plain_double_int_from_ints) { plain<double, int>(false); }
VC(plain_float_long_from_reals) { plain<float, long>(true); }
VC(plain_double_long_from_ints) { plain<double, long>(false); }
VC(plain_float_short_from_ints) { plain<float, short>(false); }
VC_NEG(raw_size_too_small) { PlainMemory<> m; m.dSize = num("reals"); m.iSize = num("ints"); char* a = base(1); ul sz = (ul)vc_int("bytes", 0, 1L << 42); vc_assume(sz >= m.dSize * 8 + m.iSize * 4); vc_check(m.allocateFromRaw(a, sz) != nullptr, "alignment needs no room"); }
