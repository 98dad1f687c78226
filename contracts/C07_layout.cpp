// VCFLAGS: timeout=300 eigen=0 link=anifem++/fem/quadrature_formulas.cpp
// C07, layout of the work memory: a memory of exactly the announced size is cut into blocks that lie inside it, do not
// overlap and are large enough for what the kernels use - for operators with arbitrary (symbolic) requirements, any number
// of points q and any batch f. Nothing is dereferenced: addresses are symbolic.
#include "common.h"
#include "anifem++/fem/operations/operations.h"
using namespace Ani;
typedef unsigned long ul;
static ul g_u[2], g_r[2], g_i[2]; static long g_q, g_f;
template<int TAG, int DIM, int NFA> struct SymOp { static constexpr int tag = TAG;
    using Dim = std::integral_constant<int, DIM>; using Nfa = std::integral_constant<int, NFA>;
    template<typename S, typename I> static void memoryRequirements(int f, int q, std::size_t& u, std::size_t& r, std::size_t& i) { vc_check((f == g_f) & (q == g_q), "requirements asked for the actual batch"); u = g_u[TAG]; r = g_r[TAG]; i = g_i[TAG]; }
};
// A: Dim 3, Nfa 4; B: Dim 2, Nfa 5
using A = SymOp<0, 3, 4>; using B = SymOp<1, 2, 5>;
static const int MX = 32; struct Blk { ul b, n; }; static Blk blks[MX]; static int nb;
static void put(const void* p, ul size, ul need, ul sz, const char* what) { vc_check(size >= need, what); blks[nb].b = (ul)p; blks[nb].n = need * sz; ++nb; }
template<class V> static void view(const V& v, ul need, const char* what) { put(v.data, v.size, need, sizeof(*v.data), what); }
static void disjoint(const void* lo, ul bytes, int from) {
    ul l = (ul)lo, h = l + bytes; int in = 1, ap = 1;
    for (int i = from; i < nb; ++i) { in = (blks[i].n == 0) | ((blks[i].b >= l) & (blks[i].b + blks[i].n <= h)); vc_check(in, "block lies inside the given memory"); }
    for (int i = from; i < nb; ++i) for (int j = from; j < i; ++j) { ap = (blks[i].n == 0) | (blks[j].n == 0) | (blks[i].b + blks[i].n <= blks[j].b) | (blks[j].b + blks[j].n <= blks[i].b); vc_check(ap, "blocks do not overlap"); }
}
static ul mx(ul a, ul b) { return a > b ? a : b; }
static void arbitrary() { nb = 0; g_q = vc_int("q", 1, 512); g_f = vc_int("f", 1, 512); for (int k = 0; k < 2; ++k) { g_u[k] = (ul)vc_int("U", 1, 1L << 24); g_r[k] = (ul)vc_int("extra", 0, 1L << 24); g_i[k] = 0; } }
template<class OpA, class OpB, bool Copy, bool N> static void tet() {
    arbitrary(); ul q = g_q, f = g_f; bool same = std::is_same<OpA, OpB>::value; const ul nD = N ? 3 : 1, NA = OpA::Nfa::value, NB = OpB::Nfa::value, DA = OpA::Dim::value, DB = OpB::Dim::value;
    auto pm = fem3D_memory_requirements_base<OpA, OpB, double, int, Copy, N>((int)q, (int)f); char* a = (char*)(8 * (ul)vc_int("address", 4096, 1L << 40)); pm.ddata = (double*)a;
    auto m = fem3Dtet_init_animem_from_plain_memory<OpA, OpB, double, int, Copy, N>((int)q, (int)f, pm);
    ul ur = g_r[OpA::tag], need_r = same ? ur : mx(ur, g_r[OpB::tag]);
    view(m.XYG, 3 * q * f, "quadrature points"); view(m.XYP, 12 * f, "vertices"); view(m.PSI, 9 * f, "inverse map"); view(m.DET, f, "determinants"); view(m.MES, f, "measures");
    if (N) view(m.NRM, 3 * f, "normals"); if (Copy) { view(m.XYL, 4 * q, "barycentric points"); view(m.WG, q, "weights"); }
    view(m.U, g_u[OpA::tag], "values of A"); if (!same) view(m.V, g_u[OpB::tag], "values of B");
    view(m.DU, nD * DB * q * NA * f, "tensor times A"); view(m.DIFF, DB * (nD * DA > NA ? nD * DA : NA) * q * f, "tensor values"); view(m.extraR, need_r, "extra memory of the operators");
    blks[nb - 1].n = 8 * mx(need_r, NA * NB * f);   // the kernel keeps one matrix in the extra memory, whatever the operators ask for
    disjoint(a, pm.dSize * 8, 0); vc_check((m.q == q) & (m.f == f), "sizes of the batch"); vc_cover("layout");
}
VC(tet_two_operators) { tet<A, B, false, false>(); }
VC(tet_two_operators_copy) { tet<A, B, true, false>(); }
VC(tet_one_operator) { tet<A, A, false, false>(); }
VC(tet_one_operator_copy) { tet<B, B, true, false>(); }
VC(face_normal_two_operators) { tet<B, A, true, true>(); }
VC(face_normal_one_operator) { tet<A, A, true, true>(); }
template<class Op, bool X> static void evalL() {
    arbitrary(); ul q = g_q, f = g_f; const ul NA = Op::Nfa::value, DA = Op::Dim::value; auto pm = X ? fem3DapplyX_memory_requirements<Op, double, int>((int)q, (int)f) : fem3DapplyL_memory_requirements<Op, double, int>((int)q, (int)f);
    char* a = (char*)(8 * (ul)vc_int("address", 4096, 1L << 40)); pm.ddata = (double*)a; AniMemory<double, int> m; auto rest = __internal_fem3DapplyL_setmem<Op>(m, (int)q, (int)f, (int)NA, (int)DA, pm);
    view(m.XYG, 3 * q * f, "points"); view(m.XYP, 12 * f, "vertices"); view(m.PSI, 9 * f, "inverse map"); view(m.DET, f, "determinants"); view(m.MES, f, "measures"); view(m.U, g_u[Op::tag], "values");
    put(m.extraR.data, m.extraR.size, mx(g_r[Op::tag], NA * f), 8, "extra memory"); if (X) put(rest.ddata, rest.dSize, 4 * q, 8, "barycentric coordinates of the points");
    blks[X ? nb - 2 : nb - 1].n = 8 * mx(mx(g_r[Op::tag], NA * f), DA * q * f);   // values times tensor are collected there
    disjoint(a, pm.dSize * 8, 0); vc_cover("layout");
}
VC(apply_barycentric) { evalL<A, false>(); }
VC(apply_points) { evalL<B, true>(); }
// run-time operators: arbitrary dimension, number of functions, number of parts and requirements
struct RunOp: public ApplyOpBase {
    int tag; uint dim, nfa; std::size_t parts;
    RunOp(int t, bool wide): tag(t), dim((uint)vc_int("dim", 1, wide ? 9 : 3)), nfa((uint)vc_int("nfa", 1, wide ? 60 : 4)), parts((std::size_t)vc_choose("parts", 1, 3)) {}
    BandDenseMatrixX<> operator()(AniMemoryX<>&, ArrayView<>&) const override { return BandDenseMatrixX<>(); }
    OpMemoryRequirements getMemoryRequirements(uint q, uint f) const override { vc_check((q == g_q) & (f == g_f), "requirements asked for the actual batch"); OpMemoryRequirements r; r.Usz = g_u[tag]; r.extraRsz = g_r[tag]; r.extraIsz = g_i[tag]; r.mtx_parts = parts; return r; }
    uint Nfa() const override { return nfa; } uint Dim() const override { return dim; }
    bool operator==(const ApplyOpBase& o) const override { return this == &o; } std::shared_ptr<ApplyOpBase> Copy() const override { return nullptr; }
};
static TensorType unused(const Coord<>&, double*, TensorDims, void*, int) { return TENSOR_NULL; }
typedef DFunc<decltype(&unused), DfuncTraits<PerPoint, false>, double, int, -1> DF;
static void give(PlainMemoryX<>& pm) { pm.ddata = (double*)(8 * (ul)vc_int("address_r", 4096, 1L << 40)); pm.idata = (int*)(4 * (ul)vc_int("address_i", 4096, 1L << 40)); pm.mdata = (DenseMatrix<>*)(8 * (ul)vc_int("address_m", 4096, 1L << 40)); }
static void headers(AniMemoryX<>& m, const PlainMemoryX<>& pm, std::size_t parts, std::size_t mtx, ul ints) {
    int k = nb; view(m.MTXI_ROW, 2 + parts, "row offsets"); view(m.MTXI_COL, 2 + parts, "column offsets"); view(m.extraI, ints, "extra integers"); disjoint(pm.idata, pm.iSize * 4, k);
    k = nb; view(m.MTX, mtx, "matrix headers"); disjoint(pm.mdata, pm.mSize * sizeof(DenseMatrix<>), k);
}
template<bool N, bool Copy, bool TWO> static void run() {
    arbitrary(); for (int k = 0; k < 2; ++k) g_i[k] = (ul)vc_int("ints", 0, 1L << 20); ul q = g_q, f = g_f; RunOp u(0, false), v2(1, false); RunOp& v = TWO ? v2 : u; const ul nD = N ? 3 : 1; DF d(&unused);
    auto pm = fem3D_memory_requirements_base<DfuncTraits<PerPoint, false>, double, int>(u, v, (uint)q, (uint)f, N, Copy); give(pm);
    auto m = fem3D_init_animem_from_plain_memory<DF, double, int>(u, v, d, (uint)q, (uint)f, pm, N, Copy);
    ul need_r = TWO ? mx(g_r[0], g_r[1]) : g_r[0], NA = u.nfa, NB = v.nfa, DA = u.dim, DB = v.dim, a1 = nD * DA;
    view(m.XYG, 3 * q * f, "points"); view(m.XYP, 12 * f, "vertices"); view(m.PSI, 9 * f, "inverse map"); view(m.DET, f, "determinants"); view(m.MES, f, "measures");
    if (N) view(m.NRM, 3 * f, "normals"); if (Copy) { view(m.XYL, 4 * q, "barycentric points"); view(m.WG, q, "weights"); }
    view(m.U, g_u[0], "values of U"); if (TWO) view(m.V, g_u[1], "values of V");
    view(m.DU, DB * nD * q * NA * f, "tensor times U"); view(m.DIFF, DB * mx(a1, NA) * q * f, "tensor values"); view(m.extraR, need_r, "extra memory of the operators"); int er = nb - 1;
    ul mem = DF::memReq(TensorDims(DB * nD, DA)); put(d.m_mem.data, d.m_mem.size, mem, 8, "memory of the tensor"); 
    vc_check((ul)m.extraR.data + 8 * mx(need_r, NA * NB * f) <= (ul)pm.ddata + 8 * pm.dSize, "a matrix kept in the extra memory (after the tensor is evaluated) fits"); (void)er;
    disjoint(pm.ddata, pm.dSize * 8, 0); headers(m, pm, u.parts + (TWO ? v.parts : 0), u.parts + (TWO ? v.parts : 0) + (v.parts > 1 ? 2 * v.parts : 0), TWO ? mx(g_i[0], g_i[1]) : g_i[0]);
    vc_check((m.q == q) & (m.f == f), "sizes of the batch"); vc_cover("layout");
}
VC(run_two) { run<false, false, true>(); }
VC(run_two_copy) { run<false, true, true>(); }
VC(run_one) { run<false, true, false>(); }
VC(run_normal) { run<true, true, true>(); }
template<bool TWO> static void refused() {
    arbitrary(); for (int k = 0; k < 2; ++k) g_i[k] = (ul)vc_int("ints", 0, 1L << 20); RunOp u(0, false), v2(1, false); RunOp& v = TWO ? v2 : u; DF d(&unused);
    auto pm = fem3D_memory_requirements_base<DfuncTraits<PerPoint, false>, double, int>(u, v, (uint)g_q, (uint)g_f, false, true), less = pm; less.dSize = (ul)vc_int("have_r", 0, 1L << 40); less.iSize = (ul)vc_int("have_i", 0, 1L << 40); less.mSize = (ul)vc_int("have_m", 0, 100); give(less);
    bool thrown = false; try { fem3D_init_animem_from_plain_memory<DF, double, int>(u, v, d, (uint)g_q, (uint)g_f, less, false, true); } catch (const std::runtime_error&) { thrown = true; }
    vc_check(thrown == ((less.dSize < pm.dSize) | (less.iSize < pm.iSize) | (less.mSize < pm.mSize)), "a memory smaller than announced is refused, any other accepted"); vc_cover(thrown ? "refused" : "accepted");
}
VC(run_refuses_less) { refused<true>(); }
// evaluation of a run-time operator, with and without a tensor
template<bool TENSOR, bool COPY> static void run_eval() {
    arbitrary(); g_i[0] = (ul)vc_int("ints", 0, 1L << 20); ul q = g_q, f = g_f; RunOp u(0, false); uint D1 = (uint)vc_int("rows", 1, 9); DF d(&unused); ul NA = u.nfa, DA = u.dim, parts = u.parts;
    auto pm = TENSOR ? fem3DapplyD_memory_requirements_base<DfuncTraits<PerPoint, false>, double, int>(u, D1, (uint)q, (uint)f, false) : fem3DapplyND_memory_requirements_base<double, int>(u, (uint)q, (uint)f, COPY); give(pm);
    AniMemoryX<> m; if (TENSOR) m = fem3DapplyD_init_animem_from_plain_memory<DF, double, int>(u, D1, d, (uint)q, (uint)f, pm, false); else m = fem3DapplyND_init_animem_from_plain_memory<double, int>(u, (uint)q, (uint)f, pm, COPY);
    view(m.XYG, 3 * q * f, "points"); view(m.XYP, 12 * f, "vertices"); view(m.PSI, 9 * f, "inverse map"); view(m.DET, f, "determinants"); view(m.MES, f, "measures"); view(m.U, g_u[0], "values of U");
    if (TENSOR || COPY) view(m.XYL, 4 * q, "barycentric points");
    if (TENSOR) { view(m.DU, D1 * q * f, "tensor times values"); view(m.DIFF, D1 * DA * q * f, "tensor values"); view(m.V, DA * q * f, "values"); }
    view(m.extraR, g_r[0], "extra memory of the operators"); if (TENSOR) put(d.m_mem.data, d.m_mem.size, D1 * DA, 8, "memory of the tensor");
    vc_check((ul)m.extraR.data + 8 * mx(g_r[0], NA * f) <= (ul)pm.ddata + 8 * pm.dSize, "a vector kept in the extra memory fits");
    if ((parts > 1) && vc_choose("points", 0, 1)) { vc_assume(q > 1); vc_check((ul)m.extraR.data + 8 * mx(g_r[0], DA * q * f) <= (ul)pm.ddata + 8 * pm.dSize, "values collected over the parts in the extra memory fit"); }
    disjoint(pm.ddata, pm.dSize * 8, 0); headers(m, pm, parts, parts, g_i[0]); vc_check((m.q == q) & (m.f == f), "sizes of the batch"); vc_cover("layout");
}
VC(run_eval_tensor) { run_eval<true, true>(); }
VC(run_eval_barycentric) { run_eval<false, false>(); }
VC(run_eval_points) { run_eval<false, true>(); }
// storage on the stack: blocks of the structure itself, or of the heap block when they are too small
VC(stack_storage) {
    nb = 0; static MemoryLegacy<double, 2, 2> ml; const ul cap[5] = {9 * 2 * 30 * 2, 9 * 2 * 30 * 2, 9 * 2 * 30 * 2, 9 * 2 * 30 * 2, 3 * 20 * 2 * 2}; ul want[5];
    for (int i = 0; i < 5; ++i) want[i] = vc_choose("over", 0, 1) ? cap[i] + 1 + 7 * i : (ul)vc_int("want", 0, (long)cap[i]);
    auto m = ml.template getAniMemory<int>(want[0], want[1], want[2], want[3], want[4]);
    view(m.U, want[0], "U"); view(m.V, want[1], "V"); view(m.DU, want[2], "DU"); view(m.DIFF, want[3], "DIFF"); view(m.extraR, want[4], "extra"); view(m.XYG, 12, "points"); view(m.XYP, 24, "vertices"); view(m.PSI, 18, "inverse map"); view(m.DET, 2, "determinants"); view(m.MES, 2, "measures"); view(m.NRM, 6, "normals"); view(m.XYL, 8, "barycentric"); view(m.WG, 2, "weights");
    double* lo = (double*)&ml; double* hi = (double*)(&ml + 1); for (int i = 0; i < nb; ++i) { double *b = (double*)blks[i].b, *e = (double*)(blks[i].b + blks[i].n); bool st = b >= lo && e <= hi, hp = ml.heap.size() && b >= ml.heap.data() && e <= ml.heap.data() + ml.heap.size(); vc_check(st || hp, "block lies in the structure or in its heap block"); }
    for (int i = 0; i < nb; ++i) for (int j = 0; j < i; ++j) vc_check((blks[i].n == 0) | (blks[j].n == 0) | (blks[i].b + blks[i].n <= blks[j].b) | (blks[j].b + blks[j].n <= blks[i].b), "blocks do not overlap"); vc_cover("stack");
}
VC_NEG(matrix_does_not_fit_a_smaller_memory) { arbitrary(); auto pm = fem3D_memory_requirements_base<A, B, double, int, false, false>((int)g_q, (int)g_f); vc_check(pm.dSize >= g_u[0] + g_u[1] + 6 * (ul)g_q * g_f + 23 * (ul)g_f + 20 * (ul)g_f * g_q + 8 * (ul)g_q * g_f + 20 * (ul)g_f, "more is announced than needed"); }
