// Contracts for elemental matrices. The kernel (internalFem3Dtet and the tensor product internal_Dfunc::applyDU) is
// verified against the CONTRACT of a differential operator ("apply returns, for every tetrahedron, function, point and
// component, one real number, arranged in bands") instead of the body of any particular operator: the abstract operators
// below return arbitrary reals, so the result holds for every operator with those dimensions.
#pragma once
#include "fem.h"
namespace vcx {
using namespace Ani;
constexpr int MAXV = 4096;
// value tables of the abstract operators: (component k, point n, function i, tetra r); zero outside the bands
struct OpTab {
    int dim, nfa, parts, q, f; double v[MAXV];
    double& at(int k, int n, int i, int r) { return v[k + dim * (n + q * (i + nfa * r))]; }
    int row(int p) const { return p * dim / parts; }
    int col(int p) const { return p * nfa / parts; }
    void init(int d, int nf, int P, int q_, int f_, const char* nm) {
        dim = d; nfa = nf; parts = P; q = q_; f = f_;
        for (int i = 0; i < d * nf * q * f; ++i) v[i] = 0;
        for (int p = 0; p < P; ++p) for (int r = 0; r < f; ++r) for (int i = col(p); i < col(p + 1); ++i) for (int n = 0; n < q; ++n) for (int k = row(p); k < row(p + 1); ++k)
            at(k, n, i, r) = vc_real(nm, -2, 2);
    }
    size_t usz(int q_, int f_) const { size_t s = 0; for (int p = 0; p < parts; ++p) s += (size_t)(row(p + 1) - row(p)) * (col(p + 1) - col(p)) * q_ * f_; return s; }
    // writes the parts into U one after another as the operators of the library do
    template<class M, class S> void emit(M* data, int* stRow, int* stCol, ArrayView<S>& U) {
        double* o = U.data;
        for (int p = 0; p < parts; ++p) {
            int ld = row(p + 1) - row(p), ln = col(p + 1) - col(p);
            data[p] = DenseMatrix<>(o, ld * q, ln * f);
            for (int r = 0; r < f; ++r) for (int i = 0; i < ln; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < ld; ++k)
                o[k + ld * (n + q * (i + ln * r))] = at(k + row(p), n, i + col(p), r);
            o += ld * q * ln * f; stRow[p] = row(p); stCol[p] = col(p);
        }
        stRow[parts] = dim; stCol[parts] = nfa;
    }
};
// what an operator may rely on when it is applied: set by the contract of the caller
struct Expect {
    bool on = false; int q, f; const double *lam = nullptr, *X[4] = {0, 0, 0, 0}; int calls = 0;   // lam: 4*q, X[i]: 3*f
    void check(const AniMemory<double, int>& m) {
        ++calls;
        if (!on) return;
        vc_check((int)m.q == q && (int)m.f == f, "operator called with the right numbers of points and tetrahedra");
        vc_check((int)m.XYL.size >= 4 * q && (int)m.XYP.size >= 12 * f && (int)m.PSI.size >= 9 * f && (int)m.DET.size >= f, "geometry arrays have their size");
        for (int i = 0; i < 4 * q; ++i) vc_eq(m.XYL.data[i], lam[i], "barycentric points handed to the operator");
        for (int r = 0; r < f; ++r) {
            double e[12]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) e[3 * i + k] = X[i][3 * r + k] - X[0][3 * r + k];
            for (int i = 0; i < 12; ++i) vc_eq(m.XYP.data[12 * r + i], e[i], "vertices handed to the operator");
            vc_eq(m.DET.data[r], det3(e + 3, e + 6, e + 9), "determinant handed to the operator");
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += m.PSI.data[9 * r + i + 3 * k] * e[3 + 3 * j + k]; vc_eq(s, i == j, "inverse map handed to the operator"); }
        }
    }
};
static Expect g_expect;
constexpr size_t EXR = 5; static size_t EXI = 2;      // extra memory the abstract operators ask for (and use); no operator of the library asks for integers, and the stack-memory versions offer none
template<int TAG, int DIM, int NFA, int P> struct AbsRet { template<class S, class I> static BandDenseMatrix<P, S, I> make(OpTab& t, ArrayView<S>& U) { BandDenseMatrix<P, S, I> r; t.emit(r.data, r.stRow, r.stCol, U); return r; } };
template<int TAG, int DIM, int NFA> struct AbsRet<TAG, DIM, NFA, 1> { template<class S, class I> static DenseMatrix<S> make(OpTab& t, ArrayView<S>& U) { DenseMatrix<S> d[1]; int a[2], b[2]; t.emit(d, a, b, U); return d[0]; } };
inline void scratch(const AniMemory<double, int>& m) {
    vc_check(m.extraR.size >= EXR && m.extraI.size >= EXI, "operator gets the extra memory it asked for");
    if (m.extraR.size >= EXR) for (size_t i = 0; i < EXR; ++i) m.extraR.data[i] = -7;
    if (m.extraI.size >= EXI) for (size_t i = 0; i < EXI; ++i) m.extraI.data[i] = -7;
}
template<int TAG, int DIM, int NFA, int P> struct Abs {
    using Dim = std::integral_constant<int, DIM>; using Nfa = std::integral_constant<int, NFA>; using Order = std::integral_constant<int, 1>;
    static OpTab tab;
    template<typename S, typename I> static void memoryRequirements(int f, int q, size_t& U, size_t& R, size_t& Ii) { OpTab t; t.dim = DIM; t.nfa = NFA; t.parts = P; U = t.usz(q, f); R = EXR; Ii = EXI; }
    template<typename S, typename I> static auto apply(AniMemory<S, I>& mem, ArrayView<S>& U) {
        g_expect.check(mem); scratch(mem);
        vc_check(U.size >= tab.usz((int)mem.q, (int)mem.f), "operator gets the memory it asked for");
        return AbsRet<TAG, DIM, NFA, P>::template make<S, I>(tab, U);
    }
    static void init(int q, int f) { tab.init(DIM, NFA, P, q, f, TAG ? "V" : "U"); }
};
template<int TAG, int DIM, int NFA, int P> OpTab Abs<TAG, DIM, NFA, P>::tab;
// the same as a run-time operator
struct DynAbs : ApplyOpBase {
    OpTab* t; uint D, N, P;
    DynAbs(OpTab* t_, uint d, uint n, uint p) : t(t_), D(d), N(n), P(p) {}
    BandDenseMatrixX<> operator()(AniMemoryX<>& mem, ArrayView<>& U) const override {
        g_expect.check(mem); scratch(mem);
        vc_check(U.size >= t->usz((int)mem.q, (int)mem.f), "operator gets the memory it asked for");
        uint sh = mem.busy_mtx_parts > 0 ? 1 : 0;
        vc_check(mem.MTX.size >= mem.busy_mtx_parts + P && mem.MTXI_ROW.size >= mem.busy_mtx_parts + sh + P + 1 && mem.MTXI_COL.size >= mem.busy_mtx_parts + sh + P + 1, "operator gets the matrix headers it asked for");
        BandDenseMatrixX<> res(P, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + sh, mem.MTXI_COL.data + mem.busy_mtx_parts + sh);
        t->emit(res.data, res.stRow, res.stCol, U);
        mem.busy_mtx_parts += P;
        return res;
    }
    OpMemoryRequirements getMemoryRequirements(uint q, uint f) const override { OpTab x; x.dim = D; x.nfa = N; x.parts = P; return OpMemoryRequirements(x.usz(q, f), EXR, EXI, P); }
    uint Nfa() const override { return N; }
    uint Dim() const override { return D; }
    bool operator==(const ApplyOpBase& o) const override { return this == &o; }
    std::shared_ptr<ApplyOpBase> Copy() const override { return std::make_shared<DynAbs>(*this); }
};
// arbitrary tensor: one matrix of arbitrary reals and one truthful classification per (tetra, point)
struct TenTab {
    int rows, cols, q, f; bool constant = false, compat; double v[1024]; TensorType ty[64]; char ud; long asked = 0;
    const double* X = nullptr;            // expected coordinates of the points, 3*q*f
    bool geometry = false;                // points are told apart by uninterpreted functions of X instead of by their values
    double& at(int k, int l, int n, int r) { return v[k + rows * (l + cols * (n + q * r))]; }
    TensorType type(int n, int r) const { return ty[n + q * r]; }
    // value of the tensor as a matrix acting between the operators
    double mat(int k, int l, int n, int r) {
        TensorType t = type(n, r);
        if (t == TENSOR_NULL) return rows == cols ? (k == l) : 1;
        if (t == TENSOR_SCALAR) return rows == cols ? (k == l ? at(0, 0, n, r) : 0) : at(0, 0, n, r);
        return at(k, l, n, r);
    }
    // mode: 0 one type for all, 1 type per tetra, 2 type per point
    void init(int rw, int cl, int q_, int f_, int nfa, int mode, bool cons, int first, int only = 0) {
        rows = rw; cols = cl; q = q_; f = f_; constant = cons; compat = rows == cols || (nfa == 1 && cols == 1);
        TensorType al[4]; int na = 0; al[na++] = TENSOR_GENERAL; if (compat) { al[na++] = TENSOR_SCALAR; al[na++] = TENSOR_NULL; } if (rows == cols) al[na++] = TENSOR_SYMMETRIC;
        for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) {
            bool fresh = !cons || (n == 0 && r == 0);
            ty[n + q * r] = only ? (TensorType)only : al[(first + (mode == 2 ? n + 2 * r : mode == 1 ? r : 0)) % na];
            for (int l = 0; l < cols; ++l) for (int k = 0; k < rows; ++k) {
                if (!fresh) at(k, l, n, r) = at(k, l, 0, 0);
                else if (type(n, r) == TENSOR_SYMMETRIC && k < l) at(k, l, n, r) = at(k, l, n, r) = 0;
                else at(k, l, n, r) = vc_real("D", -2, 2);
            }
            if (fresh && type(n, r) == TENSOR_SYMMETRIC) for (int l = 0; l < cols; ++l) for (int k = 0; k < l; ++k) at(k, l, n, r) = at(l, k, n, r);
        }
    }
    void put(double* D, int n, int r) {
        if (type(n, r) == TENSOR_SCALAR) D[0] = at(0, 0, n, r);
        else if (type(n, r) != TENSOR_NULL) for (int l = 0; l < cols; ++l) for (int k = 0; k < rows; ++k) D[k + rows * l] = at(k, l, n, r);
    }
};
static TenTab g_ten;
inline TensorType point_tensor(const Coord<>& x, double* D, TensorDims dims, void* ud, int iTet) {
    TenTab& t = g_ten; ++t.asked;
    vc_check(ud == &t.ud, "user data handed to the tensor");
    vc_check((int)dims.first == t.rows && (int)dims.second == t.cols, "dimensions handed to the tensor");
    if (t.constant) { t.put(D, 0, 0); return t.type(0, 0); }
    vc_check(iTet >= 0 && iTet < t.f, "index of the tetrahedron handed to the tensor");
    for (int r = 0; r < t.f; ++r) for (int n = 0; n < t.q; ++n) { const double* X = t.X + 3 * (n + t.q * r); if (X[0] == x[0] && X[1] == x[1] && X[2] == x[2]) { vc_check(iTet == r, "tensor is evaluated with the index of the tetrahedron that contains the point"); t.put(D, n, r); return t.type(n, r); } }
    vc_check(0, "tensor is evaluated at a quadrature point");
    return t.type(0, 0);
}
inline TensorType fused_tensor(ArrayView<> X, ArrayView<> D, TensorDims dims, void* ud, const AniMemory<double, int>& mem) {
    TenTab& t = g_ten; ++t.asked;
    vc_check(ud == &t.ud, "user data handed to the tensor");
    vc_check((int)dims.first == t.rows && (int)dims.second == t.cols && (int)mem.q == t.q && (int)mem.f == t.f, "dimensions handed to the tensor");
    vc_check((int)D.size >= t.rows * t.cols * t.q * t.f && (int)X.size >= 3 * t.q * t.f, "memory handed to the tensor");
    for (int i = 0; i < 3 * t.q * t.f; ++i) vc_eq(X.data[i], t.X[i], "points handed to the tensor");
    for (int r = 0; r < t.f; ++r) for (int n = 0; n < t.q; ++n) t.put(D.data + t.rows * t.cols * (n + t.q * r), n, r);
    return t.type(0, 0);
}
// integral of (D U_j) . V_i (optionally contracted with a normal) as the quadrature sum of the statement
inline double form(OpTab& U, OpTab& V, TenTab& T, int j, int i, int r, const double* w, double mes, const double* nrm) {
    double s = 0;
    for (int n = 0; n < U.q; ++n)
        for (int k = 0; k < V.dim; ++k) {
            double dk = 0;
            if (nrm) for (int c = 0; c < 3; ++c) { double t = 0; for (int l = 0; l < U.dim; ++l) t += T.mat(c + 3 * k, l, n, r) * U.at(l, n, j, r); dk += t * nrm[c]; }
            else for (int l = 0; l < U.dim; ++l) dk += T.mat(k, l, n, r) * U.at(l, n, j, r);
            s += w[n] * dk * V.at(k, n, i, r);
        }
    return s * mes;
}
template<int AG> struct AgT; template<> struct AgT<0> { static constexpr auto fn = point_tensor; }; template<> struct AgT<1> { static constexpr auto fn = fused_tensor; };
}
