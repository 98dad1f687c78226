// VCFLAGS: timeout=300
// C14, fourth order: storage order, symmetries, contractions, tensor products and conversions of Tensor4Rank (full), SymTensor4Rank (R_ijkl = R_klij) and
// BiSymTensor4Rank (also R_ijkl = R_jikl) for dimensions 2, 3 and 4, and the iterators of every class with symmetric storage.
#include "tensors.h"
template<sz N, class F> void all(F f) { for (sz i = 0; i < N; ++i) for (sz j = 0; j < N; ++j) for (sz k = 0; k < N; ++k) for (sz l = 0; l < N; ++l) f(i, j, k, l); }
template<class T, sz N> struct Of;
template<sz N> struct Of<Tensor4Rank<N>, N> { static sz pos(sz i, sz j, sz k, sz l) { return posT<N>(i, j, k, l); } };
template<sz N> struct Of<SymTensor4Rank<N>, N> { static sz pos(sz i, sz j, sz k, sz l) { return posST<N>(i, j, k, l); } };
template<sz N> struct Of<BiSymTensor4Rank<N>, N> { static sz pos(sz i, sz j, sz k, sz l) { return posB<N>(i, j, k, l); } };
template<sz N, class T> double comp(const T& t, sz i, sz j, sz k, sz l) { return t.m_dat[Of<T, N>::pos(i, j, k, l)]; }
template<sz N, template<sz, typename> class TT> void tensor() {
    typedef TT<N, double> T; const T x = anyT<T>("x"), y = anyT<T>("y"); T w = x; double t = vc_real("t", -2, 2); double nn = 0, dd = 0; std::vector<int> mult(x.m_dat.size(), 0); vc_scale(100);
    all<N>([&](sz i, sz j, sz k, sz l) { sz p = Of<T, N>::pos(i, j, k, l); vc_check(p < mult.size(), "position"); ++mult[p]; nn += x.m_dat[p] * x.m_dat[p]; dd += x.m_dat[p] * y.m_dat[p]; vc_eq(x(i, j, k, l), x.m_dat[p], "(i, j, k, l)"); vc_eq(x(std::array<sz, 2>{i, j}, std::array<sz, 2>{k, l}), x.m_dat[p], "({i, j}, {k, l})"); vc_eq(x(std::array<sz, 4>{i, j, k, l}), x.m_dat[p], "({i, j, k, l})");
        w(i, j, k, l) = t; vc_eq(w.m_dat[p], t, "write"); w(std::array<sz, 2>{i, j}, std::array<sz, 2>{k, l}) = 2 * t; vc_eq(w.m_dat[p], 2 * t, "write"); w(std::array<sz, 4>{i, j, k, l}) = x.m_dat[p]; });
    for (sz p = 0; p < mult.size(); ++p) { vc_check(x.index_duplication(p) == (sz)mult[p], "duplication counts the equal components"); vc_eq(w.m_dat[p], x.m_dat[p], "writes touch one component"); }
    vc_eq(x.SquareFrobNorm(), nn, "squared norm"); vc_eq(x.Dot(y), dd, "full contraction"); vc_check(x.rank() == 4 && x.continuous_size() == mult.size(), "size");
    auto arr = tensor_convert<PhysArr<std::tuple_size<decltype(x.m_dat)>::value>>(x); T back = tensor_convert<T>(arr), cp(x.m_dat), same = tensor_convert<T>(x); for (sz p = 0; p < mult.size(); ++p) { vc_eq(arr[p], x.m_dat[p], "to array"); vc_eq(back.m_dat[p], x.m_dat[p], "from array"); vc_eq(cp.m_dat[p], x.m_dat[p], "from array"); vc_eq(same.m_dat[p], x.m_dat[p], "to itself"); }
    vc_cover("tensor");
}
template<sz N, class T, class M> void products(const M& s, const M& f, const Mat<N>& S, const Mat<N>& F) {
    const T q = T::TensorSquare(s), m = T::TensorSymMul2(f, s);
    all<N>([&](sz i, sz j, sz k, sz l) { vc_eq(comp<N>(q, i, j, k, l), S[i][j] * S[k][l], "s x s"); vc_eq(comp<N>(m, i, j, k, l), F[i][j] * S[k][l] + S[i][j] * F[k][l], "f x s + s x f"); }); vc_cover("tensor products");
}
template<sz N, class FROM, class TO> void conv() { const FROM x = anyT<FROM>("x"); const TO y = tensor_convert<TO>(x); const FROM z = tensor_convert<FROM>(y); all<N>([&](sz i, sz j, sz k, sz l) { vc_eq(comp<N>(y, i, j, k, l), comp<N>(x, i, j, k, l), "same components"); }); for (sz p = 0; p < x.m_dat.size(); ++p) vc_eq(z.m_dat[p], x.m_dat[p], "and back"); vc_cover("conversion"); }
template<sz N> void ten4() {
    switch (vc_choose("class", 0, 8)) {
        case 0: return tensor<N, Tensor4Rank>(); case 1: return tensor<N, SymTensor4Rank>(); case 2: return tensor<N, BiSymTensor4Rank>();
        case 3: { Mat<N> S = anyF<N>("s"), F = anyF<N>("f"); products<N, Tensor4Rank<N>>(mk(S), mk(F), S, F); return products<N, SymTensor4Rank<N>>(mk(S), mk(F), S, F); }
        case 4: { Mat<N> S = anyS<N>("s"), F = anyS<N>("f"); products<N, Tensor4Rank<N>>(mkS(S), mkS(F), S, F); products<N, SymTensor4Rank<N>>(mkS(S), mkS(F), S, F); return products<N, BiSymTensor4Rank<N>>(mkS(S), mkS(F), S, F); }
        case 5: return conv<N, SymTensor4Rank<N>, Tensor4Rank<N>>(); case 6: return conv<N, BiSymTensor4Rank<N>, Tensor4Rank<N>>(); case 7: return conv<N, BiSymTensor4Rank<N>, SymTensor4Rank<N>>();
        default: linear<Tensor4Rank<N>>(); linear<SymTensor4Rank<N>>(); return linear<BiSymTensor4Rank<N>>();
    }
}
VC(fourth2) { ten4<2>(); } VC(fourth3) { ten4<3>(); } VC(fourth4) { ten4<4>(); }
VC(voigt) { auto t = [](auto z) { constexpr sz N = decltype(z)::value; typedef SymMtx<N * (N + 1) / 2> V; typedef BiSymTensor4Rank<N> B; const B x = anyT<B>("x"); const V v = tensor_convert<V>(x); const B y = tensor_convert<B>(v); all<N>([&](sz i, sz j, sz k, sz l) { vc_eq(v(posS<N>(i, j), posS<N>(k, l)), comp<N>(x, i, j, k, l), "as a matrix of pairs"); vc_eq(comp<N>(y, i, j, k, l), comp<N>(x, i, j, k, l), "and back"); }); vc_cover("voigt"); };
    t(std::integral_constant<sz, 2>()); t(std::integral_constant<sz, 3>()); t(std::integral_constant<sz, 4>()); }
VC(identity4) { double v = vc_real("v", -2, 2); const BiSymTensor4Rank<3> I = BiSymTensor4Rank<3>::Identity(), V = BiSymTensor4Rank<3>::Identity(v); all<3>([&](sz i, sz j, sz k, sz l) { double e = ((i == k) * (j == l) + (i == l) * (j == k)) / 2.; vc_eq(comp<3>(I, i, j, k, l), e, "identity"); vc_eq(comp<3>(V, i, j, k, l), v * e, "scaled identity"); }); vc_cover("identity"); }
// indices: every index tuple and every position of dimensions 2..4, ordered representative, equality
template<sz N> void indexes() {
    typedef SymTensor4Rank<N> S; typedef BiSymTensor4Rank<N> B; typedef typename S::Index S_I; typedef typename B::Index B_I; std::vector<int> hs(N * N * (N * N + 1) / 2, 0), hb((N * (N + 1) / 2) * (N * (N + 1) / 2 + 1) / 2, 0);
    all<N>([&](sz i, sz j, sz k, sz l) { S_I a(i, j, k, l); B_I b(i, j, k, l); sz p = posST<N>(i, j, k, l), q = posB<N>(i, j, k, l);
        vc_check(S::continuous_index(a) == p && S::index(p) == a && S_I(k, l, i, j) == a, "SymTensor4Rank index"); vc_check(B::continuous_index(b) == q && B::index(q) == b && B_I(k, l, i, j) == b && B_I(j, i, k, l) == b && B_I(i, j, l, k) == b, "BiSymTensor4Rank index");
        vc_check(a[0] == a.i && a[1] == a.j && a[2] == a.k && a[3] == a.l && b[0] == b.i && b[1] == b.j && b[2] == b.k && b[3] == b.l, "components of an index"); vc_check((a.i == i && a.j == j && a.k == k && a.l == l) || (a.i == k && a.j == l && a.k == i && a.l == j), "representative"); hs[p] = hb[q] = 1; });
    for (int h : hs) vc_check(h, "every position"); for (int h : hb) vc_check(h, "every position"); S_I z; B_I y; vc_check(z == S_I(0, 0, 0, 0) && y == B_I(0, 0, 0, 0), "default"); vc_cover("indexes");
}
VC(indexes) { indexes<2>(); indexes<3>(); indexes<4>(); }
// iterators: any two positions, any shift (the data is only touched inside)
template<class T> void iterators() {
    T t = anyT<T>("x"); const T& c = t; const long n = (long)t.m_dat.size(); long i = vc_int("i", 0, 20000), j = vc_int("j", 0, 20000); vc_assume((i <= n) & (j <= n));
    auto a = t.begin(), b = t.begin(); a += i; b = b + j; auto ca = c.begin() + i, cb = j + c.cbegin();
    vc_check(a - b == i - j && b - a == j - i && ca - cb == i - j && t.end() - a == n - i && c.cend() - ca == n - i && c.end() - c.begin() == n, "distance"); vc_check((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (ca < cb) == (i < j), "comparison");
    vc_check((long)a.continuous_index() == i && a - i == t.begin() && (a - i) + j == b, "moves"); auto d = b; d -= j; vc_check(d == t.begin(), "moves back"); d = a; vc_check(d++ == a && d - a == 1 && d-- - a == 1 && d == a && ++d - a == 1 && --d == a, "steps");
    vc_cover("iterators");
}
template<class T> void walk() { T t = anyT<T>("x"); const T& c = t; const sz n = t.m_dat.size(); sz p = 0; for (auto it = t.begin(); it != t.end(); ++it, ++p) { vc_check(p < n && &*it == &t.m_dat[p] && it.operator->() == &t.m_dat[p] && it.continuous_index() == p && it.index() == T::index(p), "visits every position"); vc_check(&t.begin()[p] == &t.m_dat[p] && &it[-(long)p] == &t.m_dat[0] && &(c.end()[(long)p - (long)n]) == &t.m_dat[p], "subscript"); } vc_check(p == n, "visits every position"); vc_cover("walk"); }
template<class T> void both() { if (vc_choose("walk", 0, 1)) walk<T>(); else iterators<T>(); }
VC(iterators) { switch (vc_choose("class", 0, 8)) { case 0: return both<SymMtx<2>>(); case 1: return both<SymMtx<3>>(); case 2: return both<SymMtx<4>>(); case 3: return both<SymMtx<16>>(); case 4: return both<SymTensor4Rank<2>>(); case 5: return both<SymTensor4Rank<4>>(); case 6: return both<BiSymTensor4Rank<3>>(); case 7: return both<BiSymTensor4Rank<4>>(); default: return both<BiSymTensor4Rank<5>>(); } }
