#pragma once
#include "adjet.h"
#include "anifem++/autodiff/autodiff.h"
using namespace Ani;
template <std::size_t N> using Arr = PhysArrStorageSet<N>;
template <std::size_t N> using Sym = PhysSymTensorStorageSet<N>;
template <std::size_t N> using Full = PhysTensorStorageSet<N>;
// number of variables of a storage, and the second derivative by variables p and q
template <class S> struct Lay;
template <std::size_t N> struct Lay<PhysArrStorageSet<N>> { enum { n = N }; template <class H> static double at(const H& h, int p, int q) { return h(p, q); } template <class H> static double& ref(H& h, int p, int q) { return h(p, q); } };
static void unpack(int N, int p, int* i, int* j) { *i = 0; while (p >= N - *i) p -= N - (*i)++; *j = *i + p; }
template <std::size_t N> struct Lay<PhysSymTensorStorageSet<N>> { enum { n = N * (N + 1) / 2 };
    template <class H> static double at(const H& h, int p, int q) { int i, j, k, l; unpack(N, p, &i, &j); unpack(N, q, &k, &l); return h(i, j, k, l); }
    template <class H> static double& ref(H& h, int p, int q) { int i, j, k, l; unpack(N, p, &i, &j); unpack(N, q, &k, &l); return h(i, j, k, l); } };
template <std::size_t N> struct Lay<PhysTensorStorageSet<N>> { enum { n = N * N };
    template <class H> static double at(const H& h, int p, int q) { return h(p / N, p % N, q / N, q % N); }
    template <class H> static double& ref(H& h, int p, int q) { return h(p / N, p % N, q / N, q % N); } };
static int level;   // number of derivatives asked for: all variables of an expression share it
template <class S> static const double& g_of(const typename S::GradientType& g, int p) { return const_cast<typename S::GradientType&>(g)[p]; }
template <class R> static void is(const R& r, const Jet& j, const char* what) {
    using S = typename R::Storage; const int n = Lay<S>::n; std::string w(what);
    vc_eq(r(), j.v, (w + ": value").c_str());
    bool deep = r.m_dif >= level;
    typename S::GradientType g = r.D(); typename S::HessianType h = r.DD();
    if (level >= 1) for (int p = 0; p < n; ++p) { vc_eq(g[p], j.g[p], (w + ": gradient").c_str()); if (!R::State::NotTrivialDeriv || !(deep || r.m_dif >= 1)) vc_eq(0, j.g[p], (w + ": a derivative declared zero is zero").c_str()); }
    if (level >= 2) for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { vc_eq(Lay<S>::at(h, p, q), j.H(p, q), (w + ": Hessian").c_str()); if (!R::State::NotTrivialSecondDeriv || !deep) vc_eq(0, j.H(p, q), (w + ": a second derivative declared zero is zero").c_str()); }
}
template <class S, bool D, bool DD> static ADVal<ADState<true, D, DD>, S> value(Jet& j) {
    const int n = Lay<S>::n; ADVal<ADState<true, D, DD>, S> r; r.m_v = j.v = vc_real("v", -2, 2); r.m_dif = (unsigned char)level;
    if (D) for (int p = 0; p < n; ++p) r.m_d[p] = j.g[p] = vc_real("d", -2, 2);
    if (DD) for (int p = 0; p < n; ++p) for (int q = p; q < n; ++q) j.H(q, p) = j.H(p, q) = Lay<S>::ref(r.m_dd, p, q) = vc_real("dd", -2, 2);
    return r;
}
// an arbitrary operand of each kind
template <class S, class F> static void with(int kind, F f) {
    Jet j(Lay<S>::n);
    if (kind == 0) { j.v = vc_real("v", -2, 2); f(Param<S>(j.v), j); }
    else if (kind == 1) { j.v = vc_real("v", -2, 2); int k = (int)vc_choose("variable", 0, j.n - 1); j.g[k] = 1; f(Var<S>(k, j.v, level), j); }
    else if (kind == 2) { auto r = value<S, false, false>(j); int c = (int)vc_choose("declared order", 0, 2); if (c) r.m_dif = c == 1 ? 0 : 255; f(r, j); }
    else if (kind == 3) f(value<S, true, false>(j), j);
    else f(value<S, true, true>(j), j);
}
template <class X, class Y> static void binary(X x, const Jet& jx, Y y, const Jet& jy) {
    switch ((int)vc_choose("operation", 0, 7)) {
    case 0: is(x + y, jx + jy, "+"); break;
    case 1: is(x - y, jx - jy, "-"); break;
    case 2: is(x * y, jx * jy, "*"); break;
    case 3: vc_nonzero(jy.v); is(x / y, jx / jy, "/"); break;
    case 4: vc_assume(jx.v > 0); if (!Y::State::NotTrivialDeriv) vc_nonzero(jy.v); is(pow(x, y), pow(jx, jy), "pow"); break;
    case 5: vc_assume((jx.v != 0) | (jy.v != 0)); is(atan2(x, y), atan2(jx, jy), "atan2"); break;
    case 6: { vc_assume(jx.v != jy.v); bool l = jx.v < jy.v; is(min(x, y), l ? jx : jy, "min"); is(max(x, y), l ? jy : jx, "max"); break; }
    default: vc_check((x < y) == (jx.v < jy.v), "<"); vc_check((x > y) == (jx.v > jy.v), ">"); vc_check((x <= y) == (jx.v <= jy.v), "<="); vc_check((x >= y) == (jx.v >= jy.v), ">="); vc_check((x == y) == (jx.v == jy.v), "=="); vc_check((x != y) == (jx.v != jy.v), "!=");
    }
    vc_cover("binary");
}
template <class X> static void unary(X x, const Jet& j) {
    double a = j.v;
    switch ((int)vc_choose("function", 0, 24)) {
    case 0: is(-x, -j, "unary minus"); break;
    case 1: is(exp(x), exp(j), "exp"); break;
    case 2: is(expm1(x), expm1(j), "expm1"); break;
    case 3: vc_assume(a > 0); is(log(x), log(j), "log"); break;
    case 4: vc_assume(a > -1); is(log1p(x), log1p(j), "log1p"); break;
    case 5: vc_assume(a > 0); is(sqrt(x), sqrt(j), "sqrt"); break;
    case 6: vc_nonzero(a); is(cbrt(x), cbrt(j), "cbrt"); break;
    case 7: is(sin(x), sin(j), "sin"); break;
    case 8: is(cos(x), cos(j), "cos"); break;
    case 9: is(tan(x), tan(j), "tan"); break;
    case 10: is(atan(x), atan(j), "atan"); break;
    case 11: vc_assume(a > -1 && a < 1); is(asin(x), asin(j), "asin"); break;
    case 12: vc_assume(a > -1 && a < 1); is(acos(x), acos(j), "acos"); break;
    case 13: is(sinh(x), sinh(j), "sinh"); break;
    case 14: is(cosh(x), cosh(j), "cosh"); break;
    case 15: is(tanh(x), tanh(j), "tanh"); break;
    case 16: is(sq(x), sq(j), "sq"); break;
    case 17: is(cube(x), cube(j), "cube"); break;
    case 18: vc_nonzero(a); is(abs(x), a > 0 ? j : -j, "abs"); is(sign(x), con(j, a > 0 ? 1 : -1), "sign"); break;
    case 19: is(make_ADVal(x), j, "make_ADVal"); is(make_shell(x), j, "make_shell"); break;
    case 20: { double c = vc_real("c", -2, 2); is(x + c, j + c, "value + number"); is(c + x, c + j, "number + value"); break; }
    case 21: { double c = vc_real("c", -2, 2); is(x - c, j - c, "value - number"); is(c - x, c - j, "number - value"); break; }
    case 22: { double c = vc_real("c", -2, 2); is(x * c, j * c, "value * number"); is(c * x, c * j, "number * value"); break; }
    case 23: { double c = vc_real("c", -2, 2); vc_nonzero(c); is(x / c, j / c, "value / number"); break; }
    default: { double c = vc_real("c", -2, 2); vc_nonzero(a); is(c / x, c / j, "number / value"); break; }
    }
    vc_cover("unary");
}
// powers with constant exponents
template <class X> static void power(X x, const Jet& j) {
    double a = j.v;
    switch ((int)vc_choose("exponent", 0, 4)) {
    case 0: { vc_assume(a > 0); double q = vc_real("q", -3, 3); vc_nonzero(q); is(pow(x, q), pow(j, q), "pow(value, real)"); break; }
    case 1: is(pow(x, 0.0), con(j, 1), "pow(value, 0.0)"); is(pow(x, 0L), con(j, 1), "pow(value, 0)"); is(pow(x, Param<typename X::Storage>(0)), con(j, 1), "pow(value, parameter 0)"); break;
    case 2: { vc_bounded("integer exponents up to 5"); long q = vc_choose("q", 1, 5); is(pow(x, q), pow(j, q), "pow(value, long)"); is(pow(x, (int)q), pow(j, q), "pow(value, int)"); break; }
    case 3: { vc_bounded("integer exponents down to -4"); long q = vc_choose("q", -4, -1); vc_nonzero(a); is(pow(x, q), pow(j, q), "pow(value, long)"); break; }
    default: { vc_bounded("integer exponents up to 4"); long q = vc_choose("q", 1, 4); vc_nonzero(a); is(pow(x, (double)q), pow(j, q), "pow(value, integer as real)"); }
    }
    vc_cover("power");
}

// hypot of 0..4 operands of the same type, possibly constants among them
template <class S, bool D, bool DD> static void lengths(int m) {
    std::vector<ADVal<ADState<true, D, DD>, S>> x; std::vector<Jet> j; Jet s(Lay<S>::n);
    for (int i = 0; i < m; ++i) { Jet t(Lay<S>::n); auto v = value<S, D, DD>(t); if (vc_choose("constant", 0, 1)) { t = con(t, t.v); v = ADVal<ADState<true, D, DD>, S>(0, t.v, typename S::GradientType(), typename S::HessianType()); } x.push_back(v); j.push_back(t); s = s + sq(t); }
    if (m == 0) { auto r = hypot(x.data(), 0); is(r, Jet(Lay<S>::n), "hypot of nothing"); vc_cover("hypot"); return; }
    if (m == 1) { vc_nonzero(j[0].v); is(hypot(x.data(), 1), j[0].v > 0 ? j[0] : -j[0], "hypot of one"); vc_cover("hypot"); return; }
    vc_assume(s.v > 0); is(hypot(x.data(), m), sqrt(s), "hypot"); if (m == 2) is(hypot({x[0], x[1]}), sqrt(s), "hypot of a list"); vc_cover("hypot");
}
template <class S> static void vars_length(int m) { std::vector<Var<S>> x; Jet s(Lay<S>::n); for (int i = 0; i < m; ++i) { Jet t(Lay<S>::n); t.v = vc_real("v", -2, 2); int k = i % Lay<S>::n; t.g[k] = 1; x.push_back(Var<S>(k, t.v, level)); s = s + sq(t); } vc_assume(s.v > 0); is(hypot(x.data(), m), sqrt(s), "hypot of variables"); vc_cover("hypot"); }
template <class S> static void assign() { using T = ADVal<ADState<true, true, true>, S>; const int n = Lay<S>::n; Jet a(n), b(n); T x = value<S, true, true>(a), y = value<S, true, true>(b);
    switch ((int)vc_choose("operation", 0, 5)) {
    case 0: is(x += y, a + b, "+="); break; case 1: is(x -= y, a - b, "-="); break; case 2: is(x *= y, a * b, "*="); break; case 3: vc_nonzero(b.v); is(x /= y, a / b, "/="); break;
    case 4: { typename S::GradientType g; typename S::HessianType h; Jet c(n); c.v = vc_real("v", -2, 2); for (int p = 0; p < n; ++p) { g[p] = c.g[p] = vc_real("d", -2, 2); for (int q = p; q < n; ++q) c.H(q, p) = c.H(p, q) = Lay<S>::ref(h, p, q) = vc_real("dd", -2, 2); } x.Init(level, c.v, g, h); is(x, c, "Init"); T z(level, c.v, g, h); is(z, c, "constructor"); vc_check(z.m_dif == level, "declared order"); break; }
    default: { x = T(a.v); is(x, con(a, a.v), "a number"); Var<S> v; int k = (int)vc_choose("variable", 0, n - 1); v.Init(k, a.v, level); Jet c(n, a.v); c.g[k] = 1; is(v, c, "variable"); Param<S> p; p.Init(a.v); is(p, con(a, a.v), "parameter"); }
    }
    vc_cover("assign"); }
