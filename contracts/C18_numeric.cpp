// VCFLAGS: timeout=120 eigen=0
// C18: the numerical engine of expressions (NumericExpr behind Expr): every operation gives the value of its formula, element by element or
// by the rules of matrix algebra, for arbitrary values; arguments are left alone; results may overwrite arguments; what has no meaning is refused.
#include "common.h"
#include "anifem++/fem/numeric_expr.h"
using namespace Ani; typedef std::vector<double> D; typedef NumericExpr<> N; typedef std::size_t Z;
struct M { Z r, c; D v; double& operator()(Z i, Z j) { return v[i + r * j]; } double operator()(Z i, Z j) const { return v[i + r * j]; } };
static M any(Z r, Z c, double lo = -2, double hi = 2, bool in = false) { M m{r, c, D(r * c)}; for (auto& x : m.v) x = in ? vc_real_in("x", lo, hi) : vc_real("x", lo, hi); return m; }
static Expr ex(const M& m) { return Expr(std::make_shared<N>(const_cast<double*>(m.v.data()), m.r, m.c)); }
static double at(const Expr& e, Z i, Z j) { return (*e.target<N>())(i, j); }
static void same(const Expr& e, const M& m, const char* l) { int ok = e.nrows() == m.r && e.ncols() == m.c; vc_check(ok, "size of the result"); if (!ok) return; for (Z j = 0; j < m.c; ++j) for (Z i = 0; i < m.r; ++i) vc_eq(at(e, i, j), m(i, j), l); }
template<class F> static M map(const M& a, F f) { M r = a; for (auto& x : r.v) x = f(x); return r; }
template<class F> static M map(const M& a, const M& b, F f) { M r = a.v.size() == 1 ? b : a; for (Z k = 0; k < r.v.size(); ++k) r.v[k] = f(a.v[a.v.size() == 1 ? 0 : k], b.v[b.v.size() == 1 ? 0 : k]); return r; }
static M num(double x) { return M{1, 1, D(1, x)}; }
static M mul(const M& a, const M& b) { M r{a.r, b.c, D(a.r * b.c, 0.)}; for (Z i = 0; i < a.r; ++i) for (Z j = 0; j < b.c; ++j) for (Z k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j); return r; }
static M tr(const M& a) { M r{a.c, a.r, D(a.v.size())}; for (Z i = 0; i < a.r; ++i) for (Z j = 0; j < a.c; ++j) r(j, i) = a(i, j); return r; }
static M sub(const M& a, const std::vector<Z>& I, const std::vector<Z>& J) { M r{I.size(), J.size(), D(I.size() * J.size())}; for (Z j = 0; j < J.size(); ++j) for (Z i = 0; i < I.size(); ++i) r(i, j) = a(I[i], J[j]); return r; }
static M hcat(const std::vector<M>& a) { M r = a[0]; for (Z k = 1; k < a.size(); ++k) { r.c += a[k].c; r.v.insert(r.v.end(), a[k].v.begin(), a[k].v.end()); } return r; }
static M vcat(const std::vector<M>& a) { std::vector<M> t; for (auto& x : a) t.push_back(tr(x)); return tr(hcat(t)); }
template<class F> static bool refuses(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
static void shape(Z& r, Z& c) { static const Z S[6][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {2, 2}}; int s = (int)vc_choose("shape", 0, 5); r = S[s][0]; c = S[s][1]; }
// ------------------------------------------------------------------ functions of one argument
#define ONE(NAME, LO, HI, IN, SPEC) VC(one_##NAME) { Z r, c; shape(r, c); M a = any(r, c, LO, HI, IN); Expr e = ex(a); M w = map(a, [](double x) { return SPEC; }); Expr q = FT::NAME(e); same(q, w, #NAME " element by element"); same(e, a, "argument kept"); e.target()->set_##NAME(*e.target()); same(e, w, "over the argument"); vc_cover("evaluated"); }
ONE(abs, -2, 2, false, std::fabs(x)) ONE(exp, -2, 2, false, std::exp(x)) ONE(expm1, -2, 2, false, std::expm1(x)) ONE(log, 0.1, 5, true, std::log(x)) ONE(log1p, -0.9, 5, true, std::log1p(x)) ONE(sqrt, 0, 5, true, std::sqrt(x)) ONE(cbrt, -2, 2, false, std::cbrt(x))
ONE(sin, -4, 4, false, std::sin(x)) ONE(cos, -4, 4, false, std::cos(x)) ONE(tan, -1.5, 1.5, false, std::tan(x)) ONE(asin, -1, 1, true, std::asin(x)) ONE(acos, -1, 1, true, std::acos(x)) ONE(atan, -4, 4, false, std::atan(x)) ONE(sinh, -2, 2, false, std::sinh(x)) ONE(cosh, -2, 2, false, std::cosh(x)) ONE(tanh, -2, 2, false, std::tanh(x))
ONE(erf, -2, 2, false, std::erf(x)) ONE(erfc, -2, 2, false, std::erfc(x)) ONE(tgamma, 0.5, 4, true, std::tgamma(x)) ONE(lgamma, 0.5, 4, true, std::lgamma(x)) ONE(floor, -3, 3, false, std::floor(x)) ONE(ceil, -3, 3, false, std::ceil(x)) ONE(sign, -2, 2, false, x > 0 ? 1. : x < 0 ? -1. : 0.) ONE(sq, -2, 2, false, x * x)
VC(sign_zero) { Expr e = ex(M{1, 3, {0., -0.25, 0.25}}); same(FT::sign(e), M{1, 3, {0., -1., 1.}}, "sign"); }
VC(one_minus) { Z r, c; shape(r, c); M a = any(r, c); Expr e = ex(a); M w = map(a, [](double x) { return -x; }); same(-e, w, "minus"); same(e, a, "argument kept"); e.target()->set_swap_sign(*e.target()); same(e, w, "over the argument"); vc_cover("evaluated"); }
VC(one_not) { Z r, c; shape(r, c); M a{r, c, D(r * c)}; for (auto& x : a.v) x = (double)vc_choose("truth", 0, 1); Expr e = ex(a); same(!e, map(a, [](double x) { return 1 - x; }), "not"); vc_cover("evaluated"); }
// ------------------------------------------------------------------ functions of two arguments
template<class OP, class SET, class F> static void two(double lo1, double hi1, double lo2, double hi2, bool in, OP op, SET set, F f) {
    Z r, c; shape(r, c); int k = (int)vc_choose("kind of arguments", 0, 4); M a = any(k == 1 ? 1 : r, k == 1 ? 1 : c, lo1, hi1, in), b = any(k == 2 ? 1 : r, k == 2 ? 1 : c, lo2, hi2, in); double s = in ? vc_real_in("s", std::max(lo1, lo2), std::min(hi1, hi2)) : vc_real("s", -2, 2);
    Expr x = ex(a), y = ex(b);
    if (k <= 2) { M w = map(a, b, f); same(op(x, y), w, "value"); same(x, a, "argument kept"); same(y, b, "argument kept"); { Expr t = x; set(*t.target(), *t.target(), *y.target()); same(t, w, "over the first argument"); } { Expr t = y; set(*t.target(), *x.target(), *t.target()); same(t, w, "over the second argument"); } { Expr t = x; set(*t.target(), *t.target(), *t.target()); same(t, map(a, a, f), "over both arguments"); } }
    vc_cover("evaluated"); (void)s;
}
template<class OP1, class OP2, class F> static void twonum(double lo1, double hi1, double lo2, double hi2, bool in, OP1 op1, OP2 op2, F f) { // a number on one side
    Z r, c; shape(r, c); M a = any(r, c, lo1, hi1, in), b = any(r, c, lo2, hi2, in); double s1 = in ? vc_real_in("s", lo1, hi1) : vc_real("s", lo1, hi1), s2 = in ? vc_real_in("s", lo2, hi2) : vc_real("s", lo2, hi2); Expr x = ex(a), y = ex(b);
    same(op1(x, s2), map(a, num(s2), f), "number on the right"); same(op2(s1, y), map(num(s1), b, f), "number on the left"); same(x, a, "argument kept"); same(y, b, "argument kept"); vc_cover("evaluated");
}
#define TWO(NAME, CALL, SET, LO1, HI1, LO2, HI2, IN, SPEC) static double f_##NAME(double x, double y) { return SPEC; } \
VC(two_##NAME) { two(LO1, HI1, LO2, HI2, IN, [](const Expr& x, const Expr& y) { return CALL; }, [](BaseExpr& r, const BaseExpr& x, const BaseExpr& y) { r.SET(x, y); }, f_##NAME); } \
VC(number_##NAME) { twonum(LO1, HI1, LO2, HI2, IN, [](const Expr& x, double y) { return CALL; }, [](double x, const Expr& y) { return CALL; }, f_##NAME); }
TWO(plus, x + y, set_sum, -2, 2, -2, 2, false, x + y) TWO(minus, x - y, set_sub, -2, 2, -2, 2, false, x - y) TWO(times, x * y, set_mul, -2, 2, -2, 2, false, x * y) TWO(over, x / y, set_div, -2, 2, 0.1, 2, true, x / y)
TWO(pow, FT::pow(x, y), set_pow, 0.2, 3, -2, 2, true, std::pow(x, y)) TWO(atan2, FT::atan2(x, y), set_atan2, -2, 2, 0.1, 2, true, std::atan2(x, y)) TWO(hypot, FT::hypot(x, y), set_hypot, -2, 2, -2, 2, false, std::hypot(x, y)) TWO(fmod, FT::fmod(x, y), set_fmod, -5, 5, 0.5, 2, true, std::fmod(x, y))
// order and logic: the outcome decides the path, so small expressions
template<class OP, class SET, class F> static void small(OP op, SET set, F f) {
    M a = any(1, 2), b = any(1, 2); int k = (int)vc_choose("equal", 0, 1); if (k) b.v[0] = a.v[0]; Expr x = ex(a), y = ex(b); M w = map(a, b, f); same(op(x, y), w, "value"); same(x, a, "argument kept"); same(y, b, "argument kept"); { Expr t = x; set(*t.target(), *t.target(), *y.target()); same(t, w, "over the first argument"); } vc_cover("evaluated");
}
template<class OP1, class OP2, class F> static void smallnum(OP1 op1, OP2 op2, F f) { M a = any(2, 1); double s = vc_real("s", -2, 2); Expr x = ex(a); same(op1(x, s), map(a, num(s), f), "number on the right"); same(op2(s, x), map(num(s), a, f), "number on the left"); vc_cover("evaluated"); }
#define CMP(NAME, CALL, SET, SPEC) static double f_##NAME(double x, double y) { return SPEC; } VC(order_##NAME) { small([](const Expr& x, const Expr& y) { return CALL; }, [](BaseExpr& r, const BaseExpr& x, const BaseExpr& y) { r.SET(x, y); }, f_##NAME); } VC(ordernum_##NAME) { smallnum([](const Expr& x, double y) { return CALL; }, [](double x, const Expr& y) { return CALL; }, f_##NAME); }
CMP(lt, x < y, set_lt, x < y ? 1. : 0.) CMP(le, x <= y, set_le, x <= y ? 1. : 0.) CMP(gt, x > y, set_gt, x > y ? 1. : 0.) CMP(ge, x >= y, set_ge, x >= y ? 1. : 0.) CMP(eq, x == y, set_eq, x == y ? 1. : 0.) CMP(ne, x != y, set_ne, x != y ? 1. : 0.) CMP(min, FT::min(x, y), set_min, x < y ? x : y) CMP(max, FT::max(x, y), set_max, x > y ? x : y)
VC(logic) { M a{2, 2, D(4)}, b = a; for (auto& x : a.v) x = (double)vc_choose("truth", 0, 1); for (auto& x : b.v) x = (double)vc_choose("truth", 0, 1); Expr x = ex(a), y = ex(b); same(x && y, map(a, b, [](double p, double q) { return p * q; }), "and"); same(x || y, map(a, b, [](double p, double q) { return p + q - p * q; }), "or"); same(x && 1., a, "and"); same(0. || y, b, "or"); same(x && 0., map(a, [](double) { return 0.; }), "and"); same(1. || y, map(b, [](double) { return 1.; }), "or"); same((x == y) && !(x != y), map(a, b, [](double p, double q) { return p == q ? 1. : 0.; }), "equality and its negation"); vc_cover("evaluated"); }
// ------------------------------------------------------------------ three arguments
VC(three_fma) {
    Z r, c; shape(r, c); M a = any(r, c), b = any(r, c), d = any(r, c); double s = vc_real("s", -2, 2), t = vc_real("t", -2, 2); Expr x = ex(a), y = ex(b), z = ex(d); auto f = [](const M& a, const M& b, const M& d) { return map(map(a, b, [](double p, double q) { return p * q; }), d, [](double p, double q) { return p + q; }); };
    same(FT::fma(x, y, z), f(a, b, d), "a*b+c"); same(FT::fma(s, y, z), f(num(s), b, d), "a*b+c"); same(FT::fma(x, s, z), f(a, num(s), d), "a*b+c"); same(FT::fma(x, y, s), f(a, b, num(s)), "a*b+c"); same(FT::fma(s, t, z), f(num(s), num(t), d), "a*b+c"); same(FT::fma(x, s, t), f(a, num(s), num(t)), "a*b+c"); same(FT::fma(s, y, t), f(num(s), b, num(t)), "a*b+c");
    Expr p = ex(num(s)); same(FT::fma(p, y, z), f(num(s), b, d), "a*b+c"); same(FT::fma(x, p, z), f(a, num(s), d), "a*b+c"); same(FT::fma(x, y, p), f(a, b, num(s)), "a*b+c"); same(x, a, "argument kept"); same(y, b, "argument kept"); same(z, d, "argument kept"); x.target()->set_fma(*x.target(), *y.target(), *x.target()); same(x, f(a, b, a), "over the arguments"); vc_cover("evaluated");
}
VC(three_ifelse) {
    M k{2, 2, D(4)}, a = any(2, 2), b = any(2, 2); for (auto& x : k.v) x = (double)vc_choose("truth", 0, 1); double s = vc_real("s", -2, 2), t = vc_real("t", -2, 2); Expr q = ex(k), x = ex(a), y = ex(b); auto f = [&](const M& a, const M& b) { M r = k; for (Z i = 0; i < 4; ++i) r.v[i] = k.v[i] != 0 ? a.v[a.v.size() == 1 ? 0 : i] : b.v[b.v.size() == 1 ? 0 : i]; return r; };
    same(FT::ifelse(q, x, y), f(a, b), "choice"); same(FT::ifelse(q, s, y), f(num(s), b), "choice"); same(FT::ifelse(q, x, s), f(a, num(s)), "choice"); same(FT::ifelse(q, s, t), f(num(s), num(t)), "choice"); same(FT::ifelse(1., x, y), a, "choice"); same(FT::ifelse(0., x, y), b, "choice"); same(q, k, "argument kept"); y.target()->set_ifelse(*q.target(), *x.target(), *y.target()); same(y, f(a, b), "over the argument"); vc_cover("evaluated");
}
// ------------------------------------------------------------------ many arguments
VC(gather_sums) {
    Z r, c; shape(r, c); int n = (int)vc_choose("terms", 1, 4), over = (int)vc_choose("result over term", -1, 3); if (over >= n) return; std::vector<M> a; std::vector<Expr> e; std::vector<const BaseExpr*> p; double k[4]; for (int i = 0; i < n; ++i) { a.push_back(any(r, c)); e.push_back(ex(a[i])); k[i] = vc_real("k", -2, 2); } for (auto& x : e) p.push_back(x.target());
    M s{r, c, D(r * c, 0.)}, w = s, q{r, c, D(r * c, 1.)}; for (int i = 0; i < n; ++i) for (Z j = 0; j < r * c; ++j) { s.v[j] += a[i].v[j]; w.v[j] += k[i] * a[i].v[j]; q.v[j] *= a[i].v[j]; }
    if (over < 0) { same(FT::scalsum(e.data(), e.data() + n, k), w, "weighted sum"); Expr t = e[0].zeroes(); t.target()->set_sum(p.data(), p.data() + n); same(t, s, "sum"); t.target()->set_mul(p.data(), p.data() + n); same(t, q, "product"); t.target()->set_scal_sum(p.data(), p.data() + n, k); same(t, w, "weighted sum"); for (int i = 0; i < n; ++i) same(e[i], a[i], "argument kept"); }
    else { int what = (int)vc_choose("operation", 0, 2); BaseExpr& t = *e[over].target(); if (what == 0) t.set_sum(p.data(), p.data() + n); else if (what == 1) t.set_mul(p.data(), p.data() + n); else t.set_scal_sum(p.data(), p.data() + n, k); same(e[over], what == 0 ? s : what == 1 ? q : w, "over a term"); for (int i = 0; i < n; ++i) if (i != over) same(e[i], a[i], "other terms kept"); } vc_cover("evaluated");
}
VC(gather_extrema) {
    int n = (int)vc_choose("terms", 1, 3), over = (int)vc_choose("result over term", -1, 2); if (over >= n) return; std::vector<M> a; std::vector<Expr> e; std::vector<const BaseExpr*> p; for (int i = 0; i < n; ++i) { a.push_back(any(2, 1)); e.push_back(ex(a[i])); } for (auto& x : e) p.push_back(x.target());
    M lo = a[0], hi = a[0]; for (int i = 1; i < n; ++i) for (Z j = 0; j < 2; ++j) { if (a[i].v[j] < lo.v[j]) lo.v[j] = a[i].v[j]; if (a[i].v[j] > hi.v[j]) hi.v[j] = a[i].v[j]; }
    if (over < 0) { same(FT::min(e.data(), e.data() + n), lo, "least"); same(FT::max(e.data(), e.data() + n), hi, "greatest"); for (int i = 0; i < n; ++i) same(e[i], a[i], "argument kept"); } else { int what = (int)vc_choose("operation", 0, 1); BaseExpr& t = *e[over].target(); if (what) t.set_max(p.data(), p.data() + n); else t.set_min(p.data(), p.data() + n); same(e[over], what ? hi : lo, "over a term"); } vc_cover("evaluated");
}
VC(gather_cat) {
    int n = (int)vc_choose("parts", 1, 3), over = (int)vc_choose("result over part", -1, 2), k = (int)vc_choose("common size", 1, 3); if (over >= n) return; std::vector<M> h, v; std::vector<Expr> eh, ev; std::vector<const BaseExpr*> ph, pv; static const Z S[3] = {2, 1, 3}; for (int i = 0; i < n; ++i) { h.push_back(any(k, S[i])); v.push_back(any(S[i], k)); eh.push_back(ex(h[i])); ev.push_back(ex(v[i])); } for (auto& x : eh) ph.push_back(x.target()); for (auto& x : ev) pv.push_back(x.target());
    if (over < 0) { same(FT::horzcat(eh.data(), eh.data() + n), hcat(h), "side by side"); same(FT::vertcat(ev.data(), ev.data() + n), vcat(v), "one above another"); if (n == 3) { same(FT::horzcat({eh[0], eh[1], eh[2]}), hcat(h), "side by side"); same(FT::vertcat({ev[0], ev[1], ev[2]}), vcat(v), "one above another"); } for (int i = 0; i < n; ++i) { same(eh[i], h[i], "argument kept"); same(ev[i], v[i], "argument kept"); } }
    else { eh[over].target()->set_horzcat(ph.data(), ph.data() + n); same(eh[over], hcat(h), "over a part"); ev[over].target()->set_vertcat(pv.data(), pv.data() + n); same(ev[over], vcat(v), "over a part"); } vc_cover("evaluated");
}
VC(gather_products) {
    static const Z S[4][5] = {{2, 3, 1, 2, 3}, {1, 2, 2, 3, 1}, {3, 1, 3, 2, 2}, {2, 2, 2, 2, 2}}; int n = (int)vc_choose("factors", 1, 4), over = (int)vc_choose("result over factor", -1, 3), s = (int)vc_choose("sizes", 0, 3); if (over >= n) return; std::vector<M> a; std::vector<Expr> e; std::vector<const BaseExpr*> p; for (int i = 0; i < n; ++i) { a.push_back(any(S[s][i], S[s][i + 1])); e.push_back(ex(a[i])); } for (auto& x : e) p.push_back(x.target()); M w = a[0]; for (int i = 1; i < n; ++i) w = mul(w, a[i]);
    if (over < 0) { same(FT::mtimes(e.data(), e.data() + n), w, "matrix product"); if (n == 2) same(FT::mtimes(e[0], e[1]), w, "matrix product"); for (int i = 0; i < n; ++i) same(e[i], a[i], "argument kept"); Expr t = ex(any(3, 3)); t.target()->set_mtimes(p.data(), p.data() + n); same(t, w, "matrix product over another value"); } else { e[over].target()->set_mtimes(p.data(), p.data() + n); same(e[over], w, "over a factor"); for (int i = 0; i < n; ++i) if (i != over) same(e[i], a[i], "other factors kept"); } vc_cover("evaluated");
}
VC(power_of_matrix) { M a = any(2, 2); Expr e = ex(a); const BaseExpr* p[3] = {e.target(), e.target(), e.target()}; e.target()->set_mtimes(p, p + 3); same(e, mul(mul(a, a), a), "the same factor three times"); vc_cover("evaluated"); }
// ------------------------------------------------------------------ parts of matrices and vector operations
VC(parts) {
    Z r, c; shape(r, c); M a = any(r, c); Expr e = ex(a); same(e.T(), tr(a), "transposed"); std::vector<Z> I, J; for (Z i = 0; i < r; ++i) I.push_back(i); for (Z j = 0; j < c; ++j) J.push_back(j);
    for (Z i = 0; i < r; ++i) same(e.row(i), sub(a, {i}, J), "row"); for (Z j = 0; j < c; ++j) same(e.col(j), sub(a, I, {j}), "column"); for (Z i = 0; i < r; ++i) for (Z j = 0; j < c; ++j) same(e(i, j), num(a(i, j)), "element"); same(e, a, "argument kept");
    { Expr t = e; t.target()->set_transpose(*t.target()); same(t, tr(a), "over the argument"); } { Expr t = e; t.target()->set_row(*t.target(), r - 1); same(t, sub(a, {r - 1}, J), "over the argument"); } { Expr t = e; t.target()->set_col(*t.target(), c - 1); same(t, sub(a, I, {c - 1}), "over the argument"); } { Expr t = e; t.target()->set_val(*t.target(), r - 1, c - 1); same(t, num(a(r - 1, c - 1)), "over the argument"); }
    { Expr t = ex(any(3, 3)); t.target()->BaseExpr::set_row(*e.target(), r - 1); same(t, sub(a, {r - 1}, J), "row by default rule"); } { Expr t = ex(any(3, 3)); t.target()->BaseExpr::set_col(*e.target(), c - 1); same(t, sub(a, I, {c - 1}), "column by default rule"); } { Expr t = ex(any(3, 3)); t.target()->BaseExpr::set_val(*e.target(), r - 1, c - 1); same(t, num(a(r - 1, c - 1)), "element by default rule"); }
    int f = 0; try { e(r, 0); } catch (const std::runtime_error&) { ++f; } try { e(0, c); } catch (const std::runtime_error&) { ++f; } vc_check(f == 2, "an element outside is refused");
    Expr t = e; t.reshape(c, r); same(t, M{c, r, a.v}, "the same elements in another shape"); vc_check(refuses([&] { t.reshape(r + 1, c); }), "another number of elements is refused"); vc_cover("evaluated");
}
VC(lists) {
    M a = any(3, 3); Expr e = ex(a); Z ni = vc_choose("rows", 1, 3), nj = vc_choose("columns", 1, 2); std::vector<Z> I, J; for (Z i = 0; i < ni; ++i) I.push_back(vc_choose("row", 0, 2)); for (Z j = 0; j < nj; ++j) J.push_back(vc_choose("column", 0, 2)); M w = sub(a, I, J);
    same(FT::submatrix(e, I.data(), ni, J.data(), nj), w, "chosen rows and columns"); same(e, a, "argument kept"); e.target()->set_sub_matrix(*e.target(), I.data(), ni, J.data(), nj); same(e, w, "over the argument"); vc_cover("evaluated");
}
VC(lists_init) { M a = any(2, 3); Expr e = ex(a); same(FT::submatrix(e, {1, 0}, {2, 0, 0}), sub(a, {1, 0}, {2, 0, 0}), "chosen rows and columns"); vc_cover("evaluated"); }
VC(steps) {
    M a = any(4, 3); Expr e = ex(a); Z i0 = vc_choose("first row", 0, 3), j0 = vc_choose("first column", 0, 2); long si = vc_choose("row step", -3, 4), sj = vc_choose("column step", -2, 3); std::vector<Z> I, J; if (!si) I.push_back(i0); else for (long i = i0; i >= 0 && i < 4; i += si) I.push_back(i); if (!sj) J.push_back(j0); else for (long j = j0; j >= 0 && j < 3; j += sj) J.push_back(j); M w = sub(a, I, J);
    same(FT::submatrix(e, i0, si, j0, sj), w, "every s-th row and column"); e.target()->set_sub_matrix(*e.target(), i0, si, j0, sj); same(e, w, "over the argument"); vc_cover("evaluated");
}
VC(vectors) {
    Z r, c; shape(r, c); M a = any(r, c), b = any(r, c); Expr x = ex(a), y = ex(b); double d = 0, n = 0; for (Z i = 0; i < r * c; ++i) { d += a.v[i] * b.v[i]; n += a.v[i] * a.v[i]; } same(FT::dot(x, y), num(d), "scalar product"); Expr q = FT::norm(x); vc_check(q.nrows() == 1 && q.ncols() == 1, "size of the result"); vc_eq(at(q, 0, 0) * at(q, 0, 0), n, "norm squared"); vc_check(at(q, 0, 0) >= 0, "norm is not negative"); same(x, a, "argument kept");
    x.target()->set_dot(*x.target(), *y.target()); same(x, num(d), "over the argument"); M u = any(3, 1), v = any(3, 1), w{3, 1, {u.v[1] * v.v[2] - u.v[2] * v.v[1], u.v[2] * v.v[0] - u.v[0] * v.v[2], u.v[0] * v.v[1] - u.v[1] * v.v[0]}}; Expr p = ex(u), s = ex(v); same(FT::cross(p, s), w, "vector product"); { Expr t = p; t.target()->set_cross(*t.target(), *s.target()); same(t, w, "over the argument"); } { Expr t = s; t.target()->set_cross(*p.target(), *t.target()); same(t, w, "over the argument"); } vc_cover("evaluated");
}
VC(det) { M a = any(3, 3); same(FT::det3x3(ex(a)), num(a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))), "determinant"); vc_check(refuses([&] { FT::det3x3(ex(any(2, 3))); }), "refused for other sizes"); vc_cover("evaluated"); }
// ------------------------------------------------------------------ values and assignment
VC(values) {
    Z r, c; shape(r, c); M a = any(r, c), b = any(r, c); double s = vc_real("s", -2, 2); Expr e = N::CreateExpr(s, r, c); same(e, map(a, [&](double) { return s; }), "constant"); e = a.v.data(); same(e, a, "values column by column"); e = s; same(e, map(a, [&](double) { return s; }), "number assigned"); e = ex(a); Expr f = e; f = 1.; same(e, a, "a copy is independent"); f = e; f.target<N>()->m_v[0] += 1; same(e, a, "a copy is independent"); same(e.zeroes(r, c), M{r, c, D(r * c, 0.)}, "zeros"); same(e.zeroes(), num(0), "zero"); N k(b.v.data(), r, c); e = k; same(e, b, "expression object assigned"); Expr g(k); same(g, b, "expression object"); Expr h; vc_check(h.nrows() == 0 && h.ncols() == 0, "nothing yet"); h = k; same(h, b, "expression object assigned"); Expr z{N()}; same(z, num(0), "default value");
    Expr x = ex(a), y = ex(b); { Expr t = x; t += y; same(t, map(a, b, [](double p, double q) { return p + q; }), "+="); t -= y; same(t, a, "-="); t *= y; same(t, map(a, b, [](double p, double q) { return p * q; }), "*="); } same(x, a, "argument kept"); same(y, b, "argument kept"); Expr u; vc_check(refuses([&] { u = 1.; }) && refuses([&] { u = b.v.data(); }) && refuses([&] { u.zeroes(); }) && refuses([&] { u.reshape(1, 1); }), "an empty expression is refused"); vc_cover("evaluated");
}
VC(divide_assign) { M a = any(2, 2), b = any(2, 2, 0.2, 2, true); Expr t = ex(a); t /= ex(b); same(t, map(a, b, [](double p, double q) { return p / q; }), "/="); vc_cover("evaluated"); }
VC(formula) { // a formula built of many operations: value = formula of the values
    double x = vc_real("x", -2, 2), y = vc_real("y", -2, 2), z = vc_real("z", 0.2, 2); vc_assume(z > 0.1); Expr X = ex(num(x)), Y = ex(num(y)), Q = ex(num(z)); Expr R = (X * X + 2 * Y - FT::sin(X * Y) / Q) * FT::exp(-Y) + FT::sqrt(Q) * FT::pow(Q, X) - FT::fma(X, Y, 3.); same(R, num((x * x + 2 * y - std::sin(x * y) / z) * std::exp(-y) + std::sqrt(z) * std::pow(z, x) - (x * y + 3)), "composed formula"); vc_cover("evaluated");
}
// ------------------------------------------------------------------ what has no meaning is refused
VC(refused) {
    M a = any(2, 3), b = any(3, 2), d = any(2, 2); Expr x = ex(a), y = ex(b), z = ex(d); Expr l[2] = {x, y}; double k[2] = {1, 1}; int f = 0, n = 0; auto R = [&](bool r) { ++n; if (r) ++f; };
    R(refuses([&] { x + y; })); R(refuses([&] { x - z; })); R(refuses([&] { z * x; })); R(refuses([&] { x / y; })); R(refuses([&] { FT::pow(x, y); })); R(refuses([&] { FT::min(x, y); })); R(refuses([&] { FT::fma(x, x, y); })); R(refuses([&] { FT::fma(x, y, x); })); R(refuses([&] { FT::ifelse(y, x, x); })); R(refuses([&] { FT::dot(x, y); })); R(refuses([&] { FT::cross(x, y); })); R(refuses([&] { FT::cross(x.row(0), x.row(1)); })); R(refuses([&] { FT::mtimes(x, z); })); R(refuses([&] { FT::mtimes(y, y); })); R(refuses([&] { Expr t[3] = {x, y, y}; FT::mtimes(t, t + 3); })); R(refuses([&] { FT::horzcat({x, y}); })); R(refuses([&] { FT::vertcat({x, y}); })); R(refuses([&] { FT::scalsum(l, l + 2, k); })); R(refuses([&] { FT::min(l, l + 2); })); R(refuses([&] { FT::max(l, l + 2); }));
    R(refuses([&] { FT::horzcat(l, l); })); R(refuses([&] { FT::vertcat(l, l); })); R(refuses([&] { FT::mtimes(l, l); })); R(refuses([&] { FT::min(l, l); })); R(refuses([&] { FT::scalsum(l, l, k); })); Expr u[2]; u[0] = x; R(refuses([&] { FT::vertcat(u, u + 2); })); R(refuses([&] { FT::scalsum(u, u + 2, k); })); const BaseExpr* p[2] = {x.target(), y.target()}; Expr t = z; R(refuses([&] { t.target()->set_sum(p, p + 2); })); R(refuses([&] { t.target()->set_mul(p, p + 2); })); R(refuses([&] { t.target()->set_sum(p, p); })); R(refuses([&] { t.target()->set_mul(p, p); })); R(refuses([&] { t.target()->set_scal_sum(p, p, k); })); R(refuses([&] { t.target()->set_mtimes(p, p); })); vc_check(f == n, "every operation without a meaning is refused"); same(x, a, "argument kept"); same(y, b, "argument kept"); vc_cover("evaluated");
}
VC_NEG(wrong_product) { M a = any(2, 2), b = any(2, 2); same(FT::mtimes(ex(a), ex(b)), mul(b, a), "wrong"); }
VC_NEG(wrong_row) { M a = any(2, 2); same(ex(a).row(0), sub(a, {0, 1}, {0}), "wrong"); }
