// VCFLAGS: timeout=200
// C13, operations: for every kind of operand (parameter, variable, value with the derivatives its type declares) with arbitrary value, gradient and Hessian,
// every operation returns the value, gradient and Hessian of the composition by the rules of calculus, and its type declares what it returns.
// Together with closure under composition (results are operands of the same kind) this covers every expression.
#include "adops.h"
template <class S> static void binary_all(int lo) {
    level = (int)vc_choose("level", lo, 2); int a = (int)vc_choose("left", 0, 4), b = (int)vc_choose("right", 0, 4);
    with<S>(a, [&](auto x, const Jet& jx) { with<S>(b, [&](auto y, const Jet& jy) { binary(x, jx, y, jy); }); });
}
template <class S> static void unary_all(int lo) { level = (int)vc_choose("level", lo, 2); int a = (int)vc_choose("argument", 0, 4); with<S>(a, [&](auto x, const Jet& jx) { unary(x, jx); }); }
template <class S> static void power_all(int lo) { level = (int)vc_choose("level", lo, 2); int a = (int)vc_choose("argument", 0, 4); with<S>(a, [&](auto x, const Jet& jx) { power(x, jx); }); }
VC(binary_1) { binary_all<Arr<1>>(0); }
VC(binary_2) { binary_all<Arr<2>>(2); }
VC(unary_1) { unary_all<Arr<1>>(0); }
VC(unary_2) { unary_all<Arr<2>>(2); }
VC(power_1) { power_all<Arr<1>>(0); }
VC(power_2) { power_all<Arr<2>>(2); }
VC(hypot_1) { level = (int)vc_choose("level", 0, 2); int m = (int)vc_choose("operands", 0, 3), k = (int)vc_choose("kind", 0, 2); if (k == 0) lengths<Arr<1>, false, false>(m); else if (k == 1) lengths<Arr<1>, true, false>(m); else lengths<Arr<1>, true, true>(m); }
VC(hypot_2) { level = 2; int m = (int)vc_choose("operands", 2, 4); lengths<Arr<2>, true, true>(m); }
VC(hypot_variables) { level = (int)vc_choose("level", 0, 2); vars_length<Arr<3>>((int)vc_choose("operands", 2, 4)); }
VC(assignment_1) { level = (int)vc_choose("level", 0, 2); assign<Arr<1>>(); }
VC(assignment_3) { level = (int)vc_choose("level", 0, 2); assign<Arr<3>>(); }
VC_NEG(wrong) { level = 2; Jet a(1), b(1); auto x = value<Arr<1>, true, true>(a), y = value<Arr<1>, true, true>(b); is(x * y, a + b, "wrong"); }
