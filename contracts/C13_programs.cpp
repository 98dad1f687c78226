// VCFLAGS: timeout=200
// C13, whole expressions: the same program run on variables of the library and on the oracle, at every point of its domain.
#include "adops.h"
#define PROGRAM(NAME, DOM, EXPR) struct NAME { static const char* text() { return #EXPR; } static bool domain(double x, double y, double z, double a) { (void)x; (void)y; (void)z; (void)a; return DOM; } template <class X, class Y, class Z> static auto eval(X x, Y y, Z z, double a) { (void)x; (void)y; (void)z; (void)a; return EXPR; } };
PROGRAM(P0, true, 1 / (x * x + 1) - y / 3 + 2 * z)
PROGRAM(P1, (x != 0), a / x)
PROGRAM(P2, (x != 0) && (y != 0), 3 / x / y - (1 - x) / (y * y))
PROGRAM(P3, (x > 0), log(x) * exp(-y * z) - sqrt(x * x + a * a + 1))
PROGRAM(P4, true, sin(x * y) * cos(z) - tan(x / 2) * a)
PROGRAM(P5, (vc_nonzero(y), x > 0), pow(x, 2.5) + pow(x, y) * z)
PROGRAM(P6, (x != 0) && (x + a != 0), pow(x, 3) / x - pow(x + a, -2) * cube(y) + sq(z - 1))
PROGRAM(P7, (x * x + y * y > 0), atan2(y, x) + atan(x - y) * a)
PROGRAM(P8, true, (a - x) * (y - a) + (-x) * (a + y) - (z * a) / 4 + pow(2.0, z))
PROGRAM(P9, true, (x + y + z) / 3 * ((x - y) / (1 + z * z)))
PROGRAM(P10, true, exp(exp(x) / (1 + sq(y)) ) - cosh(x) / sinh(y * y + 1))
PROGRAM(P11, (z != 0), ((x / z) / (y * y + 1)) / (2 / z))
template <class S, class P> static void run() {
    level = (int)vc_choose("level", 0, 2); const int n = Lay<S>::n; double v[3]; const char* nm[] = {"x", "y", "z"}; Jet j[3]; Var<S> w[3];
    for (int i = 0; i < 3; ++i) { v[i] = vc_real(nm[i], -2, 2); int k = i % n; w[i] = Var<S>(k, v[i], level); j[i] = Jet(n, v[i]); j[i].g[k] = 1; }
    double a = vc_real("a", -2, 2); vc_assume(P::domain(v[0], v[1], v[2], a)); is(P::eval(w[0], w[1], w[2], a), P::eval(j[0], j[1], j[2], a), P::text()); vc_cover("expression");
    // one operand a parameter
    Param<S> p(v[1]); Jet jp(n, v[1]); is(P::eval(w[0], p, w[2], a), P::eval(j[0], jp, j[2], a), (std::string(P::text()) + " with a parameter y").c_str());
}
template <class S> static void any() {
    switch ((int)vc_choose("program", 0, 11)) { case 0: run<S, P0>(); break; case 1: run<S, P1>(); break; case 2: run<S, P2>(); break; case 3: run<S, P3>(); break; case 4: run<S, P4>(); break; case 5: run<S, P5>(); break; case 6: run<S, P6>(); break; case 7: run<S, P7>(); break; case 8: run<S, P8>(); break; case 9: run<S, P9>(); break; case 10: run<S, P10>(); break; default: run<S, P11>(); }
}
VC(three_variables) { any<Arr<3>>(); }
VC(one_variable) { any<Arr<1>>(); }
VC_NEG(wrong) { level = 2; Var<Arr<1>> x(0, vc_real("x", 1, 2), 2); Jet j(1, x()); j.g[0] = 1; is(x * x, j * j * 2, "wrong"); }
