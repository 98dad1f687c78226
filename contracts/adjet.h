// The oracle of C13 and C15: a value with its first and second derivatives in n variables, composed by the rules of calculus.
#pragma once
#include "common.h"
#include <cmath>
#include <vector>
#include <string>
struct Jet {
    int n; double v; std::vector<double> g, h;
    explicit Jet(int n_ = 0, double v_ = 0) : n(n_), v(v_), g(n_, 0.0), h(n_ * n_, 0.0) {}
    double& H(int i, int j) { return h[i * n + j]; }
    double H(int i, int j) const { return h[i * n + j]; }
};
// F(a, b) with its partial derivatives at the point
static Jet chain2(const Jet& a, const Jet& b, double F, double Fa, double Fb, double Faa, double Fab, double Fbb) {
    Jet r(a.n, F);
    for (int i = 0; i < a.n; ++i) { r.g[i] = Fa * a.g[i] + Fb * b.g[i];
        for (int j = 0; j < a.n; ++j) r.H(i, j) = Fa * a.H(i, j) + Fb * b.H(i, j) + Faa * a.g[i] * a.g[j] + Fab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]) + Fbb * b.g[i] * b.g[j]; }
    return r;
}
static Jet chain(const Jet& a, double f, double f1, double f2) { return chain2(a, Jet(a.n), f, f1, 0, f2, 0, 0); }
static Jet operator+(const Jet& a, const Jet& b) { return chain2(a, b, a.v + b.v, 1, 1, 0, 0, 0); }
static Jet operator-(const Jet& a, const Jet& b) { return chain2(a, b, a.v - b.v, 1, -1, 0, 0, 0); }
static Jet operator-(const Jet& a) { return chain(a, -a.v, -1, 0); }
static Jet operator*(const Jet& a, const Jet& b) { return chain2(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); }
static Jet operator/(const Jet& a, const Jet& b) { double i = 1 / b.v; return chain2(a, b, a.v * i, i, -a.v * i * i, 0, -i * i, 2 * a.v * i * i * i); }
static Jet con(const Jet& a, double c) { return Jet(a.n, c); }
static Jet operator+(const Jet& a, double c) { return a + con(a, c); }
static Jet operator+(double c, const Jet& a) { return a + con(a, c); }
static Jet operator-(const Jet& a, double c) { return a - con(a, c); }
static Jet operator-(double c, const Jet& a) { return con(a, c) - a; }
static Jet operator*(const Jet& a, double c) { return a * con(a, c); }
static Jet operator*(double c, const Jet& a) { return a * con(a, c); }
static Jet operator/(const Jet& a, double c) { return a / con(a, c); }
static Jet operator/(double c, const Jet& a) { return con(a, c) / a; }
static Jet exp(const Jet& a) { double e = std::exp(a.v); return chain(a, e, e, e); }
static Jet expm1(const Jet& a) { double e = std::expm1(a.v); return chain(a, e, e + 1, e + 1); }
static Jet log(const Jet& a) { return chain(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static Jet log1p(const Jet& a) { double b = 1 + a.v; return chain(a, std::log1p(a.v), 1 / b, -1 / (b * b)); }
static Jet sqrt(const Jet& a) { double s = std::sqrt(a.v); return chain(a, s, 1 / (2 * s), -1 / (4 * s * s * s)); }
static Jet cbrt(const Jet& a) { double s = std::cbrt(a.v); return chain(a, s, 1 / (3 * s * s), -2 / (9 * s * s * s * s * s)); }
static Jet sin(const Jet& a) { double s = std::sin(a.v), c = std::cos(a.v); return chain(a, s, c, -s); }
static Jet cos(const Jet& a) { double s = std::sin(a.v), c = std::cos(a.v); return chain(a, c, -s, -c); }
static Jet tan(const Jet& a) { double t = std::tan(a.v), c = std::cos(a.v), i = 1 / (c * c); return chain(a, t, i, 2 * t * i); }
static Jet atan(const Jet& a) { double d = 1 / (1 + a.v * a.v); return chain(a, std::atan(a.v), d, -2 * a.v * d * d); }
static Jet asin(const Jet& a) { double r = std::sqrt(1 - a.v * a.v); return chain(a, std::asin(a.v), 1 / r, a.v / (r * r * r)); }
static Jet acos(const Jet& a) { double r = std::sqrt(1 - a.v * a.v); return chain(a, std::acos(a.v), -1 / r, -a.v / (r * r * r)); }
static Jet sinh(const Jet& a) { double s = std::sinh(a.v), c = std::cosh(a.v); return chain(a, s, c, s); }
static Jet cosh(const Jet& a) { double s = std::sinh(a.v), c = std::cosh(a.v); return chain(a, c, s, c); }
static Jet tanh(const Jet& a) { double t = std::tanh(a.v), c = std::cosh(a.v), i = 1 / (c * c); return chain(a, t, i, -2 * t * i); }
static double ipow(double x, long q) { double r = 1; for (long i = 0; i < (q < 0 ? -q : q); ++i) r *= x; return q < 0 ? 1 / r : r; }
static Jet pow(const Jet& a, long q) { return chain(a, ipow(a.v, q), q == 0 ? 0 : q * ipow(a.v, q - 1), q == 0 || q == 1 ? 0 : q * (q - 1) * ipow(a.v, q - 2)); }
static Jet pow(const Jet& a, int q) { return pow(a, (long)q); }
static Jet sq(const Jet& a) { return chain(a, a.v * a.v, 2 * a.v, 2); }
static Jet cube(const Jet& a) { return chain(a, a.v * a.v * a.v, 3 * a.v * a.v, 6 * a.v); }
static Jet pow(const Jet& a, double q) { double p = std::pow(a.v, q); return chain(a, p, q * p / a.v, q * (q - 1) * p / (a.v * a.v)); }   // a > 0
static Jet pow(const Jet& a, const Jet& b) { double p = std::pow(a.v, b.v), l = std::log(a.v); return chain2(a, b, p, b.v * p / a.v, p * l, b.v * (b.v - 1) * p / (a.v * a.v), p * (1 + b.v * l) / a.v, p * l * l); }   // a > 0
static Jet pow(double a, const Jet& b) { double p = std::pow(a, b.v), l = std::log(a); return chain(b, p, p * l, p * l * l); }
static Jet atan2(const Jet& y, const Jet& x) { double r = 1 / (x.v * x.v + y.v * y.v); return chain2(y, x, std::atan2(y.v, x.v), x.v * r, -y.v * r, -2 * x.v * y.v * r * r, (y.v * y.v - x.v * x.v) * r * r, 2 * x.v * y.v * r * r); }
