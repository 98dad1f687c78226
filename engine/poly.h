// Exact multivariate polynomials / rational functions over Q: canonical forms for the real-arithmetic obligations.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cmath>

namespace pl {
struct TooBig : std::runtime_error { using std::runtime_error::runtime_error; };

using Mono = std::basic_string<uint32_t>;   // sorted sequence of (var<<8 | exp)
struct MonoHash { size_t operator()(const Mono& m) const {
    uint64_t h = 1469598103934665603ull; for (uint32_t x : m) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
inline Mono mono_mul(const Mono& a, const Mono& b) {
    if (a.empty()) return b; if (b.empty()) return a;
    Mono r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        uint32_t va = a[i] >> 8, vb = b[j] >> 8;
        if (va < vb) r.push_back(a[i++]); else if (vb < va) r.push_back(b[j++]);
        else { uint32_t e = (a[i] & 255) + (b[j] & 255); if (e > 255) throw TooBig("exponent"); r.push_back((va << 8) | e); ++i; ++j; }
    }
    while (i < a.size()) r.push_back(a[i++]);
    while (j < b.size()) r.push_back(b[j++]);
    return r;
}
// a / b if divisible
inline bool mono_div(const Mono& a, const Mono& b, Mono& r) {
    r.clear(); size_t i = 0;
    for (size_t j = 0; j < b.size(); ++j) {
        while (i < a.size() && (a[i] >> 8) < (b[j] >> 8)) r.push_back(a[i++]);
        if (i == a.size() || (a[i] >> 8) != (b[j] >> 8)) return false;
        uint32_t ea = a[i] & 255, eb = b[j] & 255;
        if (ea < eb) return false;
        if (ea > eb) r.push_back((a[i] & ~255u) | (ea - eb));
        ++i;
    }
    while (i < a.size()) r.push_back(a[i++]);
    return true;
}
struct Poly {
    std::unordered_map<Mono, mpq_class, MonoHash> t;
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
    static Poly C(const mpq_class& c) { Poly p; if (c != 0) p.t[Mono()] = c; return p; }
    static Poly V(uint32_t v) { Poly p; p.t[Mono(1, (v << 8) | 1)] = 1; return p; }
    void addTerm(const Mono& m, const mpq_class& c) {
        auto it = t.find(m);
        if (it == t.end()) { if (c != 0) t.emplace(m, c); }
        else { it->second += c; if (it->second == 0) t.erase(it); }
    }
    void add(const Poly& o) { for (auto& k : o.t) addTerm(k.first, k.second); }
    void sub(const Poly& o) { for (auto& k : o.t) addTerm(k.first, -k.second); }
    Poly neg() const { Poly r; for (auto& k : t) r.t.emplace(k.first, -k.second); return r; }
    Poly scale(const mpq_class& c) const { Poly r; if (c == 0) return r; for (auto& k : t) r.t.emplace(k.first, k.second * c); return r; }
    bool operator==(const Poly& o) const { return t == o.t; }
    double maxCoef() const { double m = 0; for (auto& k : t) m = std::max(m, std::fabs(k.second.get_d())); return m; }
};
extern size_t g_term_budget;   // upper bound on the size of any intermediate polynomial
extern uint64_t g_ops, g_ops_limit;
inline Poly mul(const Poly& a, const Poly& b) {
    Poly r;
    if (a.zero() || b.zero()) return r;
    if (a.isConst()) return b.scale(a.constVal());
    if (b.isConst()) return a.scale(b.constVal());
    g_ops += (uint64_t)a.t.size() * b.t.size();
    if (g_ops > g_ops_limit) throw TooBig("operation budget");
    mpq_class c;
    for (auto& x : a.t) for (auto& y : b.t) {
        c = x.second * y.second;
        r.addTerm(mono_mul(x.first, y.first), c);
    }
    if (r.t.size() > g_term_budget) throw TooBig("term budget");
    return r;
}
} // namespace pl
