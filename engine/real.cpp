#include "real.h"
#include <cstring>
#include <sstream>
#include "vc_rand.h"
static inline long double ufval(const char* n, long double x, long double y) { return vc_ufval(n, (double)x, (double)y); }
size_t pl::g_term_budget = 400000;
uint64_t pl::g_ops = 0, pl::g_ops_limit = 4000000000ull;
namespace rl {
using pl::Poly; using pl::Mono;
const char* fnName(Fn f) { static const char* n[] = {"sqrt","cbrt","exp","log","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","expm1","log1p","pow","atan2","abs","uf"}; return n[(int)f]; }

mpq_class readLiteral(double d) {
    if (d == 0) return 0;
    // continued fraction: smallest denominator p/q <= 5040 whose nearest double is within 1 ulp of d
    double ad = std::fabs(d);
    if (ad < 1e6 && ad > 1e-6) {
        double x = ad; mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
        for (int it = 0; it < 24; ++it) {
            double fl = std::floor(x);
            if (fl > 1e9) break;
            mpz_class a = (long)fl, p2 = a * p1 + p0, q2 = a * q1 + q0;
            if (q2 > 5040) break;
            p0 = p1; q0 = q1; p1 = p2; q1 = q2;
            double v = p1.get_d() / q1.get_d();
            if (std::fabs(v - ad) <= (std::nextafter(ad, INFINITY) - ad) * 1.01) { mpq_class r(p1, q1); r.canonicalize(); return d < 0 ? mpq_class(-r) : r; }
            double fr = x - fl;
            if (fr < 1e-13) break;
            x = 1.0 / fr;
        }
    }
    return mpq_class(d);
}
NodeId Ctx::mk(Op op, Fn fn, uint32_t aux, NodeId a, NodeId b) {
    Key k{((uint64_t)op << 56) | ((uint64_t)fn << 48) | aux, ((uint64_t)a << 32) | b};
    auto it = cons.find(k);
    if (it != cons.end()) return it->second;
    nodes.push_back({op, fn, aux, a, b});
    NodeId id = nodes.size() - 1;
    cons.emplace(k, id);
    return id;
}
NodeId Ctx::constant(const mpq_class& q) {
    auto it = constIdx.find(q);
    uint32_t i;
    if (it == constIdx.end()) { i = consts.size(); consts.push_back(q); constIdx[q] = i; } else i = it->second;
    return mk(Op::Const, Fn::Sqrt, i, 0, 0);
}
NodeId Ctx::fromDouble(double d) { return constant(readLiteral(d)); }
NodeId Ctx::var(const std::string& name, double lo, double hi) {
    auto it = varIdx.find(name);
    if (it != varIdx.end()) return it->second;
    vars.push_back({name, lo, hi});
    NodeId n = mk(Op::Var, Fn::Sqrt, vars.size() - 1, 0, 0);
    varIdx[name] = n;
    return n;
}
NodeId Ctx::add(NodeId a, NodeId b) {
    mpq_class x, y; bool ca = isConst(a, &x), cb = isConst(b, &y);
    if (ca && cb) return constant(x + y);
    if (ca && x == 0) return b; if (cb && y == 0) return a;
    if (nodes[b].op == Op::Neg) return sub(a, nodes[b].a);
    if (a > b) std::swap(a, b);
    return mk(Op::Add, Fn::Sqrt, 0, a, b);
}
NodeId Ctx::sub(NodeId a, NodeId b) {
    mpq_class x, y; bool ca = isConst(a, &x), cb = isConst(b, &y);
    if (ca && cb) return constant(x - y);
    if (cb && y == 0) return a; if (ca && x == 0) return neg(b);
    if (a == b) return constant(0);
    if (nodes[b].op == Op::Neg) return add(a, nodes[b].a);
    return mk(Op::Sub, Fn::Sqrt, 0, a, b);
}
NodeId Ctx::neg(NodeId a) {
    mpq_class x; if (isConst(a, &x)) return constant(-x);
    if (nodes[a].op == Op::Neg) return nodes[a].a;
    return mk(Op::Neg, Fn::Sqrt, 0, a, 0);
}
NodeId Ctx::mul(NodeId a, NodeId b) {
    mpq_class x, y; bool ca = isConst(a, &x), cb = isConst(b, &y);
    if (ca && cb) return constant(x * y);
    if ((ca && x == 0) || (cb && y == 0)) return constant(0);
    if (ca && x == 1) return b; if (cb && y == 1) return a;
    if (ca && x == -1) return neg(b); if (cb && y == -1) return neg(a);
    if (a > b) std::swap(a, b);
    return mk(Op::Mul, Fn::Sqrt, 0, a, b);
}
NodeId Ctx::div(NodeId a, NodeId b) {
    mpq_class x, y; bool ca = isConst(a, &x), cb = isConst(b, &y);
    if (cb && y != 0) return ca ? constant(x / y) : mul(a, constant(1 / y));
    if (ca && x == 0) return a;
    return mk(Op::Div, Fn::Sqrt, 0, a, b);
}
NodeId Ctx::fn1(Fn f, NodeId a, uint32_t aux) { return mk(Op::Fn1, f, aux, a, 0); }
NodeId Ctx::fn2(Fn f, NodeId a, NodeId b, uint32_t aux) { return mk(Op::Fn2, f, aux, a, b); }

// ------------------------------------------------------------------ canonical forms
static bool isAlg(const Ctx::Atom& a) { return a.k == Ctx::Atom::Fun && (a.fn == Fn::Sqrt || a.fn == Fn::Cbrt || a.fn == Fn::Sin || a.fn == Fn::Sinh || a.fn == Fn::Abs); }
static Mono leadMono(const Poly& p) {
    const Mono* m = nullptr;
    for (auto& k : p.t) if (!m || *m < k.first) m = &k.first;
    return *m;
}
// ordering used for division must be multiplicative: graded by a fixed lex order on exponents. We use lex over variable ids (low id = most significant).
static int lexCmp(const Mono& a, const Mono& b) {
    size_t i = 0;
    for (;; ++i) {
        bool ea = i >= a.size(), eb = i >= b.size();
        if (ea && eb) return 0;
        if (ea) return -1; if (eb) return 1;
        uint32_t va = a[i] >> 8, vb = b[i] >> 8;
        if (va != vb) return va < vb ? 1 : -1;
        uint32_t xa = a[i] & 255, xb = b[i] & 255;
        if (xa != xb) return xa > xb ? 1 : -1;
    }
}
static const Mono& leadLex(const Poly& p) {
    const Mono* m = nullptr;
    for (auto& k : p.t) if (!m || lexCmp(*m, k.first) < 0) m = &k.first;
    return *m;
}
struct LexLess { bool operator()(const Mono& a, const Mono& b) const { return lexCmp(a, b) > 0; } };
static bool tryDiv(const Poly& p, const Poly& d, Poly& q) {
    if (p.zero()) { q = p; return true; }
    Mono lp = leadLex(p), ld = leadLex(d), m;
    if (!pl::mono_div(lp, ld, m)) return false;
    // trailing monomials must divide too
    {
        const Mono *tp = nullptr, *td = nullptr;
        for (auto& k : p.t) if (!tp || lexCmp(*tp, k.first) > 0) tp = &k.first;
        for (auto& k : d.t) if (!td || lexCmp(*td, k.first) > 0) td = &k.first;
        Mono x; if (!pl::mono_div(*tp, *td, x)) return false;
    }
    std::map<Mono, mpq_class, LexLess> rem;
    for (auto& k : p.t) rem.emplace(k.first, k.second);
    mpq_class lc = d.t.at(ld);
    q = Poly();
    while (!rem.empty()) {
        auto it = rem.begin();
        if (!pl::mono_div(it->first, ld, m)) return false;
        mpq_class c = it->second / lc;
        q.addTerm(m, c);
        pl::g_ops += d.t.size(); if (pl::g_ops > pl::g_ops_limit) throw pl::TooBig("operation budget");
        for (auto& k : d.t) {
            Mono mm = pl::mono_mul(m, k.first);
            auto f = rem.find(mm); mpq_class v = -c * k.second;
            if (f == rem.end()) rem.emplace(mm, v);
            else { f->second += v; if (f->second == 0) rem.erase(f); }
        }
    }
    return true;
}
mpq_class Ctx::leadCoef(const Poly& p) { return p.t.at(leadLex(p)); }
bool Ctx::divides(const Poly& p, const Poly& d, Poly& q) { return !d.isConst() && tryDiv(p, d, q); }
int Ctx::factorId(const Poly& p) {
    for (size_t i = 0; i < factors.size(); ++i) if (factors[i] == p) return i;
    factors.push_back(p);
    return factors.size() - 1;
}
pl::Poly Ctx::expandDen(const std::map<int, int>& d) {
    Poly r = Poly::C(1);
    for (auto& k : d) for (int i = 0; i < k.second; ++i) r = pl::mul(r, factors[k.first]);
    return r;
}
void Ctx::cancel(RatFun& r) {
    if (r.num.zero()) { r.den.clear(); return; }
    for (auto it = r.den.begin(); it != r.den.end();) {
        Poly q;
        while (it->second > 0 && tryDiv(r.num, factors[it->first], q)) { r.num = std::move(q); --it->second; }
        if (it->second == 0) it = r.den.erase(it); else ++it;
    }
}
void Ctx::pushDen(RatFun& r, Poly N, int e) {
    if (N.zero()) throw pl::TooBig("division by an expression that is identically zero");
    // split known factors
    for (size_t f = 0; f < factors.size() && !N.isConst(); ++f) {
        if (factors[f].t.size() == 1) continue;
        Poly q; while (!N.isConst() && tryDiv(N, factors[f], q)) { N = q; r.den[f] += e; }
    }
    if (!N.isConst()) {
        // pull out common monomial
        Mono g; bool first = true;
        for (auto& k : N.t) {
            if (first) { g = k.first; first = false; continue; }
            Mono h; size_t i = 0, j = 0;
            while (i < g.size() && j < k.first.size()) {
                uint32_t va = g[i] >> 8, vb = k.first[j] >> 8;
                if (va < vb) ++i; else if (vb < va) ++j;
                else { h.push_back((va << 8) | std::min(g[i] & 255, k.first[j] & 255)); ++i; ++j; }
            }
            g = h; if (g.empty()) break;
        }
        if (!g.empty()) {
            Poly M; for (auto& k : N.t) { Mono m; pl::mono_div(k.first, g, m); M.t.emplace(m, k.second); }
            N = std::move(M);
            for (uint32_t x : g) {
                uint32_t v = x >> 8; int ex = (x & 255) * e;
                if (atoms[v].k == Atom::Fun && atoms[v].fn == Fn::Sqrt) {   // 1/s = s/R
                    RatFun s; s.num = Poly::V(v);
                    RatFun R = atoms[v].a;
                    for (int i = 0; i < ex / 2; ++i) r = rdiv(r, R);
                    if (ex & 1) { r.num = pl::mul(r.num, s.num); r = rdiv(r, R); reduce(r); }
                } else r.den[factorId(Poly::V(v))] += ex;
            }
        }
    }
    if (N.isConst()) { mpq_class c = N.constVal(), p = 1; for (int i = 0; i < e; ++i) p *= c; r.num = r.num.scale(1 / p); }
    else {
        mpq_class c = N.t.at(leadLex(N)), p = 1;
        for (int i = 0; i < e; ++i) p *= c;
        r.num = r.num.scale(1 / p);
        r.den[factorId(N.scale(1 / c))] += e;
    }
}
void Ctx::reduce(RatFun& r) {
    if (!hasAlg) return;
    for (int guard = 0; guard < 64; ++guard) {
        // find a term with a reducible power
        int v = -1, need = 2;
        for (auto& k : r.num.t) {
            for (uint32_t x : k.first) {
                const Atom& a = atoms[x >> 8];
                if (!isAlg(a)) continue;
                int nd = a.fn == Fn::Cbrt ? 3 : 2;
                if ((int)(x & 255) >= nd) { v = x >> 8; need = nd; break; }
            }
            if (v >= 0) break;
        }
        if (v < 0) return;
        Poly keep, red;      // num = keep + s^need * red
        for (auto& k : r.num.t) {
            bool done = false;
            for (size_t i = 0; i < k.first.size(); ++i) if ((k.first[i] >> 8) == (uint32_t)v && (int)(k.first[i] & 255) >= need) {
                Mono m = k.first; uint32_t e = (m[i] & 255) - need;
                if (e == 0) m.erase(i, 1); else m[i] = (m[i] & ~255u) | e;
                red.addTerm(m, k.second); done = true; break;
            }
            if (!done) keep.addTerm(k.first, k.second);
        }
        const Atom& a = atoms[v];
        RatFun repl;
        if (a.fn == Fn::Sqrt || a.fn == Fn::Cbrt) repl = a.a;
        else if (a.fn == Fn::Abs) repl = rmul(a.a, a.a);
        else { // sin^2 = 1 - cos^2, sinh^2 = cosh^2 - 1
            RatFun arg = a.a; bool sn = a.fn == Fn::Sin;
            RatFun c = atomOf(sn ? Fn::Cos : Fn::Cosh, arg, nullptr, 0, 0);
            RatFun c2 = rmul(c, c); repl = sn ? radd(rconst(1), c2, true) : radd(c2, rconst(1), true);
        }
        RatFun A, B; A.num = std::move(keep); A.den = r.den; B.num = std::move(red); B.den = r.den;
        // multiply B by repl without recursion explosion
        RatFun P; P.num = pl::mul(B.num, repl.num); P.den = B.den; for (auto& k : repl.den) P.den[k.first] += k.second;
        r = radd(A, P, false);
    }
}
RatFun Ctx::radd(const RatFun& a, const RatFun& b, bool minus) {
    if (a.num.zero()) { RatFun r = b; if (minus) r.num = r.num.neg(); return r; }
    if (b.num.zero()) return a;
    RatFun r;
    if (a.den == b.den) { r.num = a.num; if (minus) r.num.sub(b.num); else r.num.add(b.num); r.den = a.den; cancel(r); return r; }
    std::map<int, int> L = a.den, da, db;
    for (auto& k : b.den) { int& e = L[k.first]; e = std::max(e, k.second); }
    for (auto& k : L) {
        auto ia = a.den.find(k.first); int ea = ia == a.den.end() ? 0 : ia->second; if (k.second > ea) da[k.first] = k.second - ea;
        auto ib = b.den.find(k.first); int eb = ib == b.den.end() ? 0 : ib->second; if (k.second > eb) db[k.first] = k.second - eb;
    }
    r.num = pl::mul(a.num, expandDen(da));
    Poly y = pl::mul(b.num, expandDen(db));
    if (minus) r.num.sub(y); else r.num.add(y);
    r.den = L; reduce(r); cancel(r);
    return r;
}
RatFun Ctx::rmul(const RatFun& a, const RatFun& b) {
    RatFun r, x = a, y = b;
    if (a.num.zero() || b.num.zero()) return r;
    // cross-cancel before expanding
    if (!x.den.empty() && !y.num.isConst()) for (auto it = x.den.begin(); it != x.den.end();) { Poly q; while (it->second > 0 && tryDiv(y.num, factors[it->first], q)) { y.num = std::move(q); --it->second; } if (!it->second) it = x.den.erase(it); else ++it; }
    if (!y.den.empty() && !x.num.isConst()) for (auto it = y.den.begin(); it != y.den.end();) { Poly q; while (it->second > 0 && tryDiv(x.num, factors[it->first], q)) { x.num = std::move(q); --it->second; } if (!it->second) it = y.den.erase(it); else ++it; }
    r.num = pl::mul(x.num, y.num); r.den = x.den; for (auto& k : y.den) r.den[k.first] += k.second;
    reduce(r);
    return r;
}
RatFun Ctx::rdiv(const RatFun& a, const RatFun& b) {
    RatFun r; r.num = a.num; r.den = a.den;
    if (a.num.zero()) { return RatFun(); }
    std::map<int, int> up;
    for (auto& k : b.den) { auto it = r.den.find(k.first); int e = k.second; if (it != r.den.end()) { int c = std::min(e, it->second); it->second -= c; e -= c; if (!it->second) r.den.erase(it); } if (e) up[k.first] = e; }
    if (!up.empty()) r.num = pl::mul(r.num, expandDen(up));
    pushDen(r, b.num, 1);
    cancel(r); reduce(r);
    return r;
}
RatFun Ctx::rpow(const RatFun& a, int k) {
    if (k < 0) return rdiv(rconst(1), rpow(a, -k));
    RatFun r = rconst(1); for (int i = 0; i < k; ++i) r = rmul(r, a); return r;
}
int Ctx::zeroDiff(const RatFun& a, const RatFun& b, double tol) {
    if (a.den == b.den) {
        Poly d = a.num; d.sub(b.num);
        if (d.zero()) return 1;
        double s = std::max(a.num.maxCoef(), b.num.maxCoef());
        return d.maxCoef() <= tol * s ? 2 : 0;
    }
    std::map<int, int> da, db;
    std::map<int, int> L = a.den; for (auto& k : b.den) { int& e = L[k.first]; e = std::max(e, k.second); }
    for (auto& k : L) {
        auto ia = a.den.find(k.first); int ea = ia == a.den.end() ? 0 : ia->second; if (k.second > ea) da[k.first] = k.second - ea;
        auto ib = b.den.find(k.first); int eb = ib == b.den.end() ? 0 : ib->second; if (k.second > eb) db[k.first] = k.second - eb;
    }
    RatFun X, Y; X.num = pl::mul(a.num, expandDen(da)); Y.num = pl::mul(b.num, expandDen(db));
    RatFun D = X; D.num.sub(Y.num); reduce(D);
    if (D.num.zero()) return 1;
    double s = std::max(X.num.maxCoef(), Y.num.maxCoef());
    return D.num.maxCoef() <= tol * s ? 2 : 0;
}
RatFun Ctx::atomOf(Fn fn, const RatFun& a, const RatFun* b, NodeId node, uint32_t aux) {
    RatFun B; if (b) B = *b;
    for (size_t i = 0; i < atoms.size(); ++i) {
        auto& t = atoms[i];
        if (t.k == Atom::Fun && t.fn == fn && t.aux == aux && zeroDiff(t.a, a, 1e-13) && (!b || zeroDiff(t.b, B, 1e-13))) { RatFun r; r.num = Poly::V(i); return r; }
    }
    Atom t; t.k = Atom::Fun; t.fn = fn; t.aux = aux; t.node = node; t.a = a; t.b = B;
    atoms.push_back(t);
    if (isAlg(t)) hasAlg = true;
    RatFun r; r.num = Poly::V(atoms.size() - 1);
    return r;
}
// a^(q'+k) = a^k * atom(a, q'), k integer
RatFun Ctx::powOf(const RatFun& a, const RatFun& b, NodeId n) {
    if (!b.den.empty()) return atomOf(Fn::Pow, a, &b, n, 0);
    mpq_class c = 0; auto ci = b.num.t.find(Mono()); if (ci != b.num.t.end()) c = ci->second;
    mpz_class k = c.get_num() / c.get_den(); // truncation
    if (c < 0 && c.get_den() != 1) k -= 1;
    long kk = k.get_si();
    if (std::labs(kk) > 60) throw pl::TooBig("power");
    if (b.num.isConst() && c == k) return rpow(a, kk);
    RatFun q = b; q.num.addTerm(Mono(), -mpq_class(k));
    if (q.num.isConst() && q.num.constVal() == mpq_class(1, 2)) return rmul(atomOf(Fn::Sqrt, a, nullptr, n, 0), rpow(a, kk));
    if (a.num.isConst() && a.den.empty() && a.num.constVal() > 0) { RatFun x = q; x.num = q.num.scale(mpq_class(std::log(a.num.constVal().get_d()))); return rmul(atomOf(Fn::Exp, x, nullptr, n, 0), rpow(a, kk)); }
    return rmul(atomOf(Fn::Pow, a, &q, n, 0), rpow(a, kk));
}
const RatFun& Ctx::rat(NodeId n0) {
    auto it = canon.find(n0);
    if (it != canon.end()) return *it->second;
    // iterative post-order
    std::vector<NodeId> st{n0};
    while (!st.empty()) {
        NodeId n = st.back();
        if (canon.count(n)) { st.pop_back(); continue; }
        Node nd = nodes[n];
        bool ready = true;
        auto need = [&](NodeId x) { if (!canon.count(x)) { st.push_back(x); ready = false; } };
        switch (nd.op) { case Op::Var: case Op::Const: break; case Op::Neg: case Op::Fn1: need(nd.a); break; default: need(nd.a); need(nd.b); }
        if (!ready) continue;
        st.pop_back();
        RatFun r;
        auto A = [&]() -> const RatFun& { return *canon.at(nd.a); };
        auto B = [&]() -> const RatFun& { return *canon.at(nd.b); };
        switch (nd.op) {
        case Op::Var: {
            if (varAtom.size() <= nd.aux) varAtom.resize(nd.aux + 1, -1);
            if (varAtom[nd.aux] < 0) { Atom t; t.k = Atom::Var; t.fn = Fn::Sqrt; t.aux = nd.aux; t.node = n; atoms.push_back(t); varAtom[nd.aux] = atoms.size() - 1; }
            r.num = Poly::V(varAtom[nd.aux]); break; }
        case Op::Const: r = rconst(consts[nd.aux]); break;
        case Op::Add: r = radd(A(), B(), false); break;
        case Op::Sub: r = radd(A(), B(), true); break;
        case Op::Neg: r = A(); r.num = r.num.neg(); break;
        case Op::Mul: r = rmul(A(), B()); break;
        case Op::Div: r = rdiv(A(), B()); break;
        case Op::Fn1: {
            RatFun a = A();
            switch (nd.fn) {
            case Fn::Sqrt: case Fn::Cbrt: {
                if (a.num.zero()) { r = a; break; }
                bool cb = nd.fn == Fn::Cbrt;
                mpq_class lc = a.num.t.at(leadLex(a.num)); mpq_class c = lc < 0 ? mpq_class(-lc) : lc;
                mpq_class root; mpz_class rn, rd; bool exact = false;
                if (!cb) { if (mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) { mpz_sqrt(rn.get_mpz_t(), c.get_num_mpz_t()); mpz_sqrt(rd.get_mpz_t(), c.get_den_mpz_t()); root = mpq_class(rn, rd); exact = true; } }
                else { bool e1 = mpz_root(rn.get_mpz_t(), c.get_num_mpz_t(), 3), e2 = mpz_root(rd.get_mpz_t(), c.get_den_mpz_t(), 3); if (e1 && e2) { root = mpq_class(rn, rd); exact = true; } }
                if (!exact && a.num.isConst() && a.den.empty()) { root = mpq_class(cb ? std::cbrt(c.get_d()) : std::sqrt(c.get_d())); }
                else if (!exact) { root = 1; c = 1; }
                RatFun an = a; an.num = a.num.scale(1 / c);
                // monomial-square extraction is not attempted (sign unknown)
                if (an.num.isConst() && an.den.empty() && an.num.constVal() == 1) r = rconst(root);
                else { r = atomOf(nd.fn, an, nullptr, n, 0); r.num = r.num.scale(root); }
                break; }
            case Fn::Tan: r = rdiv(atomOf(Fn::Sin, a, nullptr, n, 0), atomOf(Fn::Cos, a, nullptr, n, 0)); break;
            case Fn::Tanh: r = rdiv(atomOf(Fn::Sinh, a, nullptr, n, 0), atomOf(Fn::Cosh, a, nullptr, n, 0)); break;
            case Fn::Exp: {   // exp(p log x) = x^p (x > 0 where log x is defined)
                int lg = -1; if (!a.num.zero()) { for (uint32_t x : leadLex(a.num)) if (atoms[x >> 8].k == Atom::Fun && atoms[x >> 8].fn == Fn::Log) lg = x >> 8; }
                Poly q; if (lg >= 0 && tryDiv(a.num, Poly::V(lg), q)) { RatFun e = a; e.num = q; RatFun base = atoms[lg].a; r = powOf(base, e, n); } else r = atomOf(nd.fn, a, nullptr, n, 0);
                break; }
            case Fn::Expm1: r = radd(atomOf(Fn::Exp, a, nullptr, n, 0), rconst(1), true); break;
            case Fn::Log1p: r = atomOf(Fn::Log, radd(a, rconst(1), false), nullptr, n, 0); break;
            case Fn::Sin: case Fn::Cos: case Fn::Sinh: case Fn::Cosh: {
                r = atomOf(nd.fn, a, nullptr, n, 0); break; }
            default: r = atomOf(nd.fn, a, nullptr, n, nd.aux);
            }
            break; }
        case Op::Fn2: {
            RatFun a = A(), b = B();
            if (nd.fn == Fn::Pow) {
                r = powOf(a, b, n); break;
            }
            r = atomOf(nd.fn, a, &b, n, nd.aux); break; }
        }
        canon[n] = std::make_shared<RatFun>(std::move(r));
    }
    return *canon.at(n0);
}
int Ctx::equalCanon(NodeId a, NodeId b, double tol) {
    if (a == b) return 1;
    const RatFun& x = rat(a); const RatFun& y = rat(b);
    return zeroDiff(x, y, tol);
}
std::string Ctx::atomName(int id) {
    auto& a = atoms[id];
    if (a.k == Atom::Var) return vars[a.aux].name;
    return std::string(fnName(a.fn)) + "(" + show(a.a, 4) + ")";
}
std::string Ctx::showPoly(const Poly& p, size_t maxTerms) {
    std::ostringstream o; size_t n = 0;
    if (p.zero()) return "0";
    for (auto& k : p.t) {
        if (n++) o << " + ";
        if (n > maxTerms) { o << "...(" << p.t.size() << " terms)"; break; }
        if (k.second.get_den() == 1 && k.second.get_num().get_str().size() < 8) o << k.second.get_str(); else o << k.second.get_d();
        for (uint32_t x : k.first) { o << "*" << atomName(x >> 8); if ((x & 255) > 1) o << "^" << (x & 255); }
    }
    return o.str();
}
std::string Ctx::show(const RatFun& r, size_t maxTerms) {
    std::string s = showPoly(r.num, maxTerms);
    for (auto& k : r.den) s = "(" + s + ")/(" + showPoly(factors[k.first], maxTerms) + ")^" + std::to_string(k.second);
    return s;
}
// ------------------------------------------------------------------ numeric evaluation
Ctx::Val Ctx::eval(NodeId n0, Eval& e) {
    if (e.has.size() < nodes.size()) { e.has.resize(nodes.size() + nodes.size() / 2 + 64, 0); e.val.resize(e.has.size()); }
    if (e.has[n0]) return e.val[n0];
    std::vector<NodeId> st{n0};
    while (!st.empty()) {
        NodeId n = st.back();
        if (e.has[n]) { st.pop_back(); continue; }
        const Node& nd = nodes[n];
        bool ready = true;
        auto need = [&](NodeId x) { if (!e.has[x]) { st.push_back(x); ready = false; } };
        switch (nd.op) { case Op::Var: case Op::Const: break; case Op::Neg: case Op::Fn1: need(nd.a); break; default: need(nd.a); need(nd.b); }
        if (!ready) continue;
        st.pop_back();
        Val r{0, 0};
        using std::fabs;
        switch (nd.op) {
        case Op::Var: r.v = nd.aux < e.varv.size() ? e.varv[nd.aux] : 0.5L; r.mag = fabsl(r.v); break;
        case Op::Const: { const mpq_class& q = consts[nd.aux]; r.v = q.get_d(); mpq_class rest = q - mpq_class((double)r.v); r.v += (long double)rest.get_d(); r.mag = fabsl(r.v); break; }
        case Op::Neg: { auto a = e.val[nd.a]; r = {-a.v, a.mag}; break; }
        case Op::Add: { auto a = e.val[nd.a], b = e.val[nd.b]; r = {a.v + b.v, a.mag + b.mag}; break; }
        case Op::Sub: { auto a = e.val[nd.a], b = e.val[nd.b]; r = {a.v - b.v, a.mag + b.mag}; break; }
        case Op::Mul: { auto a = e.val[nd.a], b = e.val[nd.b]; r = {a.v * b.v, a.mag * b.mag}; break; }
        case Op::Div: { auto a = e.val[nd.a], b = e.val[nd.b]; long double q = fabsl(b.v); r = {a.v / b.v, q > 0 ? (a.mag / q) * (b.mag / q) : INFINITY}; break; }
        case Op::Fn1: case Op::Fn2: {
            auto a = e.val[nd.a]; Val b{0, 0}; if (nd.op == Op::Fn2) b = e.val[nd.b];
            long double x = a.v, y = b.v, v = 0;
            switch (nd.fn) {
            case Fn::Sqrt: v = sqrtl(x); break; case Fn::Cbrt: v = cbrtl(x); break; case Fn::Exp: v = expl(x); break; case Fn::Log: v = logl(x); break;
            case Fn::Sin: v = sinl(x); break; case Fn::Cos: v = cosl(x); break; case Fn::Tan: v = tanl(x); break; case Fn::Asin: v = asinl(x); break;
            case Fn::Acos: v = acosl(x); break; case Fn::Atan: v = atanl(x); break; case Fn::Sinh: v = sinhl(x); break; case Fn::Cosh: v = coshl(x); break;
            case Fn::Tanh: v = tanhl(x); break; case Fn::Expm1: v = expm1l(x); break; case Fn::Log1p: v = log1pl(x); break; case Fn::Pow: v = powl(x, y); break;
            case Fn::Atan2: v = atan2l(x, y); break; case Fn::Abs: v = fabsl(x); break;
            case Fn::Uf: v = ufval(ufNames[nd.aux].c_str(), x, nd.op == Op::Fn2 ? y : 0); break;
            }
            long double rel = fabsl(x) > 0 ? a.mag / fabsl(x) : 1;
            r = {v, fabsl(v) * std::max(1.0L, rel) + (nd.fn == Fn::Sqrt ? 0 : a.mag * 1e-3L)}; break; }
        }
        e.val[n] = r; e.has[n] = 1;
    }
    return e.val[n0];
}
void Ctx::collectVars(NodeId n0, std::set<uint32_t>& out) {
    std::vector<NodeId> st{n0}; std::set<NodeId> seen;
    while (!st.empty()) {
        NodeId n = st.back(); st.pop_back();
        if (!seen.insert(n).second) continue;
        const Node& nd = nodes[n];
        switch (nd.op) { case Op::Var: out.insert(nd.aux); break; case Op::Const: break; case Op::Neg: case Op::Fn1: st.push_back(nd.a); break; default: st.push_back(nd.a); st.push_back(nd.b); }
    }
}
}
