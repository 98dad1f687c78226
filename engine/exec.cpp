#include "exec.h"
#include "vc_rand.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <chrono>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <limits>
using namespace llvm;
using rl::NodeId; using rl::Fn;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_eq_ops = 4e8;
static bool g_sqrt_split = false;   // sqrt(N / d^2k) = sqrt(N) / |d|^k where the path decides the sign of d
static unsigned g_z3_ms = 4000;
struct Dec { int64_t v; };
struct LabelStat { long exact = 0, tol = 0, smt = 0, undec = 0, refuted = 0; std::string detail; std::vector<std::pair<std::string, std::string>> model; };

struct Exec;
using Builtin = V (*)(Exec&, std::vector<V>&, const Inst&);
static std::vector<Builtin> g_bfun; static std::unordered_map<std::string, int> g_bidx;
static inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); return (int64_t)((v ^ m) - m); }
static inline double bitsD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static inline uint64_t dBits(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static inline float bitsF(uint64_t c) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; }
static inline uint64_t fBits(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

struct Snapshot { std::vector<Region> regs; std::vector<uint32_t> freeSlots; };

struct Exec {
    Module& M; const DataLayout& DL; rl::Ctx R; z3::context* Z = nullptr;
    Snapshot mem;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr; std::vector<const Function*> funcs;
    std::unordered_map<const Function*, std::unique_ptr<Code>> codes;
    std::vector<V> consts; std::vector<std::vector<V>> caggs;
    std::unordered_map<const Constant*, int32_t> constIdx;
    // per path
    std::vector<z3::expr> bvs; std::vector<BoolN> bools; std::vector<z3::expr> boolZ; std::vector<std::vector<V>> aggs; std::vector<std::vector<ByteX>> xs;
    std::vector<std::pair<uint32_t, bool>> pc; z3::solver* bvS = nullptr; bool pcMixed = false; bool pcReal = false; bool pcInexact = false;
    std::vector<Dec> dec; size_t decPos = 0; std::vector<std::vector<Dec>> work;
    std::map<std::string, unsigned> cnt; std::vector<IVar> ivars; std::vector<std::pair<std::string, NodeId>> rvars;
    std::vector<std::unique_ptr<Sample>> pool; std::vector<int> active; bool sampleExhausted = false;
    std::vector<Frame> st; std::vector<Frame> spare;
    std::vector<NodeId> nonzeroNodes; std::unordered_set<NodeId> divSeen;
    std::unordered_map<NodeId, unsigned> z3r; std::vector<z3::expr> z3rv; std::vector<z3::expr> z3side;
    uint64_t excPtr = 0, excType = 0; std::map<uint64_t, long> typeIds; std::map<uint64_t, uint64_t> excTypeOf;
    std::map<std::string, std::string> cxaNames;
    // stats
    std::map<std::string, LabelStat> labels; std::set<std::string> covers, funcsRun, assumptions, unsupported, boundedWhy; std::map<std::string, long> execCount;
    long paths = 0, discarded = 0, aborted = 0; uint64_t steps = 0, memChecks = 0; double solverSecs = 0, canonSecs = 0; uint64_t stepLimit = 3000000000ull; double deadline = 1e300;
    bool concrete = false; uint64_t cseed = 1; FILE* clog = nullptr; std::string curCase; bool trace = false;
    std::map<std::string,const Function*> replaced;

    Exec(Module& m) : M(m), DL(m.getDataLayout()) {}

    // ---------------------------------------------------------------- memory
    uint64_t alloc(uint64_t size, uint8_t kind) {
        if (size > (1u << 27)) throw Unsupported{"allocation of " + std::to_string(size) + " bytes"};
        uint32_t slot;
        if (!mem.freeSlots.empty()) { slot = mem.freeSlots.back(); mem.freeSlots.pop_back(); }
        else { slot = mem.regs.size(); if (slot >= (1u << 20) - 2) throw Unsupported{"too many live memory regions"}; mem.regs.emplace_back(); }
        Region& r = mem.regs[slot];
        r.gen = (r.gen + 1) & 0xFFF; if (!r.gen) r.gen = 1;
        r.base = ((uint64_t)r.gen << 48) | ((uint64_t)(slot + 1) << 28) | 0x10000;
        r.size = size; r.alive = true; r.kind = kind; r.data.assign(size, 0); r.st.assign(size, 0); r.sh.clear(); r.sm.clear();
        return r.base;
    }
    void freeSlot(uint32_t slot) { Region& r = mem.regs[slot]; r.alive = false; std::vector<uint8_t>().swap(r.data); std::vector<uint8_t>().swap(r.st); std::vector<V>().swap(r.sh); r.sm.clear(); mem.freeSlots.push_back(slot); }
    Region* region(uint64_t a) {
        uint64_t slot = ((a >> 28) & 0xFFFFF); if (!slot || slot > mem.regs.size()) return nullptr;
        Region& r = mem.regs[slot - 1]; if (!r.alive || r.gen != (a >> 48)) return nullptr;
        return &r;
    }
    Region& access(uint64_t a, uint64_t n, uint32_t& off, bool wr) {
        ++memChecks;
        Region* r = region(a);
        if (!r) throw Violation{"memory", a < 4096 ? "null pointer dereference" : "access outside any live object (dangling or wild pointer)"};
        int64_t o = (int64_t)(a - r->base);
        if (o < 0 || (uint64_t)o + n > r->size) { std::ostringstream s; s << (wr ? "write" : "read") << " of " << n << " bytes at offset " << o << " of an object of " << r->size << " bytes"; throw Violation{"out-of-bounds", s.str()}; }
        if (wr && r->kind == 4) throw Violation{"memory", "write to constant memory"};
        off = o; return *r;
    }
    // destroy any shadow overlapping [off,off+n)
    void clearShadow(Region& r, uint32_t off, uint32_t n) {
        if (off && (r.st[off] == 3 || r.st[off] == 5)) breakShadow(r, off);
        if (off + n < r.size && (r.st[off + n] == 3 || r.st[off + n] == 5)) breakShadow(r, off + n);
        if (!r.sm.empty()) for (uint32_t i = off; i < off + n; ++i) if (r.st[i] == 4) r.sm.erase(i);
    }
    void breakShadow(Region& r, uint32_t at) {   // split a shadow into single bytes where possible, else undefined
        uint32_t s = at; while (s > 0 && (r.st[s] == 3 || r.st[s] == 5)) --s;
        V v; uint32_t n;
        if (r.st[s] == 2) { v = r.sh[s >> 3]; n = 8; } else { auto& p = r.sm[s]; v = p.second; n = p.first; r.sm.erase(s); }
        if (v.k == KBV && n > 1) {
            z3::expr e = bvs[v.ref];
            for (uint32_t i = 0; i < n; ++i) { V b = mkBV(e.extract(i * 8 + 7, i * 8), 8); if (b.k == KC) { r.data[s + i] = b.c; r.st[s + i] = 1; } else { r.st[s + i] = 4; r.sm[s + i] = {1, b}; } }
        } else for (uint32_t i = 0; i < n; ++i) r.st[s + i] = 0;
    }
    void storeN(uint64_t a, uint32_t n, const V& v) {
        uint32_t off; Region& r = access(a, n, off, true);
        clearShadow(r, off, n);
        switch (v.k) {
        case KC: memcpy(&r.data[off], &v.c, n); memset(&r.st[off], 1, n); break;
        case KU: memset(&r.st[off], 0, n); break;
        case KX: { auto& x = xs[v.ref]; for (uint32_t i = 0; i < n && i < x.size(); ++i) {
                if (x[i].st == 0) r.st[off + i] = 0; else if (x[i].st == 1) { r.st[off + i] = 1; r.data[off + i] = x[i].c; }
                else if (x[i].idx == 0 && i + x[i].sz <= x.size()) { putShadow(r, off + i, x[i].sz, x[i].v); i += x[i].sz - 1; }
                else r.st[off + i] = 0; }
            break; }
        default: putShadow(r, off, n, v);
        }
    }
    void putShadow(Region& r, uint32_t off, uint32_t n, const V& v) {
        if (n == 8 && !(off & 7)) { if (r.sh.empty()) r.sh.resize(r.size / 8 + 1); r.sh[off >> 3] = v; r.st[off] = 2; memset(&r.st[off + 1], 3, 7); }
        else { r.sm[off] = {(uint8_t)n, v}; r.st[off] = 4; if (n > 1) memset(&r.st[off + 1], 5, n - 1); }
    }
    V loadN(uint64_t a, uint32_t n) {
        uint32_t off; Region& r = access(a, n, off, false);
        uint8_t s0 = r.st[off];
        if (s0 == 2 && n == 8) return r.sh[off >> 3];
        if (s0 == 4) { auto& p = r.sm[off]; if (p.first == n) return p.second; }
        bool allC = true, allU = true;
        for (uint32_t i = 0; i < n; ++i) { if (r.st[off + i] != 1) allC = false; if (r.st[off + i] != 0) allU = false; }
        if (allC) { V v = vc_(0); memcpy(&v.c, &r.data[off], n); return v; }
        if (allU) return vu_();
        std::vector<ByteX> bx(n); bool onlyBV = true;
        for (uint32_t i = 0; i < n; ++i) bx[i] = byteAt(r, off + i);
        for (auto& b : bx) if (b.st == 0 || (b.st == 2 && b.v.k != KBV)) onlyBV = false;
        if (onlyBV) {
            z3::expr e = byteExpr(bx[n - 1]); for (int i = (int)n - 2; i >= 0; --i) e = z3::concat(e, byteExpr(bx[i]));
            return mkBV(e, n * 8);
        }
        return mkX(bx);
    }
    V mkX(std::vector<ByteX>& bx) {
        bool allU = true, allC = true; for (auto& b : bx) { if (b.st) allU = false; if (b.st != 1) allC = false; }
        if (allU) return vu_();
        if (allC) { V v = vc_(0); for (size_t i = 0; i < bx.size() && i < 8; ++i) v.c |= (uint64_t)bx[i].c << (8 * i); return v; }
        if (bx[0].st == 2 && bx[0].idx == 0 && bx[0].sz == bx.size()) { bool w = true; for (size_t i = 0; i < bx.size(); ++i) if (bx[i].st != 2 || bx[i].idx != i || bx[i].v.ref != bx[0].v.ref) w = false; if (w) return bx[0].v; }
        xs.push_back(bx); V v; v.k = KX; v.ref = xs.size() - 1; return v;
    }
    z3::expr byteExpr(const ByteX& b) { if (b.st == 1) return Z->bv_val((unsigned)b.c, 8); return bvs[b.v.ref].extract(b.idx * 8 + 7, b.idx * 8); }
    ByteX byteAt(Region& r, uint32_t o) {
        ByteX b{0, 0, 0, 0, V()};
        if (r.st[o] == 0) return b; if (r.st[o] == 1) { b.st = 1; b.c = r.data[o]; return b; }
        uint32_t s = o; while (r.st[s] == 3 || r.st[s] == 5) --s;
        b.st = 2; b.idx = o - s; if (r.st[s] == 2) { b.v = r.sh[s >> 3]; b.sz = 8; } else { b.v = r.sm[s].second; b.sz = r.sm[s].first; }
        return b;
    }
    void copyMem(uint64_t d, uint64_t s, uint64_t n) {
        if (!n) return;
        uint32_t so, dof; Region& rs = access(s, n, so, false);
        struct P { uint32_t o, n; V v; }; std::vector<P> parts; std::vector<uint8_t> raw(n), stt(n);
        for (uint32_t i = 0; i < n;) {
            uint8_t t = rs.st[so + i];
            if (t == 0 || t == 1) { stt[i] = t; raw[i] = rs.data[so + i]; ++i; continue; }
            ByteX b = byteAt(rs, so + i);
            if (b.idx == 0 && i + b.sz <= n) { parts.push_back({i, b.sz, b.v}); for (uint32_t k = 0; k < b.sz; ++k) stt[i + k] = 9; i += b.sz; continue; }
            if (b.v.k == KBV) { V x = mkBV(bvs[b.v.ref].extract(b.idx * 8 + 7, b.idx * 8), 8); if (x.k == KC) { stt[i] = 1; raw[i] = x.c; } else { parts.push_back({i, 1, x}); stt[i] = 9; } }
            else stt[i] = 0;
            ++i;
        }
        Region& rd = access(d, n, dof, true); clearShadow(rd, dof, n);
        for (uint32_t i = 0; i < n; ++i) if (stt[i] < 2) { rd.st[dof + i] = stt[i]; rd.data[dof + i] = raw[i]; }
        for (auto& p : parts) putShadow(rd, dof + p.o, p.n, p.v);
    }
    void setMem(uint64_t d, V val, uint64_t n) {
        if (!n) return; uint32_t o; Region& r = access(d, n, o, true); clearShadow(r, o, n);
        if (val.k == KC) { memset(&r.data[o], (int)val.c, n); memset(&r.st[o], 1, n); } else if (val.k == KU) memset(&r.st[o], 0, n); else throw Unsupported{"symbolic memset"};
    }
    std::string cstr(uint64_t a) { std::string s; for (int i = 0; i < 4000; ++i) { V v = loadN(a + i, 1); if (v.k != KC) { s += '?'; break; } if (!v.c) break; s += (char)v.c; } return s; }

    // ---------------------------------------------------------------- values
    V mkBV(const z3::expr& e0, unsigned w) {
        z3::expr e = e0.simplify();
        uint64_t u; if (e.is_numeral_u64(u)) return vc_(maskw(u, w));
        bvs.push_back(e); V v; v.k = KBV; v.ref = bvs.size() - 1; return v;
    }
    z3::expr toBV(const V& v, unsigned w) {
        switch (v.k) {
        case KC: return Z->bv_val((uint64_t)v.c, w);
        case KBV: { z3::expr e = bvs[v.ref]; if (e.get_sort().bv_size() != w) throw Unsupported{"bit-vector width mismatch"}; return e; }
        case KB: { z3::expr b = boolZ3(v.ref); return z3::ite(b, Z->bv_val(1, w), Z->bv_val(0, w)); }
        case KU: throw Violation{"uninitialised", "an uninitialised value is used"};
        default: throw Unsupported{"value has no bit-vector form"};
        }
    }
    uint32_t mkBoolZ(const z3::expr& e0, V* out) {
        z3::expr e = e0.simplify();
        if (e.is_true()) { *out = vc_(1); return 0; } if (e.is_false()) { *out = vc_(0); return 0; }
        boolZ.push_back(e); bools.push_back({BZ3, 0, false, true, (uint32_t)boolZ.size() - 1, 0});
        out->k = KB; out->ref = bools.size() - 1; return out->ref;
    }
    V mkBoolN(BT t, uint8_t pred, uint32_t a, uint32_t b, bool hr, bool hb) { bools.push_back({t, pred, hr, hb, a, b}); V v; v.k = KB; v.ref = bools.size() - 1; return v; }
    V bnot(const V& v) { if (v.k == KC) return vc_(!(v.c & 1)); const BoolN n = bools[v.ref]; if (n.t == BNOT) { V r; r.k = KB; r.ref = n.a; return r; } if (n.t == BZ3) { V o; mkBoolZ(!boolZ[n.a], &o); return o; } return mkBoolN(BNOT, 0, v.ref, 0, n.hasR, n.hasB); }
    V band(const V& a, const V& b, bool isOr) {
        if (a.k == KC) return ((a.c & 1) != 0) == isOr ? a : b; if (b.k == KC) return ((b.c & 1) != 0) == isOr ? b : a;
        if (a.ref == b.ref) return a;
        const BoolN x = bools[a.ref], y = bools[b.ref];
        if (x.t == BZ3 && y.t == BZ3) { V o; mkBoolZ(isOr ? boolZ[x.a] || boolZ[y.a] : boolZ[x.a] && boolZ[y.a], &o); return o; }
        return mkBoolN(isOr ? BOR : BAND, 0, a.ref, b.ref, x.hasR || y.hasR, x.hasB || y.hasB);
    }
    z3::expr boolZ3(uint32_t id) {
        const BoolN n = bools[id];
        switch (n.t) {
        case BZ3: return boolZ[n.a];
        case BNOT: return !boolZ3(n.a);
        case BAND: return boolZ3(n.a) && boolZ3(n.b);
        case BOR: return boolZ3(n.a) || boolZ3(n.b);
        default: { z3::expr a = realZ3(n.a), b = realZ3(n.b); return n.pred == 0 ? a == b : n.pred == 1 ? a < b : a <= b; }
        }
    }
    z3::expr realZ3(NodeId n0) {
        std::vector<NodeId> s{n0};
        while (!s.empty()) {
            NodeId n = s.back(); if (z3r.count(n)) { s.pop_back(); continue; }
            auto nd = R.nodes[n]; bool ready = true; auto need = [&](NodeId x) { if (!z3r.count(x)) { s.push_back(x); ready = false; } };
            switch (nd.op) { case rl::Op::Var: case rl::Op::Const: break; case rl::Op::Neg: case rl::Op::Fn1: need(nd.a); break; default: need(nd.a); need(nd.b); }
            if (!ready) continue;
            s.pop_back();
            auto A = [&] { return z3rv[z3r[nd.a]]; }; auto B = [&] { return z3rv[z3r[nd.b]]; };
            z3::expr e(*Z);
            switch (nd.op) {
            case rl::Op::Var: e = Z->real_const(R.vars[nd.aux].name.c_str()); break;
            case rl::Op::Const: e = Z->real_val(R.consts[nd.aux].get_str().c_str()); break;
            case rl::Op::Add: e = A() + B(); break; case rl::Op::Sub: e = A() - B(); break; case rl::Op::Mul: e = A() * B(); break;
            case rl::Op::Div: e = A() / B(); break; case rl::Op::Neg: e = -A(); break;
            default: {
                if (nd.fn == Fn::Sqrt || nd.fn == Fn::Cbrt) { e = Z->real_const(("rt!" + std::to_string(n)).c_str()); if (nd.fn == Fn::Sqrt) { z3side.push_back(e >= 0); z3side.push_back(e * e == A()); } else z3side.push_back(e * e * e == A()); }
                else if (nd.fn == Fn::Abs) e = z3::ite(A() >= 0, A(), -A());
                else if (nd.op == rl::Op::Fn1) { auto f = Z->function((std::string("f!") + rl::fnName(nd.fn) + std::to_string(nd.aux)).c_str(), Z->real_sort(), Z->real_sort()); e = f(A()); if (nd.fn == Fn::Exp || nd.fn == Fn::Cosh) z3side.push_back(e > 0); if (nd.fn == Fn::Sin || nd.fn == Fn::Cos || nd.fn == Fn::Tanh) { z3side.push_back(e <= 1); z3side.push_back(e >= -1); } }
                else { auto f = Z->function((std::string("g!") + rl::fnName(nd.fn) + std::to_string(nd.aux)).c_str(), Z->real_sort(), Z->real_sort(), Z->real_sort()); e = f(A(), B()); } }
            }
            z3rv.push_back(e); z3r[n] = z3rv.size() - 1;
        }
        return z3rv[z3r[n0]];
    }
    // ---------------------------------------------------------------- samples
    static void splitName(const std::string& s, std::string& base, unsigned& k) { size_t p = s.rfind('#'); base = s.substr(0, p); k = atoi(s.c_str() + p + 1); }
    rl::Ctx::Val sampleEval(Sample& s, NodeId n) {
        while (s.ev.varv.size() < R.vars.size()) {
            auto& vi = R.vars[s.ev.varv.size()]; auto it = s.fixed.find(vi.name);
            if (it != s.fixed.end()) s.ev.varv.push_back(it->second);
            else { std::string b; unsigned k; splitName(vi.name, b, k); s.ev.varv.push_back(vc_draw_real(s.seed, b.c_str(), k, vi.lo, vi.hi)); }
        }
        return R.eval(n, s.ev);
    }
    int sampleBool(Sample& s, uint32_t id) {   // 0/1, 2 = numerically unclear
        const BoolN n = bools[id];
        switch (n.t) {
        case BZ3: return 2;
        case BNOT: { int x = sampleBool(s, n.a); return x == 2 ? 2 : !x; }
        case BAND: { int x = sampleBool(s, n.a), y = sampleBool(s, n.b); return x == 0 || y == 0 ? 0 : (x == 2 || y == 2 ? 2 : 1); }
        case BOR: { int x = sampleBool(s, n.a), y = sampleBool(s, n.b); return x == 1 || y == 1 ? 1 : (x == 2 || y == 2 ? 2 : 0); }
        default: {
            auto a = sampleEval(s, n.a), b = sampleEval(s, n.b); long double d = a.v - b.v, m = std::max(a.mag, b.mag) * 1e-15L + 1e-300L;
            if (std::isnan((double)d)) return 2;
            if (n.pred == 0) return d == 0 ? 1 : (fabsl(d) <= m ? 2 : 0);
            if (fabsl(d) <= m) return d == 0 ? (n.pred == 2) : 2;
            return d < 0; }
        }
    }
    bool sampleOK(Sample& s) { for (auto& p : pc) { int x = sampleBool(s, p.first); if (x == 2 || (bool)x != p.second) return false; } return true; }
    void initSamples() {
        for (int i = pool.size(); i < 8; ++i) { pool.emplace_back(new Sample()); pool.back()->seed = vc_mix(1000 + i); }
        active.clear(); for (int i = 0; i < 8; ++i) active.push_back(i); sampleExhausted = false;
    }
    void refilter() {
        if (pcMixed) { active.clear(); return; }
        std::vector<int> k; for (int i : active) { auto& p = pc.back(); int x = sampleBool(*pool[i], p.first); if (x != 2 && (bool)x == p.second) k.push_back(i); }
        active.swap(k); if (!(ordPure && pcReal)) replenish(3);
    }
    void replenish(size_t want) {
        if (pcMixed || active.size() >= want || sampleExhausted) return;
        std::set<int> have(active.begin(), active.end());
        for (size_t i = 0; i < pool.size() && active.size() < want; ++i) if (!have.count(i) && sampleOK(*pool[i])) { active.push_back(i); have.insert(i); }
        int tries = 0;
        while (active.size() < want && tries < 200 && pool.size() < 600) { ++tries; std::unique_ptr<Sample> s(new Sample()); s->seed = vc_mix(5000 + pool.size() * 31 + tries); if (sampleOK(*s)) { pool.push_back(std::move(s)); active.push_back(pool.size() - 1); } }
        if (active.empty()) sampleExhausted = true;
    }
    // z3 check of the path condition plus extra; 1 sat 0 unsat 2 unknown. With model sampling.
    int z3check(const std::vector<z3::expr>& extra, bool wantSample, std::map<std::string, std::string>* model = nullptr) {
        double t0 = now();
        if (!pcReal && !pcMixed && z3side.empty() && rvars.empty()) { int r = liCheck(extra, model); if (r < 2) { solverSecs += now() - t0; return r; } }
        z3::solver s(*Z); z3::params p(*Z); p.set("timeout", g_z3_ms); s.set(p);
        for (auto& q : pc) { z3::expr e = boolZ3(q.first); s.add(q.second ? e : !e); }
        for (auto& v : ivars) if (!v.choose) { z3::expr e = bvs[v.bv]; s.add(z3::sge(e, Z->bv_val((int64_t)v.lo, 64)) && z3::sle(e, Z->bv_val((int64_t)v.hi, 64))); }
        for (auto& e : extra) s.add(e);
        for (auto& e : z3side) s.add(e);
        int r = 2;
        try { auto c = s.check(); r = c == z3::sat ? 1 : c == z3::unsat ? 0 : 2;
            if (r == 1 && (wantSample || model)) {
                z3::model m = s.get_model();
                std::map<std::string, long double> fx; bool inexact = false;
                for (auto& rv : rvars) { z3::expr v = m.eval(realZ3(rv.second), true); long double d = 0;
                    try { d = strtold(v.get_decimal_string(17).c_str(), 0); } catch (...) { inexact = true; }
                    fx[rv.first] = d; if (model) { char b[64]; snprintf(b, 64, "%.17Lg", d); (*model)[rv.first] = b; } }
                if (model) for (auto& v : ivars) { long x = v.val; if (!v.choose) { z3::expr e = m.eval(bvs[v.bv], true); uint64_t u = 0; e.is_numeral_u64(u); x = (long)u; } (*model)[v.name] = std::to_string(x); }
                if (wantSample && !pcMixed) { std::unique_ptr<Sample> sm(new Sample()); sm->seed = 99; sm->fromModel = true; sm->fixed = fx; pool.push_back(std::move(sm)); active.push_back(pool.size() - 1); }
                (void)inexact;
            } } catch (z3::exception& e) { r = 2; }
        solverSecs += now() - t0;
        return r;
    }
    // ---- exact translation of 64-bit machine integer conditions into linear integer arithmetic: every sub-term carries bounds that exclude overflow, otherwise no translation
    struct IE { bool ok = false; __int128 lo = 0, hi = 0; int x = -1; };
    std::vector<z3::expr> ieX; std::unordered_map<unsigned, IE> ieMemo; std::vector<z3::expr> ieKeep; std::unordered_map<unsigned, int> ibMemo; z3::solver* iS = nullptr; bool iOK = true; long nLia = 0, nBv = 0;
    z3::expr iNum(__int128 v) { return Z->int_val((int64_t)v); }
    IE ie(const z3::expr& e) {
        auto it = ieMemo.find(e.id()); if (it != ieMemo.end()) return it->second;
        IE r = ie1(e); const __int128 L = (__int128)1 << 62; if (r.ok && (r.lo < -L || r.hi > L || !fits(r, e.get_sort().bv_size()))) r.ok = false;
        ieMemo[e.id()] = r; ieKeep.push_back(e); return r;
    }
    static bool fits(const IE& r, unsigned w) { if (w > 64) return false; __int128 h = (__int128)1 << (w - 1); return r.lo >= -h && r.hi < h; }
    IE mkIE(const z3::expr& e, __int128 lo, __int128 hi) { IE r; r.ok = true; r.lo = lo; r.hi = hi; r.x = ieX.size(); ieX.push_back(e); return r; }
    IE zx(const IE& a, unsigned w) { IE no; if (!a.ok || a.lo >= 0) return a; if (w >= 62) return no; __int128 m = (__int128)1 << w; if (a.hi < 0) return mkIE(ieX[a.x] + iNum(m), a.lo + m, a.hi + m); return mkIE(z3::ite(ieX[a.x] < 0, ieX[a.x] + iNum(m), ieX[a.x]), 0, m - 1); }
    IE ie1(const z3::expr& e) {
        IE no; if (!e.is_app() || !e.is_bv()) return no; unsigned w = e.get_sort().bv_size(); if (w > 64) return no; uint64_t u;
        if (e.is_numeral_u64(u)) { int64_t v = sext(u, w); return mkIE(Z->int_val(v), v, v); }
        auto k = e.decl().decl_kind(); unsigned n = e.num_args();
        if (k == Z3_OP_UNINTERPRETED && n == 0) { auto it = intRange.find(e.decl().name().str()); if (it == intRange.end()) return no; return mkIE(Z->int_const(e.decl().name().str().c_str()), it->second.first, it->second.second); }
        auto sh = [&](const z3::expr& c, uint64_t& v) { return c.is_numeral_u64(v) && v < 62; };
        switch (k) {
        case Z3_OP_BADD: { IE a = ie(e.arg(0)); if (!a.ok) return no; __int128 lo = a.lo, hi = a.hi; z3::expr x = ieX[a.x]; for (unsigned i = 1; i < n; ++i) { IE b = ie(e.arg(i)); if (!b.ok) return no; lo += b.lo; hi += b.hi; x = x + ieX[b.x]; } return mkIE(x, lo, hi); }
        case Z3_OP_BSUB: { IE a = ie(e.arg(0)), b = ie(e.arg(1)); if (n != 2 || !a.ok || !b.ok) return no; return mkIE(ieX[a.x] - ieX[b.x], a.lo - b.hi, a.hi - b.lo); }
        case Z3_OP_BNEG: { IE a = ie(e.arg(0)); if (!a.ok) return no; return mkIE(-ieX[a.x], -a.hi, -a.lo); }
        case Z3_OP_BMUL: { IE a = ie(e.arg(0)); if (!a.ok) return no; z3::expr x = ieX[a.x]; __int128 lo = a.lo, hi = a.hi; const __int128 M = (__int128)1 << 62;
            for (unsigned i = 1; i < n; ++i) { IE b = ie(e.arg(i)); if (!b.ok || lo < -M || hi > M || b.lo < -M || b.hi > M) return no; __int128 p[4] = {lo * b.lo, lo * b.hi, hi * b.lo, hi * b.hi}; x = lo == hi ? iNum(lo) * ieX[b.x] : b.lo == b.hi ? iNum(b.lo) * x : x * ieX[b.x]; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (i + 1 < n && (lo < -M || hi > M)) return no; }
            return mkIE(x, lo, hi); }
        case Z3_OP_BSHL: { uint64_t c; IE a = ie(e.arg(0)); if (!a.ok || !sh(e.arg(1), c)) return no; __int128 m = (__int128)1 << c; return mkIE(iNum(m) * ieX[a.x], a.lo * m, a.hi * m); }
        case Z3_OP_BASHR: case Z3_OP_BLSHR: { uint64_t c; IE a = ie(e.arg(0)); if (!a.ok || !sh(e.arg(1), c) || (k == Z3_OP_BLSHR && a.lo < 0)) return no; __int128 m = (__int128)1 << c; return mkIE(ieX[a.x] / iNum(m), a.lo >> c, a.hi >> c); }
        case Z3_OP_BUDIV: case Z3_OP_BSDIV: case Z3_OP_BUDIV_I: case Z3_OP_BSDIV_I: { uint64_t c; IE a = ie(e.arg(0)); if (!a.ok || a.lo < 0 || !e.arg(1).is_numeral_u64(c) || (int64_t)sext(c, w) <= 0) return no; return mkIE(ieX[a.x] / iNum(c), a.lo / c, a.hi / c); }
        case Z3_OP_BUREM: case Z3_OP_BSREM: case Z3_OP_BUREM_I: case Z3_OP_BSREM_I: { uint64_t c; IE a = ie(e.arg(0)); if (!a.ok || a.lo < 0 || !e.arg(1).is_numeral_u64(c) || (int64_t)sext(c, w) <= 0) return no; return mkIE(z3::mod(ieX[a.x], iNum(c)), 0, std::min(a.hi, (__int128)c - 1)); }
        case Z3_OP_ITE: { z3::expr c(*Z); if (!ib(e.arg(0), &c)) return no; IE a = ie(e.arg(1)), b = ie(e.arg(2)); if (!a.ok || !b.ok) return no; return mkIE(z3::ite(c, ieX[a.x], ieX[b.x]), std::min(a.lo, b.lo), std::max(a.hi, b.hi)); }
        case Z3_OP_SIGN_EXT: return ie(e.arg(0));
        case Z3_OP_BNOT: { IE a = ie(e.arg(0)); if (!a.ok) return no; return mkIE(-ieX[a.x] - 1, -a.hi - 1, -a.lo - 1); }
        case Z3_OP_BAND: case Z3_OP_BOR: case Z3_OP_BXOR: {   // values in [-2, 1]: the low bit and the sign bit determine the value
            z3::expr bl(*Z), sg(*Z); bool nneg = true, npos = true;
            for (unsigned i = 0; i < n; ++i) { IE a = ie(e.arg(i)); if (!a.ok || a.lo < -2 || a.hi > 1) return no; nneg &= a.lo >= 0; npos &= a.hi <= 0;
                z3::expr s = ieX[a.x] < 0, b = ieX[a.x] == 1 || ieX[a.x] == -1; if (!i) { bl = b; sg = s; } else if (k == Z3_OP_BAND) { bl = bl && b; sg = sg && s; } else if (k == Z3_OP_BOR) { bl = bl || b; sg = sg || s; } else { bl = bl != b; sg = sg != s; } }
            if (nneg) return mkIE(z3::ite(bl, iNum(1), iNum(0)), 0, 1); if (w == 1) return mkIE(z3::ite(bl, iNum(-1), iNum(0)), -1, 0);
            return mkIE(z3::ite(sg, z3::ite(bl, iNum(-1), iNum(-2)), z3::ite(bl, iNum(1), iNum(0))), -2, 1); }
        case Z3_OP_ZERO_EXT: return zx(ie(e.arg(0)), e.arg(0).get_sort().bv_size());
        case Z3_OP_CONCAT: { unsigned wl = e.arg(n - 1).get_sort().bv_size(); IE l = zx(ie(e.arg(n - 1)), wl); if (!l.ok) return no;
            for (unsigned i = n - 1; i-- > 0;) { unsigned wh = e.arg(i).get_sort().bv_size(); IE h = ie(e.arg(i)); if (!h.ok) return no; if (i) h = zx(h, wh); if (!h.ok) return no;
                if (h.lo != 0 || h.hi != 0) { if (wl > 40) return no; __int128 m = (__int128)1 << wl, M = ((__int128)1 << 62) / m; if (h.lo < -M || h.hi > M) return no; l = mkIE(iNum(m) * ieX[h.x] + ieX[l.x], h.lo * m + l.lo, h.hi * m + l.hi); }
                wl += wh; }
            return l; }
        case Z3_OP_EXTRACT: { int xl = Z3_get_decl_int_parameter(*Z, e.decl(), 1); IE a = ie(e.arg(0)); if (!a.ok) return no; if (xl) { if (xl > 60) return no; __int128 m = (__int128)1 << xl; IE r; r.lo = a.lo >> xl; r.hi = a.hi >> xl; r.ok = true; if (!fits(r, w)) return no; return mkIE(ieX[a.x] / iNum(m), r.lo, r.hi); } if (w == 1 && a.lo >= 0 && a.hi <= 1) return mkIE(-ieX[a.x], -a.hi, -a.lo); if (!fits(a, w)) return no; return a; }
        default: return no;
        }
    }
    bool ib(const z3::expr& e, z3::expr* out) {   // boolean condition over such terms
        if (e.is_true() || e.is_false()) { *out = e; return true; } if (!e.is_app()) return false;
        auto k = e.decl().decl_kind(); unsigned n = e.num_args(); z3::expr a(*Z), b(*Z);
        switch (k) {
        case Z3_OP_NOT: if (!ib(e.arg(0), &a)) return false; *out = !a; return true;
        case Z3_OP_AND: case Z3_OP_OR: { z3::expr_vector v(*Z); for (unsigned i = 0; i < n; ++i) { if (!ib(e.arg(i), &a)) return false; v.push_back(a); } *out = k == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v); return true; }
        case Z3_OP_XOR: if (!ib(e.arg(0), &a) || !ib(e.arg(1), &b)) return false; *out = a != b; return true;
        case Z3_OP_ITE: { z3::expr c(*Z); if (!ib(e.arg(0), &c) || !ib(e.arg(1), &a) || !ib(e.arg(2), &b)) return false; *out = z3::ite(c, a, b); return true; }
        case Z3_OP_EQ: case Z3_OP_IFF: if (e.arg(0).is_bool()) { if (!ib(e.arg(0), &a) || !ib(e.arg(1), &b)) return false; *out = a == b; return true; }
        case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT: {
            if (n != 2 || !e.arg(0).is_bv()) return false; IE x = ie(e.arg(0)), y = ie(e.arg(1)); if (!x.ok || !y.ok) return false; bool uns = k == Z3_OP_ULEQ || k == Z3_OP_ULT || k == Z3_OP_UGEQ || k == Z3_OP_UGT; unsigned bw = e.arg(0).get_sort().bv_size();
            z3::expr p = ieX[x.x], q = ieX[y.x]; if (uns) { z3::expr W = Z->int_val(bw == 64 ? "18446744073709551616" : std::to_string((uint64_t)1 << bw).c_str()); if (x.lo < 0) p = z3::ite(p < 0, p + W, p); if (y.lo < 0) q = z3::ite(q < 0, q + W, q); } switch (k) { case Z3_OP_EQ: case Z3_OP_IFF: *out = p == q; break; case Z3_OP_SLEQ: case Z3_OP_ULEQ: *out = p <= q; break; case Z3_OP_SLT: case Z3_OP_ULT: *out = p < q; break; case Z3_OP_SGEQ: case Z3_OP_UGEQ: *out = p >= q; break; default: *out = p > q; } return true; }
        default: return false;
        }
    }
    void liAdd(const z3::expr& e) { if (!iOK) return; z3::expr o(*Z); if (ib(e, &o)) iS->add(o); else { iOK = false; if (getenv("VC_LIA_DEBUG")) fprintf(stderr, "no integer form: %s\n", e.to_string().substr(0, 1500).c_str()); } }
    // 1 sat 0 unsat 2 unknown, 3 no translation; the path condition (integer part) plus e
    int liCheck(const std::vector<z3::expr>& es, std::map<std::string, std::string>* model = nullptr) {
        if (!iOK) return 3; std::vector<z3::expr> os; for (auto& e : es) { z3::expr o(*Z); if (!ib(e, &o)) { if (getenv("VC_LIA_DEBUG")) fprintf(stderr, "no integer form: %s\n", e.to_string().substr(0, 1500).c_str()); return 3; } os.push_back(o); }
        ++nLia; iS->push(); for (auto& o : os) iS->add(o); auto c = iS->check(); int r = c == z3::sat ? 1 : c == z3::unsat ? 0 : 2;
        if (r == 1 && model) { z3::model m = iS->get_model(); for (auto& v : ivars) { std::string t = std::to_string(v.val); if (!v.choose) { int64_t x = 0; z3::expr q = m.eval(Z->int_const(v.name.c_str()), true); q.is_numeral_i64(x); t = std::to_string(x); } (*model)[v.name] = t; } }
        iS->pop(); return r;
    }
    int bvCheck(const z3::expr& e) { double t0 = now(); int r = liCheck({e}); if (r == 0 || r == 1) { solverSecs += now() - t0; return r; } bvS->push(); bvS->add(e); auto c = bvS->check(); bvS->pop(); solverSecs += now() - t0; return c == z3::sat ? 1 : c == z3::unsat ? 0 : 2; }
    void addPC(uint32_t id, bool pol) {
        pc.push_back({id, pol}); const BoolN n = bools[id]; if (n.hasR) { if (ordPure) ordLearn(id, pol); if (!ordPure) syncFacts(); }
        if (n.hasR) pcReal = true; if (n.hasR && n.hasB) pcMixed = true;
        if (!n.hasR) { z3::expr e = boolZ3(id); bvS->add(pol ? e : !e); liAdd(pol ? e : !e); } else refilter();
    }
    bool feasible(uint32_t id, bool pol) {
        const BoolN n = bools[id];
        if (!n.hasR && !pcMixed) { z3::expr e = boolZ3(id); return bvCheck(pol ? e : !e) != 0; }
        if (ordPure && !n.hasB && !pcMixed && nonzeroNodes.empty()) { int x = ordVal(id); if (x != 2) return (bool)x == pol; if (ordAtom(id)) return true; }
        if (!pcMixed && !n.hasB) { replenish(3); for (int i : active) { int x = sampleBool(*pool[i], id); if (x != 2 && (bool)x == pol) return true; } }
        if (n.hasR) { int im = implied(id); if (im != 2) return (bool)im == pol; }
        z3::expr e = boolZ3(id);
        return z3check({pol ? e : !e}, false) != 0;
    }
    bool decide(const V& v) {
        if (v.k == KC) return v.c & 1;
        if (v.k == KU || v.k == KX) throw Violation{"uninitialised", "a branch depends on an uninitialised value"};
        if (v.k != KB) throw Unsupported{"branch on a value that is not a boolean"};
        if (now() > deadline) throw TimeUp{"time limit"};
        uint32_t id = v.ref;
        for (auto& p : pc) if (p.first == id) return p.second;
        if (const BoolN n = bools[id]; n.t == BREAL) for (auto& p : pc) { const BoolN m = bools[p.first]; if (m.t == BREAL && m.pred == n.pred && m.a == n.a && m.b == n.b) return p.second; }
        if (decPos < dec.size()) { int64_t d = dec[decPos++].v; if (!(d & 2)) addPC(id, d & 1); return d & 1; }
        bool t = feasible(id, true), f = feasible(id, false);
        if (!t && !f) throw PathEnd();
        if (t && f) { auto w = dec; w.push_back({0}); work.push_back(w); dec.push_back({1}); ++decPos; addPC(id, true); return true; }
        dec.push_back({t ? 3 : 2}); ++decPos;  // forced: implied by the path condition
        return t;
    }
    uint64_t concretize(const V& v, unsigned w) {
        if (v.k == KC) return v.c;
        if (v.k == KU || v.k == KX) throw Violation{"uninitialised", "an uninitialised value is used as an address, size or index"};
        if (v.k != KBV && v.k != KB) throw Unsupported{"cannot enumerate this value"};
        z3::expr e = toBV(v, w);
        if (decPos < dec.size()) { int64_t x = dec[decPos++].v; V c; mkBoolZ(e == Z->bv_val((uint64_t)x, w), &c); if (c.k == KB) addPC(c.ref, true); return (uint64_t)x; }
        std::vector<uint64_t> vals; double t0 = now();
        bvS->push();
        while (vals.size() < 600) { auto c = bvS->check(); if (c != z3::sat) { if (c == z3::unknown) { bvS->pop(); throw Unsupported{"solver gave up while enumerating an index"}; } break; } z3::expr m = bvS->get_model().eval(e, true); uint64_t u = 0; m.is_numeral_u64(u); vals.push_back(u); bvS->add(e != Z->bv_val(u, w)); }
        bvS->pop(); solverSecs += now() - t0;
        if (vals.size() >= 600) throw Unsupported{"too many values for a symbolic address, size or index"};
        if (vals.empty()) throw PathEnd();
        std::sort(vals.begin(), vals.end());
        for (size_t i = vals.size(); i-- > 1;) { auto wk = dec; wk.push_back({(int64_t)vals[i]}); work.push_back(wk); }
        dec.push_back({(int64_t)vals[0]}); ++decPos; V c; mkBoolZ(e == Z->bv_val(vals[0], w), &c); if (c.k == KB) addPC(c.ref, true);
        return vals[0];
    }
    long chooseRange(long lo, long hi) {
        if (decPos < dec.size()) return dec[decPos++].v;
        for (long x = hi; x > lo; --x) { auto w = dec; w.push_back({x}); work.push_back(w); }
        dec.push_back({lo}); ++decPos; return lo;
    }
    // ---------------------------------------------------------------- reals
    NodeId node(const V& v, uint8_t tk) {
        if (v.k == KR) return v.ref;
        if (v.k == KC) { double d = tk == TF ? (double)bitsF(v.c) : bitsD(v.c); if (!std::isfinite(d)) throw Unsupported{"non-finite constant meets a symbolic real"}; return R.fromDouble(d); }
        if (v.k == KU || v.k == KX) throw Violation{"uninitialised", "an uninitialised floating-point value is used"};
        throw Unsupported{"value has no real form"};
    }
    V fbin(unsigned op, const V& a, const V& b, uint8_t tk) {
        if (a.k == KC && b.k == KC) {
            if (tk == TD) { double x = bitsD(a.c), y = bitsD(b.c), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } return vc_(dBits(r)); }
            float x = bitsF(a.c), y = bitsF(b.c), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } return vc_(fBits(r));
        }
        if (a.k == KU || b.k == KU) return vu_();
        if (a.k == KX || b.k == KX) return vu_();
        auto nonfin = [&](const V& v) { return v.k == KC && !std::isfinite(tk == TF ? (double)bitsF(v.c) : bitsD(v.c)); };
        if (op == Instruction::FAdd) { if (nonfin(a)) return a; if (nonfin(b)) return b; }
        if (op == Instruction::FSub) { if (nonfin(a)) return a; if (nonfin(b)) return tk == TD ? vc_(dBits(-bitsD(b.c))) : vc_(fBits(-bitsF(b.c))); }
        if (op == Instruction::FDiv && nonfin(b) && !std::isnan(bitsD(b.c))) return vc_(0);
        NodeId x = node(a, tk), y = node(b, tk), r;
        switch (op) { case Instruction::FAdd: r = R.add(x, y); break; case Instruction::FSub: r = R.sub(x, y); break; case Instruction::FMul: r = R.mul(x, y); break;
        case Instruction::FDiv: noteDiv(y); r = R.div(x, y); break; default: throw Unsupported{"fmod of a symbolic real"}; }
        return vr_(r);
    }
    void noteDiv(NodeId d) {
        mpq_class q; if (R.isConst(d, &q)) { if (q == 0) throw Violation{"division", "division by zero"}; return; }
        if (!divSeen.insert(d).second) return;
        if (knownNonzero(d)) { ++execCount["denominators proved nonzero"]; return; }
        try { pl::g_ops = 0; pl::g_ops_limit = 2e7; pl::Poly p = R.rat(d).num; addFact(p, 5); } catch (pl::TooBig&) {}
        ++execCount["denominators assumed nonzero"];
        if (assumptions.size() < 40) { std::string s; try { pl::g_ops = 0; pl::g_ops_limit = 2e7; s = R.show(R.rat(d), 6); } catch (...) { s = "(large expression)"; } if (s.size() > 200) s = s.substr(0, 200) + "..."; assumptions.insert("denominator assumed nonzero (non-degenerate input): " + s); }
    }
    bool knownNonzero(NodeId d) {
        for (NodeId n : nonzeroNodes) if (n == d) return true;
        try {
            pl::g_ops = 0; pl::g_ops_limit = 5e7;
            pl::Poly p = R.rat(d).num; if (p.zero()) throw Violation{"division", "division by an expression that is identically zero"};
            if (p.isConst()) return true;
            for (int g = 0; g < 8; ++g) { bool ch = false; for (NodeId n : nonzeroNodes) { const pl::Poly& f = R.rat(n).num; pl::Poly q; if (f.isConst()) continue; if (R.divides(p, f, q)) { p = q; ch = true; if (p.isConst()) return true; } } if (!ch) break; }
        } catch (pl::TooBig&) {}
        for (auto& p : pc) { const BoolN n = bools[p.first]; if (n.t == BREAL) { mpq_class q; bool az = R.isConst(n.a, &q) && q == 0, bz = R.isConst(n.b, &q) && q == 0;
            if (n.pred == 0 && !p.second && ((n.a == d && bz) || (n.b == d && az))) return true;
            if (n.pred == 1 && p.second && ((n.a == d && bz) || (n.b == d && az))) return true; } }
        if (!(signNode(d) & 2)) return true;
        if (pc.empty()) return false;
        unsigned sv = g_z3_ms; g_z3_ms = 300; int r = 2; try { r = z3check({realZ3(d) == 0}, false); } catch (...) {} g_z3_ms = sv; return r == 0;
    }
    // ---- sign reasoning over canonical forms. masks: 1 negative, 2 zero, 4 positive
    struct Fact { pl::Poly p; int mask; };
    std::vector<Fact> facts;
    static int smul(int a, int b) { int r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if ((a >> i & 1) && (b >> j & 1)) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); } return r; }
    static int sneg(int a) { return (a & 2) | (a & 1 ? 4 : 0) | (a & 4 ? 1 : 0); }
    void addFact(const pl::Poly& p0, int mask) {
        if (p0.isConst()) return; mpq_class lc = R.leadCoef(p0); if (lc < 0) mask = sneg(mask); pl::Poly p = p0.scale(1 / lc);
        for (auto& f : facts) if (f.p == p) { f.mask &= mask; return; }
        if (facts.size() < 200) facts.push_back({p, mask});
    }
    int signAtom(uint32_t v) {
        auto& a = R.atoms[v]; int m = 7;
        if (a.k == rl::Ctx::Atom::Fun) { if (a.fn == Fn::Sqrt) m = 6; else if (a.fn == Fn::Exp || a.fn == Fn::Cosh) m = 4; else if (a.fn == Fn::Abs) m = 6; }
        pl::Poly p = pl::Poly::V(v); for (auto& f : facts) if (f.p == p) m &= f.mask;
        if (a.k == rl::Ctx::Atom::Fun && a.fn == Fn::Sqrt && (m & 2)) { if (!(signRat(a.a, 1) & 2)) m &= ~2; }
        return m;
    }
    size_t learned = 0; bool syncing = false;   // facts of the path condition are derived on demand while it consists of order constraints only
    void syncFacts() { if (syncing) return; syncing = true; while (learned < pc.size()) { auto q = pc[learned++]; if (bools[q.first].hasR) learn(q.first, q.second); } syncing = false; }
    int signPoly(pl::Poly p, int depth = 0) {
        if (!depth) syncFacts();
        if (p.zero()) return 2; if (p.isConst()) return p.constVal() < 0 ? 1 : 4;
        int m = 4; pl::Poly q;
        { mpq_class lc = R.leadCoef(p); if (lc < 0) { m = 1; } p = p.scale(1 / lc); if (lc < 0) {} }
        for (int g = 0; g < 6 && !p.isConst(); ++g) { bool ch = false; for (auto& f : facts) if (f.p.t.size() > 1 && R.divides(p, f.p, q)) { m = smul(m, f.mask); p = q; ch = true; if (p.isConst()) break; } if (!ch) break; }
        if (!p.isConst() && depth < 3) for (size_t i = 0; i < R.atoms.size() && !p.isConst(); ++i) { auto& a = R.atoms[i]; if (a.k != rl::Ctx::Atom::Fun || a.fn != Fn::Sqrt || a.a.num.t.size() < 2) continue; int ds = 4; for (auto& k : a.a.den) if (k.second % 2) ds = smul(ds, signPoly(R.factors[k.first], depth + 1) & 5); if (ds != 4 && ds != 1) continue;
            if (R.divides(p, a.a.num, q)) { m = smul(m, ds == 4 ? 6 : 3); p = q; } }
        if (p.isConst()) return smul(m, p.constVal() < 0 ? 1 : 4);
        // common monomial
        std::map<uint32_t, uint32_t> g; bool first = true;
        for (auto& k : p.t) { std::map<uint32_t, uint32_t> e; for (uint32_t x : k.first) e[x >> 8] = x & 255; if (first) { g = e; first = false; } else for (auto it = g.begin(); it != g.end();) { auto f = e.find(it->first); if (f == e.end()) it = g.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } }
        if (!g.empty()) { pl::Poly d = pl::Poly::C(1); for (auto& k : g) for (uint32_t i = 0; i < k.second; ++i) d = pl::mul(d, pl::Poly::V(k.first)); if (p.t.size() == 1) { mpq_class c = p.t.begin()->second; p = pl::Poly::C(c); } else if (R.divides(p, d, q)) p = q; else g.clear();
            for (auto& k : g) { int s = signAtom(k.first); if (k.second % 2 == 0) s = (s & 2) | (s & 5 ? 4 : 0); m = smul(m, s); } }
        if (p.isConst()) return smul(m, p.constVal() < 0 ? 1 : 4);
        // every term of known sign?
        int acc = 0; bool ok = true;
        for (auto& k : p.t) { int t = k.second < 0 ? 1 : 4; for (uint32_t x : k.first) { int s = signAtom(x >> 8); if ((x & 255) % 2 == 0) s = (s & 2) | (s & 5 ? 4 : 0); t = smul(t, s); } if (acc == 0) acc = t; else { int n = 0; // sum of signs
                for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if ((acc >> i & 1) && (t >> j & 1)) { int a = i - 1, b = j - 1; if (a == 0) n |= 1 << (b + 1); else if (b == 0 || a == b) n |= 1 << (a + 1); else n |= 7; } acc = n; } if (acc == 7) { ok = false; break; } }
        if (ok) return smul(m, acc);
        return smul(m, 7);
    }
    int signRat(const rl::RatFun& r, int depth = 0) { int m = signPoly(r.num, depth); for (auto& k : r.den) { int s = signPoly(R.factors[k.first], depth) & 5; if (k.second % 2 == 0) s = 4; m = smul(m, s); } return m; }
    int signNode(NodeId d, double budget = 3e7) { try { pl::g_ops = 0; pl::g_ops_limit = budget; rl::RatFun r = R.rat(d); return signRat(r); } catch (pl::TooBig&) { return 7; } }
    // linear arithmetic over monomials: refine the possible signs of a numerator using every recorded sign fact
    std::map<std::string, int> linMemo;
    int linSign(const pl::Poly& p, int m) {
        if (facts.empty() || p.t.size() > 400 || !m) return m;
        double t0 = now(); std::unordered_map<pl::Mono, unsigned, pl::MonoHash> id; std::vector<z3::expr> vars; z3::solver s(*Z); { z3::params q(*Z); q.set("timeout", 2000u); s.set(q); }
        auto lin = [&](const pl::Poly& f) { z3::expr_vector tv(*Z); for (auto& k : f.t) { z3::expr c = Z->real_val(k.second.get_str().c_str()); if (k.first.empty()) { tv.push_back(c); continue; } auto it = id.find(k.first); if (it == id.end()) { id[k.first] = vars.size(); z3::expr v = Z->real_const(("mono!" + std::to_string(vars.size())).c_str()); vars.push_back(v); int sg = 4; for (uint32_t x : k.first) { int a = signAtom(x >> 8); if ((x & 255) % 2 == 0) a = (a & 2) | (a & 5 ? 4 : 0); sg = smul(sg, a); } if (!(sg & 1)) s.add((sg & 2) ? v >= 0 : v > 0); else if (!(sg & 4)) s.add((sg & 2) ? v <= 0 : v < 0); it = id.find(k.first); } tv.push_back(c * vars[it->second]); } return tv.size() ? z3::sum(tv) : Z->real_val(0); };
        auto con = [&](const z3::expr& e, int mask) -> z3::expr { switch (mask) { case 1: return e < 0; case 2: return e == 0; case 3: return e <= 0; case 4: return e > 0; case 6: return e >= 0; default: return Z->bool_val(true); } };
        z3::expr g = lin(p); std::unordered_set<uint32_t> used; for (auto& k : p.t) for (uint32_t x : k.first) used.insert(x >> 8);
        // facts sharing atoms, transitively
        std::vector<char> in(facts.size(), 0); bool ch = true; size_t terms = p.t.size();
        while (ch) { ch = false; for (size_t i = 0; i < facts.size(); ++i) if (!in[i] && facts[i].mask != 5 && facts[i].mask != 7 && facts[i].p.t.size() <= 400 && terms < 6000) { bool sh = false; for (auto& k : facts[i].p.t) { for (uint32_t x : k.first) if (used.count(x >> 8)) { sh = true; break; } if (sh) break; } if (sh) { in[i] = 1; ch = true; terms += facts[i].p.t.size(); for (auto& k : facts[i].p.t) for (uint32_t x : k.first) used.insert(x >> 8); s.add(con(lin(facts[i].p), facts[i].mask)); } } }
        for (int b = 1; b <= 4; b <<= 1) if (m & b) { s.push(); s.add(con(g, b)); if (s.check() == z3::unsat) m &= ~b; s.pop(); }
        solverSecs += now() - t0; return m;
    }
    int signNodeLin(NodeId d, int T) {
        int m = signNode(d); if (!(m & ~T) || !(m & T)) return m;
        try { pl::g_ops = 0; pl::g_ops_limit = 3e7; rl::RatFun r = R.rat(d); int ds = 4; for (auto& k : r.den) { int s = signPoly(R.factors[k.first]) & 5; if (k.second % 2 == 0) s = 4; ds = smul(ds, s); }
            if (ds == 4) m &= linSign(r.num, m); else if (ds == 1) m &= sneg(linSign(r.num, sneg(m))); } catch (pl::TooBig&) {} catch (z3::exception&) {}
        return m;
    }
    // ---- order constraints between variables and constants: transitive closure, complete over the reals while the path condition has nothing else
    struct Order {
        std::vector<NodeId> nd; std::unordered_map<NodeId, int> ix; std::vector<std::vector<uint8_t>> m; std::vector<std::pair<int, int>> ne; bool bad = false;
        void clear() { nd.clear(); ix.clear(); m.clear(); ne.clear(); bad = false; }
        void add(int i, int j, uint8_t s) {   // x_i <= x_j (s = 1) or x_i < x_j (s = 2)
            if (i == j) { if (s == 2) bad = true; return; }
            if (m[i][j] >= s) return; int n = nd.size();
            for (int p = 0; p < n; ++p) { uint8_t a = p == i ? 1 : m[p][i]; if (!a) continue; for (int q = 0; q < n; ++q) { uint8_t b = q == j ? 1 : m[j][q]; if (!b) continue; uint8_t t = std::max(s, std::max(a, b)); if (p == q) { if (t == 2) bad = true; continue; } if (m[p][q] < t) m[p][q] = t; } }
            for (size_t k = 0; k < ne.size(); ++k) { auto e = ne[k]; if (m[e.first][e.second] == 1) add(e.first, e.second, 2); if (m[e.second][e.first] == 1) add(e.second, e.first, 2); }
        }
        void differ(int i, int j) { if (i == j) { bad = true; return; } ne.emplace_back(i, j); if (m[i][j] && m[j][i]) bad = true; else if (m[i][j] == 1) add(i, j, 2); else if (m[j][i] == 1) add(j, i, 2); }
        bool isNe(int i, int j) const { for (auto& e : ne) if ((e.first == i && e.second == j) || (e.first == j && e.second == i)) return true; return m[i][j] == 2 || m[j][i] == 2; }
        int atom(int pred, int i, int j) const { if (pred == 0) return m[i][j] && m[j][i] ? 1 : isNe(i, j) ? 0 : 2; if (pred == 1) return m[i][j] == 2 ? 1 : m[j][i] ? 0 : 2; return m[i][j] ? 1 : m[j][i] == 2 ? 0 : 2; }
    } ord; bool ordPure = true;
    int ordIx(NodeId x) {   // -1: not a variable or constant
        auto it = ord.ix.find(x); if (it != ord.ix.end()) return it->second;
        mpq_class q, q2; bool c = R.isConst(x, &q); if (!c && R.nodes[x].op != rl::Op::Var) return -1;
        int k = ord.nd.size(); ord.nd.push_back(x); ord.ix[x] = k; for (auto& r : ord.m) r.push_back(0); ord.m.emplace_back(k + 1, 0);
        if (c) for (int i = 0; i < k; ++i) if (R.isConst(ord.nd[i], &q2)) { if (q2 < q) ord.add(i, k, 2); else ord.add(k, i, 2); }
        return k;
    }
    void ordLearn(uint32_t id, bool pol, int depth = 0) {
        const BoolN n = bools[id]; if (depth > 20) { ordPure = false; return; }
        if (n.t == BNOT) return ordLearn(n.a, !pol, depth + 1);
        if ((n.t == BAND && pol) || (n.t == BOR && !pol)) { ordLearn(n.a, pol, depth + 1); ordLearn(n.b, pol, depth + 1); return; }
        if (n.t == BREAL && ordPure) { int i = ordIx(n.a), j = i < 0 ? -1 : ordIx(n.b); if (j >= 0) { if (n.pred == 0) { if (pol) ord.add(i, j, 1), ord.add(j, i, 1); else ord.differ(i, j); } else if (n.pred == 1) { if (pol) ord.add(i, j, 2); else ord.add(j, i, 1); } else { if (pol) ord.add(i, j, 1); else ord.add(j, i, 2); } return; } }
        if (ordPure) { int x = ordVal(id); if (x != 2 && (bool)x == pol) return; }
        ordPure = false;
    }
    int ordVal(uint32_t id, int depth = 0) {   // 1 implied true, 0 implied false, 2 unknown; for a single comparison of variables unknown means both are possible
        const BoolN n = bools[id]; if (depth > 20) return 2;
        switch (n.t) {
        case BNOT: { int x = ordVal(n.a, depth + 1); return x == 2 ? 2 : !x; }
        case BAND: { int x = ordVal(n.a, depth + 1); if (x == 0) return 0; int y = ordVal(n.b, depth + 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : 2; }
        case BOR: { int x = ordVal(n.a, depth + 1); if (x == 1) return 1; int y = ordVal(n.b, depth + 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : 2; }
        case BREAL: { int i = ordIx(n.a), j = i < 0 ? -1 : ordIx(n.b); return j < 0 ? 2 : ord.atom(n.pred, i, j); }
        default: return 2;
        }
    }
    bool ordAtom(uint32_t id) { const BoolN* n = &bools[id]; while (n->t == BNOT) n = &bools[n->a]; return n->t == BREAL && ordIx(n->a) >= 0 && ordIx(n->b) >= 0; }
    void learn(uint32_t id, bool pol, int depth = 0) {
        const BoolN n = bools[id]; if (depth > 20) return;
        if (n.t == BNOT) return learn(n.a, !pol, depth + 1);
        if ((n.t == BAND && pol) || (n.t == BOR && !pol)) { learn(n.a, pol, depth + 1); learn(n.b, pol, depth + 1); return; }
        if (n.t != BREAL) return;
        static const int mk[3][2] = {{5, 2}, {6, 1}, {4, 3}}; int mask = mk[n.pred][pol];
        try { pl::g_ops = 0; pl::g_ops_limit = 3e7; rl::RatFun r = R.rat(R.sub(n.a, n.b)); int ds = 4; for (auto& k : r.den) { int s = signPoly(R.factors[k.first]) & 5; if (k.second % 2 == 0) s = 4; ds = smul(ds, s); }
            if (ds == 4) addFact(r.num, mask); else if (ds == 1) addFact(r.num, sneg(mask)); else addFact(r.num, (mask == 2 || mask == 5) ? mask : 7); } catch (pl::TooBig&) {}
    }
    // 1 implied true, 0 implied false, 2 unknown
    int implied(uint32_t id, int depth = 0) {
        const BoolN n = bools[id]; if (depth > 20) return 2;
        switch (n.t) {
        case BNOT: { int x = implied(n.a, depth + 1); return x == 2 ? 2 : !x; }
        case BAND: { int x = implied(n.a, depth + 1); if (x == 0) return 0; int y = implied(n.b, depth + 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : 2; }
        case BOR: { int x = implied(n.a, depth + 1); if (x == 1) return 1; int y = implied(n.b, depth + 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : 2; }
        case BREAL: { int T = n.pred == 0 ? 2 : n.pred == 1 ? 1 : 3; int m = signNodeLin(R.sub(n.a, n.b), T); if (!(m & ~T)) return 1; if (!(m & T)) return 0; return 2; }
        default: return 2;
        }
    }
    V rcmp(uint8_t pred, NodeId a, NodeId b) {
        mpq_class x, y; bool ca = R.isConst(a, &x), cb = R.isConst(b, &y);
        if (ca && cb) return vc_(pred == 0 ? x == y : pred == 1 ? x < y : x <= y);
        if (a == b) return vc_(pred != 1);
        if (pred == 0 && a > b) std::swap(a, b);
        return mkBoolN(BREAL, pred, a, b, true, false);
    }
    V fcmp(unsigned p, const V& a, const V& b, uint8_t tk) {
        if (a.k == KC && b.k == KC) {
            double x = tk == TF ? bitsF(a.c) : bitsD(a.c), y = tk == TF ? bitsF(b.c) : bitsD(b.c); bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (p) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
            return vc_(r);
        }
        if (a.k == KU || b.k == KU || a.k == KX || b.k == KX) return vu_();
        if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_UNO) { double x = 0; if (a.k == KC) x = bitsD(a.c); if (b.k == KC) x = bitsD(b.c); bool un = tk == TD && std::isnan(x); return vc_(p == CmpInst::FCMP_UNO ? un : !un); }
        if (p == CmpInst::FCMP_TRUE) return vc_(1); if (p == CmpInst::FCMP_FALSE) return vc_(0);
        for (int s = 0; s < 2; ++s) { const V& c = s ? b : a; if (c.k != KC) continue; double d = tk == TF ? bitsF(c.c) : bitsD(c.c);
            if (std::isnan(d)) return vc_(p >= CmpInst::FCMP_UNO);
            if (std::isinf(d)) { bool lt = (d > 0) == (s == 1); // a < b
                switch (p) { case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vc_(lt); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return vc_(!lt); case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vc_(0); default: return vc_(1); } } }
        NodeId x = node(a, tk), y = node(b, tk);
        switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return rcmp(0, x, y); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return bnot(rcmp(0, x, y));
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return rcmp(1, x, y); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return rcmp(2, x, y);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return rcmp(1, y, x); default: return rcmp(2, y, x); }
    }
    V mathFn(Fn f, const V& a, uint8_t tk, double (*cf)(double)) {
        if (a.k == KC) { if (tk == TF) return vc_(fBits((float)cf(bitsF(a.c)))); return vc_(dBits(cf(bitsD(a.c)))); }
        if (a.k == KU || a.k == KX) return vu_();
        NodeId n = node(a, tk); mpq_class q;
        if (R.isConst(n, &q) && q == 0) { double r = cf(0.0); if (r == 0 || r == 1) return vr_(R.constant(mpq_class(r))); }
        if (R.isConst(n, &q) && q == 1 && (f == Fn::Sqrt || f == Fn::Cbrt || f == Fn::Log)) return vr_(R.constant(f == Fn::Log ? 0 : 1));
        if (f == Fn::Sqrt || f == Fn::Log) ++execCount[f == Fn::Sqrt ? "sqrt arguments assumed >= 0" : "log arguments assumed > 0"];
        if (f == Fn::Sqrt && g_sqrt_split) try {
            pl::g_ops = 0; pl::g_ops_limit = 3e7; auto den = R.rat(n).den; NodeId m = n, D = R.constant(1); bool ch = false;
            for (auto& k : den) { int h = k.second / 2; if (!h || R.factors[k.first].t.size() > 200) continue; pl::Poly q = R.factors[k.first]; int s = signPoly(q); if (s != 1 && s != 4) continue; NodeId p = polyNode(q); if (s == 1) p = R.neg(p); for (int i = 0; i < h; ++i) { m = R.mul(m, R.mul(p, p)); D = R.mul(D, p); } ch = true; }
            if (ch) return vr_(R.div(R.fn1(f, m), D));
        } catch (pl::TooBig&) {}
        return vr_(R.fn1(f, n));
    }
    NodeId polyNode(const pl::Poly& p) {
        NodeId s = R.constant(0); bool first = true;
        for (auto& k : p.t) { NodeId t = R.constant(k.second); for (uint32_t x : k.first) for (uint32_t i = 0; i < (x & 255); ++i) t = R.mul(t, R.atoms[x >> 8].node); s = first ? t : R.add(s, t); first = false; }
        return s;
    }
    V namedFn(const char* nm, const V& a, const V* b, double (*cf)(double, double)) {   // a library function the verifier knows by name only
        if (a.k == KU || a.k == KX || (b && (b->k == KU || b->k == KX))) return vu_();
        if (a.k == KC && (!b || b->k == KC)) return vc_(dBits(cf(bitsD(a.c), b ? bitsD(b->c) : 0)));
        if (a.k == KR && !b) { mpq_class q; if (R.isConst(a.ref, &q)) return vr_(R.fromDouble(cf(q.get_d(), 0))); }
        uint32_t i; auto& u = R.ufNames; for (i = 0; i < u.size(); ++i) if (u[i] == nm) break; if (i == u.size()) u.push_back(nm);
        return vr_(b ? R.fn2(Fn::Uf, node(a, TD), node(*b, TD), i) : R.fn1(Fn::Uf, node(a, TD), i));
    }
    // ---------------------------------------------------------------- integers
    V ibin(unsigned op, const V& a, const V& b, unsigned w) {
        if (a.k == KC && b.k == KC && w <= 64) {
            uint64_t x = a.c, y = b.c, r = 0;
            switch (op) {
            case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: if (y >= w) throw Violation{"shift", "shift count out of range"}; r = x << y; break;
            case Instruction::LShr: if (y >= w) throw Violation{"shift", "shift count out of range"}; r = x >> y; break;
            case Instruction::AShr: if (y >= w) throw Violation{"shift", "shift count out of range"}; r = (uint64_t)(sext(x, w) >> y); break;
            case Instruction::UDiv: if (!y) throw Violation{"division", "integer division by zero"}; r = x / y; break;
            case Instruction::URem: if (!y) throw Violation{"division", "integer division by zero"}; r = x % y; break;
            case Instruction::SDiv: case Instruction::SRem: { if (!y) throw Violation{"division", "integer division by zero"}; int64_t sx = sext(x, w), sy = sext(y, w); if (sy == -1) r = op == Instruction::SDiv ? (uint64_t)(0 - (uint64_t)sx) : 0; else r = (uint64_t)(op == Instruction::SDiv ? sx / sy : sx % sy); break; }
            }
            return vc_(maskw(r, w));
        }
        if (w == 1) { if (a.k == KU || b.k == KU) { if (op == Instruction::And) { if ((a.k == KC && !a.c) || (b.k == KC && !b.c)) return vc_(0); } if (op == Instruction::Or) { if ((a.k == KC && a.c) || (b.k == KC && b.c)) return vc_(1); } return vu_(); }
            if (op == Instruction::And) return band(a, b, false); if (op == Instruction::Or) return band(a, b, true);
            if (op == Instruction::Xor) { if (b.k == KC) return b.c & 1 ? bnot(a) : a; if (a.k == KC) return a.c & 1 ? bnot(b) : b; return band(band(a, bnot(b), false), band(bnot(a), b, false), true); } }
        if (a.k == KX || b.k == KX) return xop(op, a, b, w);
        if (a.k == KU || b.k == KU) { const V& o = a.k == KU ? b : a; if (o.k == KC && !o.c && (op == Instruction::And || op == Instruction::Mul)) return vc_(0); if (w % 8 == 0 && (op == Instruction::And || op == Instruction::Or)) return xop(op, a, b, w); return vu_(); }
        if (a.k == KC || b.k == KC) { // cheap identities
            const V& c = a.k == KC ? a : b; const V& s = a.k == KC ? b : a;
            if (c.c == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return s;
            if (c.c == 0 && b.k == KC && (op == Instruction::Sub || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return a;
            if (c.c == 0 && (op == Instruction::Mul || op == Instruction::And)) return vc_(0);
            if (c.c == 1 && op == Instruction::Mul) return s;
        }
        z3::expr x = toBV(a, w), y = toBV(b, w);
        switch (op) {
        case Instruction::Add: return mkBV(x + y, w); case Instruction::Sub: return mkBV(x - y, w); case Instruction::Mul: return mkBV(x * y, w);
        case Instruction::And: return mkBV(x & y, w); case Instruction::Or: return mkBV(x | y, w); case Instruction::Xor: return mkBV(x ^ y, w);
        case Instruction::Shl: return mkBV(z3::shl(x, y), w); case Instruction::LShr: return mkBV(z3::lshr(x, y), w); case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
        default: { if (op == Instruction::SDiv && b.k == KC) { V q; if (exactDiv(x, b.c, w, &q)) return q; } V z; mkBoolZ(y == Z->bv_val(0, w), &z); if (decide(z)) throw Violation{"division", "integer division by zero"};
            if (op == Instruction::UDiv) return mkBV(z3::udiv(x, y), w); if (op == Instruction::URem) return mkBV(z3::urem(x, y), w);
            if (op == Instruction::SDiv) return mkBV(x / y, w); return mkBV(z3::srem(x, y), w); }
        }
    }
    std::map<std::string, std::pair<long, long>> intRange;   // range of the symbolic integers made by vc_int
    // x / c when x is c times a symbolic integer whose range excludes overflow: the integer itself
    bool exactDiv(z3::expr x, uint64_t c, unsigned w, V* out) {
        if (w != 64 || (int64_t)c < 2) return false;
        x = x.simplify(); if (!x.is_app() || x.decl().decl_kind() != Z3_OP_BMUL || x.num_args() != 2) return false;
        uint64_t m; z3::expr k = x.arg(0), y = x.arg(1); if (!k.is_numeral()) std::swap(k, y); if (!k.is_numeral_u64(m) || m != c || !y.is_const() || y.is_numeral()) return false;
        auto it = intRange.find(y.decl().name().str()); if (it == intRange.end()) return false;
        const long lim = (1L << 62) / (long)c; if (it->second.first < -lim || it->second.second > lim) return false;
        *out = mkBV(y, w); return true;
    }
    V xop(unsigned op, const V& a, const V& b, unsigned w) {
        if (a.k == KX && b.k == KC && b.c % 8 == 0 && (op == Instruction::LShr || op == Instruction::Shl)) {
            auto x = xs[a.ref]; std::vector<ByteX> r(w / 8, ByteX{1, 0, 0, 0, V()}); size_t k = b.c / 8;
            for (size_t i = 0; i < r.size(); ++i) { if (op == Instruction::LShr) { if (i + k < x.size()) r[i] = x[i + k]; } else if (i >= k) r[i] = x[i - k]; }
            return mkX(r);
        }
        if (op == Instruction::Or || op == Instruction::And) {
            auto bytes = [&](const V& v) { std::vector<ByteX> r(w / 8, ByteX{0, 0, 0, 0, V()}); if (v.k == KC) for (size_t i = 0; i < r.size(); ++i) { r[i].st = 1; r[i].c = v.c >> (8 * i); } else if (v.k == KX) for (size_t i = 0; i < r.size() && i < xs[v.ref].size(); ++i) r[i] = xs[v.ref][i]; return r; };
            auto p = bytes(a), q = bytes(b); std::vector<ByteX> r(w / 8, ByteX{0, 0, 0, 0, V()});
            for (size_t i = 0; i < r.size(); ++i) {
                if (p[i].st == 1 && q[i].st == 1) { r[i].st = 1; r[i].c = op == Instruction::Or ? p[i].c | q[i].c : p[i].c & q[i].c; }
                else for (int s = 0; s < 2; ++s) { auto& c = s ? q[i] : p[i]; auto& o = s ? p[i] : q[i]; if (c.st != 1) continue; if (op == Instruction::And && c.c == 0) r[i] = c; if (op == Instruction::And && c.c == 255) r[i] = o; if (op == Instruction::Or && c.c == 0) r[i] = o; if (op == Instruction::Or && c.c == 255) r[i] = c; } }
            return mkX(r);
        }
        return vu_();
    }
    V icmp(unsigned p, const V& a, const V& b, unsigned w) {
        if (a.k == KC && b.k == KC) {
            uint64_t x = a.c, y = b.c; int64_t sx = sext(x, w), sy = sext(y, w); bool r = false;
            switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; }
            return vc_(r);
        }
        if (a.k == KU || b.k == KU || a.k == KX || b.k == KX) return vu_();
        if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { V x = ibin(Instruction::Xor, a, b, 1); return p == CmpInst::ICMP_NE ? x : bnot(x); }
        z3::expr x = toBV(a, w), y = toBV(b, w); z3::expr e(*Z);
        switch (p) { case CmpInst::ICMP_EQ: e = x == y; break; case CmpInst::ICMP_NE: e = x != y; break; case CmpInst::ICMP_UGT: e = z3::ugt(x, y); break; case CmpInst::ICMP_UGE: e = z3::uge(x, y); break; case CmpInst::ICMP_ULT: e = z3::ult(x, y); break; case CmpInst::ICMP_ULE: e = z3::ule(x, y); break; case CmpInst::ICMP_SGT: e = z3::sgt(x, y); break; case CmpInst::ICMP_SGE: e = z3::sge(x, y); break; case CmpInst::ICMP_SLT: e = z3::slt(x, y); break; default: e = z3::sle(x, y); }
        V o; mkBoolZ(e, &o); return o;
    }
    // ---------------------------------------------------------------- obligations
    std::vector<std::pair<std::string, std::string>> modelOf(Sample* s, const std::map<std::string, std::string>* zm) {
        std::vector<std::pair<std::string, std::string>> m; std::map<std::string, std::string> im; std::map<std::string, std::string> tmp;
        bool symInt = false; for (auto& v : ivars) if (!v.choose) symInt = true;
        if (!zm && symInt) { if (z3checkBV(&tmp)) zm = &tmp; }
        for (auto& v : ivars) { std::string x = std::to_string(v.val); if (!v.choose && zm && zm->count(v.name)) x = zm->at(v.name); m.push_back({v.name, x}); }
        for (auto& r : rvars) { char b[64]; if (s) { sampleEval(*s, r.second); snprintf(b, 64, "%.17Lg", s->ev.varv[R.nodes[r.second].aux]); m.push_back({r.first, b}); } else if (zm && zm->count(r.first)) m.push_back({r.first, zm->at(r.first)}); else m.push_back({r.first, "0.5"}); }
        return m;
    }
    bool z3checkBV(std::map<std::string, std::string>* out) { if (bvS->check() != z3::sat) return false; z3::model m = bvS->get_model(); for (auto& v : ivars) if (!v.choose) { z3::expr e = m.eval(bvs[v.bv], true); uint64_t u = 0; e.is_numeral_u64(u); (*out)[v.name] = std::to_string((long)u); } return true; }
    void refute(const std::string& label, const std::string& det, Sample* s, const std::map<std::string, std::string>* zm) { auto& L = labels[label]; if (!L.refuted) { L.detail = det; L.model = modelOf(s, zm); } ++L.refuted; }
    void failPath(const std::string& label, const std::string& det) {   // the current path itself violates an obligation
        Sample* s = nullptr; std::map<std::string, std::string> zm; bool have = false;
        if (pc.empty()) have = true;
        if (pcReal && !pcMixed) { replenish(1); if (!active.empty()) { s = pool[active[0]].get(); have = true; } }
        if (!have) { int r = z3check({}, true, &zm); if (r == 0) return; if (r == 2) { auto& L = labels[label]; L.undec++; L.detail = det + " (path feasibility unknown)"; return; } }
        else if (!s && !rvars.empty()) { replenish(1); if (!active.empty()) s = pool[active[0]].get(); }
        refute(label, det, s, zm.empty() ? nullptr : &zm);
    }
    void check(const V& v, const std::string& label) {
        auto& L = labels[label];
        if (v.k == KC) { if (v.c & 1) L.exact++; else failPath(label, "condition is false on this path"); return; }
        if (v.k == KU || v.k == KX) { failPath(label, "condition depends on an uninitialised value"); return; }
        const BoolN n = bools[v.ref];
        if (ordPure && n.hasR && !pcMixed && ordVal(v.ref) == 1) { L.exact++; return; }
        if (n.hasR && !n.hasB && !pcMixed) { replenish(3); for (int i : active) if (sampleBool(*pool[i], v.ref) == 0) { refute(label, "condition is false", pool[i].get(), nullptr); return; } }
        if (n.t == BREAL && n.pred == 0) { try { pl::g_ops = 0; pl::g_ops_limit = g_eq_ops; int e = R.equalCanon(n.a, n.b, 1e-10); if (e) { (e == 1 ? L.exact : L.tol)++; return; } } catch (pl::TooBig&) {} }
        if (n.hasR && implied(v.ref) == 1) { L.exact++; return; }
        std::map<std::string, std::string> zm; int r = z3check({!boolZ3(v.ref)}, true, &zm);
        if (r == 0) L.smt++; else if (r == 1) refute(label, "condition is false", nullptr, &zm); else { L.undec++; L.detail = "solver gave no answer"; }
    }
    // the term with variables replaced by the constants the path equates them to
    NodeId underEqualities(NodeId n0, bool* any) {
        std::map<NodeId, NodeId> m;
        for (auto& k : pc) { const BoolN b = bools[k.first]; if (b.t != BREAL || b.pred != 0 || !k.second) continue; NodeId u = b.a, w = b.b; if (R.isConst(u)) std::swap(u, w); if (!R.isConst(w)) continue;
            if (R.nodes[u].op == rl::Op::Var) m[u] = w; else if (R.nodes[u].op == rl::Op::Neg && R.nodes[R.nodes[u].a].op == rl::Op::Var) m[R.nodes[u].a] = R.neg(w); }
        if (m.empty()) { *any = false; return n0; }
        *any = true; std::vector<NodeId> st{n0};
        while (!st.empty()) {
            NodeId n = st.back(); if (m.count(n)) { st.pop_back(); continue; } rl::Node d = R.nodes[n]; bool rdy = true; auto need = [&](NodeId x) { if (!m.count(x)) { st.push_back(x); rdy = false; } };
            switch (d.op) { case rl::Op::Var: case rl::Op::Const: break; case rl::Op::Neg: case rl::Op::Fn1: need(d.a); break; default: need(d.a); need(d.b); }
            if (!rdy) continue; st.pop_back();
            switch (d.op) { case rl::Op::Var: case rl::Op::Const: m[n] = n; break; case rl::Op::Neg: m[n] = R.neg(m[d.a]); break; case rl::Op::Fn1: m[n] = R.fn1(d.fn, m[d.a], d.aux); break; case rl::Op::Fn2: m[n] = R.fn2(d.fn, m[d.a], m[d.b], d.aux); break;
                case rl::Op::Add: m[n] = R.add(m[d.a], m[d.b]); break; case rl::Op::Sub: m[n] = R.sub(m[d.a], m[d.b]); break; case rl::Op::Mul: m[n] = R.mul(m[d.a], m[d.b]); break; default: m[n] = R.div(m[d.a], m[d.b]); }
        }
        return m[n0];
    }
    void checkEq(const V& a, const V& b, const std::string& label) {
        auto& L = labels[label];
        if (a.k == KU || a.k == KX) { failPath(label, "the code leaves this value uninitialised"); return; }
        if (b.k == KU || b.k == KX) { failPath(label, "the contract side is uninitialised"); return; }
        if (a.k == KC && b.k == KC) { double x = bitsD(a.c), y = bitsD(b.c); if (x == y) { L.exact++; return; } double m = std::max(1.0, std::max(std::fabs(x), std::fabs(y))); if (std::fabs(x - y) <= 1e-10 * m) { L.tol++; return; } std::ostringstream o; o.precision(17); o << "code gives " << x << ", contract requires " << y; failPath(label, o.str()); return; }
        if ((a.k == KC && !std::isfinite(bitsD(a.c)))) { failPath(label, "the code returns a non-finite value"); return; }
        NodeId x = node(a, TD), y = node(b, TD);
        if (x == y) { L.exact++; return; }
        double t0 = now();
        replenish(3); int bad = -1; std::string det; long double bestd = 0; int besti = -1;
        for (int i : active) { auto p = sampleEval(*pool[i], x), q = sampleEval(*pool[i], y); long double d = fabsl(p.v - q.v), m = std::max(std::max(p.mag, q.mag), 1e-30L); if (std::isnan((double)d)) continue;
            if (d / m > bestd) { bestd = d / m; besti = i; }
            if (d > 1e-6L * std::max(std::max(fabsl(p.v), fabsl(q.v)), 1.0L) && d > 1e-12L * m) { bad = i; std::ostringstream o; o.precision(17); o << "code gives " << (double)p.v << ", contract requires " << (double)q.v; det = o.str(); break; } }
        canonSecs += now() - t0;
        if (bad >= 0) { refute(label, det, pool[bad].get(), nullptr); return; }
        bool big = false; int e = 0; t0 = now();
        try { pl::g_ops = 0; pl::g_ops_limit = g_eq_ops; e = R.equalCanon(x, y, 1e-10); } catch (pl::TooBig& t) { big = true; }
        canonSecs += now() - t0;
        if (e) { (e == 1 ? L.exact : L.tol)++; return; }
        if (!pc.empty()) { bool any = false; NodeId x2 = underEqualities(x, &any), y2 = any ? underEqualities(y, &any) : y; if (any) { int e2 = 0; try { pl::g_ops = 0; e2 = R.equalCanon(x2, y2, 1e-10); } catch (pl::TooBig&) {} if (e2) { (e2 == 1 ? L.exact : L.tol)++; return; } } }
        if (!pc.empty() || big) { int r = z3check({realZ3(x) != realZ3(y)}, false); if (r == 0) { L.smt++; return; } if (r == 1 && big) { L.undec++; L.detail = "canonical form too large, solver model not confirmed numerically"; return; } }
        if (!big && pc.empty() && besti >= 0 && bestd > 1e-16L) { std::ostringstream o; o << "canonical forms differ (numerically " << (double)bestd << " of the term magnitude)"; try { std::string s = R.show(R.rat(x), 4), s2 = R.show(R.rat(y), 4); o << ": code " << s.substr(0, 200) << " contract " << s2.substr(0, 200); } catch (...) {} refute(label, o.str(), pool[besti].get(), nullptr); return; }
        L.undec++; L.detail = big ? "canonical form exceeds the budget" : "not decided";
    }
    // ---------------------------------------------------------------- decoding
    static uint8_t tkOf(const Type* t, const DataLayout& DL, uint32_t& w) {
        w = 0;
        if (t->isIntegerTy()) { w = t->getIntegerBitWidth(); return TI; } if (t->isPointerTy()) { w = 64; return TP; } if (t->isDoubleTy()) { w = 64; return TD; } if (t->isFloatTy()) { w = 32; return TF; }
        if (t->isVoidTy()) return TVOID; if (t->isVectorTy()) return TV; if (t->isAggregateType()) return TAGG; return TX;
    }
    uint64_t addrOf(const GlobalValue* g) {
        if (auto* al = dyn_cast<GlobalAlias>(g)) return evalConst(al->getAliasee()).c;
        auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
        if (auto* f = dyn_cast<Function>(g)) { funcs.push_back(f); return gaddr[g] = 0x7F00000000000000ull | (uint64_t)funcs.size() * 16; }
        auto* v = cast<GlobalVariable>(g); uint64_t sz = v->getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(v->getValueType()) : 64; if (!v->hasInitializer()) sz = std::max<uint64_t>(sz, 256);
        return gaddr[g] = alloc(std::max<uint64_t>(sz, 1), 1);
    }
    V aggC(std::vector<V> v) { caggs.push_back(std::move(v)); V r; r.k = KA; r.c = 1; r.ref = caggs.size() - 1; return r; }
    V aggP(std::vector<V> v) { aggs.push_back(std::move(v)); V r; r.k = KA; r.c = 0; r.ref = aggs.size() - 1; return r; }
    const std::vector<V>& agg(const V& v) { return v.c ? caggs[v.ref] : aggs[v.ref]; }
    unsigned nElem(const Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
    Type* elemT(const Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<VectorType>(t)->getElementType(); }
    uint64_t elemOff(const Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL.getStructLayout(const_cast<StructType*>(s))->getElementOffset(i); return i * (uint64_t)DL.getTypeAllocSize(elemT(t, i)); }
    V undefOf(const Type* t) { if (t->isAggregateType() || t->isVectorTy()) { std::vector<V> v; for (unsigned i = 0; i < nElem(t); ++i) v.push_back(undefOf(elemT(t, i))); return aggC(v); } return vu_(); }
    V zeroOf(const Type* t) { if (t->isAggregateType() || t->isVectorTy()) { std::vector<V> v; for (unsigned i = 0; i < nElem(t); ++i) v.push_back(zeroOf(elemT(t, i))); return aggC(v); } return vc_(0); }
    V evalConst(const Constant* c) {
        if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getActiveBits() <= 64) return vc_(i->getValue().getZExtValue()); throw Unsupported{"wide integer constant"}; } return vc_(i->getZExtValue()); }
        if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isDoubleTy()) return vc_(dBits(f->getValueAPF().convertToDouble())); if (f->getType()->isFloatTy()) return vc_(fBits(f->getValueAPF().convertToFloat())); V v; v.k = KU; return v; }
        if (isa<ConstantPointerNull>(c)) return vc_(0);
        if (isa<UndefValue>(c)) return undefOf(c->getType());
        if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
        if (auto* g = dyn_cast<GlobalValue>(c)) return vc_(addrOf(g));
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { std::vector<V> v; for (unsigned i = 0; i < c->getNumOperands(); ++i) v.push_back(evalConst(cast<Constant>(c->getOperand(i)))); return aggC(v); }
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) { std::vector<V> v; for (unsigned i = 0; i < d->getNumElements(); ++i) v.push_back(evalConst(d->getElementAsConstant(i))); return aggC(v); }
        if (auto* e = dyn_cast<ConstantExpr>(c)) {
            switch (e->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(e); if (!g->accumulateConstantOffset(DL, off)) throw Unsupported{"constant gep"}; return vc_(evalConst(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue()); }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(e->getOperand(0));
            case Instruction::Trunc: { V v = evalConst(e->getOperand(0)); return vc_(maskw(v.c, e->getType()->getIntegerBitWidth())); }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: return ibin(e->getOpcode(), evalConst(e->getOperand(0)), evalConst(e->getOperand(1)), e->getType()->getIntegerBitWidth());
            case Instruction::ICmp: return icmp(e->getPredicate(), evalConst(e->getOperand(0)), evalConst(e->getOperand(1)), 64);
            default: throw Unsupported{"constant expression"};
            }
        }
        throw Unsupported{"constant"};
    }
    void writeConst(uint64_t a, const Constant* c) {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { setMem(a, vc_(0), DL.getTypeStoreSize(t)); return; }
        if (isa<UndefValue>(c)) return;
        if (t->isAggregateType()) { for (unsigned i = 0; i < nElem(t); ++i) writeConst(a + elemOff(t, i), c->getAggregateElement(i)); return; }
        try { V v = evalConst(c); if (v.k == KC) storeN(a, DL.getTypeStoreSize(t), v); } catch (Unsupported&) {}
    }
    int32_t opnd(const Value* v, std::unordered_map<const Value*, int32_t>& slot) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = constIdx.find(c); if (it != constIdx.end()) return it->second;
            V x; try { x = evalConst(c); } catch (Unsupported&) { x = vu_(); }
            consts.push_back(x); int32_t id = -(int32_t)consts.size(); constIdx[c] = id; return id;
        }
        auto it = slot.find(v); if (it != slot.end()) return it->second;
        return INT32_MIN;
    }
    Code* decode(const Function* F) {
        auto& up = codes[F]; if (up) return up.get();
        up.reset(new Code()); Code* C = up.get(); C->F = F;
        std::unordered_map<const Value*, int32_t> slot; std::unordered_map<const BasicBlock*, uint32_t> bi; int32_t n = 0;
        for (auto& a : F->args()) slot[&a] = n++;
        for (auto& b : *F) { bi[&b] = bi.size(); for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
        C->nslots = n; C->b.resize(bi.size());
        for (auto& b : *F) {
            Block& B = C->b[bi[&b]]; B.bb = &b;
            for (auto& i : b) {
                if (auto* p = dyn_cast<PHINode>(&i)) { Phi ph; ph.dst = slot[p]; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) ph.in.push_back({bi[p->getIncomingBlock(k)], opnd(p->getIncomingValue(k), slot)}); B.phis.push_back(ph); continue; }
                if (isa<DbgInfoIntrinsic>(i)) continue;
                Inst x; x.op = i.getOpcode(); x.I = &i; x.dst = i.getType()->isVoidTy() ? -1 : slot[&i]; x.ty = i.getType(); x.tk = tkOf(i.getType(), DL, x.w);
                switch (x.op) {
                case Instruction::Br: { auto& br = cast<BranchInst>(i); if (br.isConditional()) { x.o.push_back(opnd(br.getCondition(), slot)); x.t0 = bi[br.getSuccessor(0)]; x.t1 = bi[br.getSuccessor(1)]; } else x.t0 = bi[br.getSuccessor(0)]; break; }
                case Instruction::Switch: { auto& s = cast<SwitchInst>(i); x.o.push_back(opnd(s.getCondition(), slot)); x.w = s.getCondition()->getType()->getIntegerBitWidth(); x.t0 = bi[s.getDefaultDest()]; for (auto& c : s.cases()) { x.imm.push_back(c.getCaseValue()->getZExtValue()); x.imm.push_back(bi[c.getCaseSuccessor()]); } break; }
                case Instruction::GetElementPtr: {
                    auto* g = cast<GEPOperator>(&i); x.o.push_back(opnd(g->getPointerOperand(), slot)); int64_t off = 0;
                    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                        Value* idx = it.getOperand();
                        if (StructType* st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * sz; continue; }
                        x.o.push_back(opnd(idx, slot)); x.imm.push_back(sz); x.imm.push_back(idx->getType()->getIntegerBitWidth());
                    }
                    x.imm.push_back(off); break; }
                case Instruction::Call: case Instruction::Invoke: {
                    auto& cb = cast<CallBase>(i); for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { x.o.push_back(INT32_MIN); continue; } x.o.push_back(opnd(a, slot)); }
                    const Value* cv = cb.getCalledOperand()->stripPointerCasts();
                    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                    if (auto* f = dyn_cast<Function>(cv)) { x.callee = f; resolve(x, f); }
                    else if (isa<InlineAsm>(cv)) x.builtin = -2;
                    else { x.builtin = -1; x.o.push_back(opnd(cb.getCalledOperand(), slot)); }
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.t0 = bi[iv->getNormalDest()]; x.t1 = bi[iv->getUnwindDest()]; }
                    if (cb.arg_size() && !cb.getArgOperand(0)->getType()->isMetadataTy()) { uint32_t w; x.tk2 = tkOf(cb.getArgOperand(0)->getType(), DL, w); x.w2 = w; }
                    break; }
                case Instruction::Load: x.o.push_back(opnd(i.getOperand(0), slot)); x.w2 = DL.getTypeStoreSize(i.getType()); break;
                case Instruction::Store: { uint32_t w; x.tk = tkOf(i.getOperand(0)->getType(), DL, w); x.w = w; x.ty = i.getOperand(0)->getType(); x.o.push_back(opnd(i.getOperand(0), slot)); x.o.push_back(opnd(i.getOperand(1), slot)); x.w2 = DL.getTypeStoreSize(i.getOperand(0)->getType()); break; }
                case Instruction::Alloca: { auto& a = cast<AllocaInst>(i); x.imm.push_back(DL.getTypeAllocSize(a.getAllocatedType())); x.o.push_back(opnd(a.getArraySize(), slot)); break; }
                case Instruction::ExtractValue: { x.o.push_back(opnd(i.getOperand(0), slot)); for (unsigned k : cast<ExtractValueInst>(i).indices()) x.imm.push_back(k); break; }
                case Instruction::InsertValue: { x.o.push_back(opnd(i.getOperand(0), slot)); x.o.push_back(opnd(i.getOperand(1), slot)); for (unsigned k : cast<InsertValueInst>(i).indices()) x.imm.push_back(k); break; }
                case Instruction::LandingPad: case Instruction::Unreachable: break;
                case Instruction::ShuffleVector: { x.o.push_back(opnd(i.getOperand(0), slot)); x.o.push_back(opnd(i.getOperand(1), slot)); for (int k : cast<ShuffleVectorInst>(i).getShuffleMask()) x.imm.push_back(k); break; }
                default:
                    for (auto& o : i.operands()) x.o.push_back(opnd(o, slot));
                    if (i.getNumOperands()) { x.tk2 = tkOf(i.getOperand(0)->getType(), DL, x.w2); }
                    if (auto* c = dyn_cast<CmpInst>(&i)) x.imm.push_back(c->getPredicate());
                }
                B.is.push_back(std::move(x));
            }
        }
        return C;
    }
    void resolve(Inst& x, const Function* f);
    // ---------------------------------------------------------------- execution
    V get(Frame& f, int32_t o) { if (o >= 0) return f.r[o]; if (o == INT32_MIN) return vu_(); return consts[-o - 1]; }
    void push(const Function* F, std::vector<V>& args, int32_t retDst) {
        if (st.size() > 20000) throw Violation{"recursion", "call depth exceeds 20000"};
        Code* c = decode(F);
        auto* sp = F->getSubprogram();
        if (sp) { static std::unordered_map<const Function*, bool> seen; if (seen.emplace(F, true).second) { std::string fn = (sp->getFilename()).str(); if (fn.size() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; size_t p = fn.find("/anifem++/"); if (p != std::string::npos) funcsRun.insert(fn.substr(p + 1) + "|" + demangle(F->getName().str())); } }
        if (spare.empty()) st.emplace_back(); else { st.push_back(std::move(spare.back())); spare.pop_back(); }
        Frame& f = st.back(); f.code = c; f.r.assign(c->nslots, V()); f.blk = f.ip = f.prev = 0; f.allocas.clear(); f.retDst = retDst; f.va.clear();
        for (size_t i = 0; i < args.size(); ++i) if (i < F->arg_size()) f.r[i] = args[i]; else f.va.push_back(args[i]);
    }
    void popFrame() {
        Frame& f = st.back();
        for (uint64_t a : f.allocas) { uint64_t slot = ((a >> 28) & 0xFFFFF) - 1; freeSlot(slot); }
        spare.push_back(std::move(f)); st.pop_back();
    }
    void jump(Frame& f, uint32_t to) {
        Block& B = f.code->b[to];
        if (!B.phis.empty()) {
            uint32_t from = f.blk; V tmp[64]; std::vector<V> big; size_t n = B.phis.size(); V* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
            for (size_t i = 0; i < n; ++i) { bool ok = false; for (auto& p : B.phis[i].in) if (p.first == from) { t[i] = get(f, p.second); ok = true; break; } if (!ok) throw Unsupported{"phi without edge"}; }
            for (size_t i = 0; i < n; ++i) f.r[B.phis[i].dst] = t[i];
        }
        f.prev = f.blk; f.blk = to; f.ip = 0;
    }
    V ldT(uint64_t a, const Type* t) {
        if (t->isAggregateType() || t->isVectorTy()) { std::vector<V> v; for (unsigned i = 0; i < nElem(t); ++i) v.push_back(ldT(a + elemOff(t, i), elemT(t, i))); return aggP(v); }
        uint64_t n = DL.getTypeStoreSize(const_cast<Type*>(t)); if (n > 8) throw Unsupported{"load of a wide scalar"};
        return loadN(a, n);
    }
    void stT(uint64_t a, const V& v, const Type* t) {
        if (t->isAggregateType() || t->isVectorTy()) { if (v.k == KU) { setMem(a, vu_(), DL.getTypeStoreSize(const_cast<Type*>(t))); return; } auto vs = agg(v); for (unsigned i = 0; i < nElem(t); ++i) stT(a + elemOff(t, i), vs[i], elemT(t, i)); return; }
        uint64_t n = DL.getTypeStoreSize(const_cast<Type*>(t)); if (n > 8) throw Unsupported{"store of a wide scalar"};
        storeN(a, n, v);
    }
    uint64_t ptr(const V& v) { if (v.k == KC) return v.c; return concretize(v, 64); }
    V gep(Frame& f, const Inst& x) {
        V b = get(f, x.o[0]); if (b.k == KU) return b;
        int64_t off = x.imm.back(); bool sym = b.k != KC; size_t n = x.o.size() - 1;
        for (size_t i = 0; i < n; ++i) { V v = get(f, x.o[i + 1]); if (v.k == KU) return v; if (v.k == KC) off += sext(v.c, x.imm[2 * i + 1]) * x.imm[2 * i]; else sym = true; }
        if (!sym) return vc_(b.c + off);
        z3::expr e = toBV(b, 64) + Z->bv_val((int64_t)off, 64);
        for (size_t i = 0; i < n; ++i) { V v = get(f, x.o[i + 1]); if (v.k == KC) continue; unsigned w = x.imm[2 * i + 1]; z3::expr t = toBV(v, w); if (w < 64) t = z3::sext(t, 64 - w); e = e + t * Z->bv_val((int64_t)x.imm[2 * i], 64); }
        return mkBV(e, 64);
    }
    V castOp(const Inst& x, const V& a) {
        if (x.tk == TV || x.tk2 == TV) { if (x.op == Instruction::BitCast) throw Unsupported{"vector bitcast"}; throw Unsupported{"vector cast"}; }
        switch (x.op) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (x.op == Instruction::PtrToInt && x.w < 64 && a.k == KC) return vc_(maskw(a.c, x.w)); return a;
        case Instruction::Trunc:
            if (a.k == KC) return vc_(maskw(a.c, x.w)); if (a.k == KU) return a;
            if (a.k == KX) { if (x.w % 8 == 0) { auto b = xs[a.ref]; b.resize(x.w / 8); return mkX(b); } auto& b = xs[a.ref][0]; if (b.st == 1) return vc_(maskw(b.c, x.w)); return vu_(); }
            { z3::expr e = toBV(a, x.w2).extract(x.w - 1, 0); if (x.w == 1) { V o; mkBoolZ(e == Z->bv_val(1, 1), &o); return o; } return mkBV(e, x.w); }
        case Instruction::ZExt: case Instruction::SExt:
            if (a.k == KC) return vc_(x.op == Instruction::ZExt ? a.c : maskw((uint64_t)sext(a.c, x.w2), x.w)); if (a.k == KU) { if (x.op == Instruction::ZExt && x.w2 % 8 == 0 && x.w % 8 == 0 && x.w <= 64) { std::vector<ByteX> b(x.w2 / 8, ByteX{0, 0, 0, 0, V()}); b.resize(x.w / 8, ByteX{1, 0, 0, 0, V()}); return mkX(b); } return a; }
            if (a.k == KX) { if (x.op == Instruction::ZExt) { auto b = xs[a.ref]; b.resize(x.w / 8, ByteX{1, 0, 0, 0, V()}); return mkX(b); } return vu_(); }
            if (a.k == KB) { const BoolN n = bools[a.ref]; if (n.hasR) return vc_(decide(a) ? (x.op == Instruction::ZExt ? 1 : maskw(~0ull, x.w)) : 0); z3::expr b = boolZ3(a.ref); return mkBV(z3::ite(b, x.op == Instruction::ZExt ? Z->bv_val(1, x.w) : Z->bv_val((int64_t)-1, x.w), Z->bv_val(0, x.w)), x.w); }
            { z3::expr e = toBV(a, x.w2); return mkBV(x.op == Instruction::ZExt ? z3::zext(e, x.w - x.w2) : z3::sext(e, x.w - x.w2), x.w); }
        case Instruction::FPExt: if (a.k == KC) { if (x.tk != TD) return vu_(); return vc_(dBits(bitsF(a.c))); } return a;
        case Instruction::FPTrunc: if (a.k == KC) { if (x.tk2 != TD) return vu_(); return vc_(fBits((float)bitsD(a.c))); } return a;
        case Instruction::SIToFP: case Instruction::UIToFP: { if (a.k == KU) return a; uint64_t c = concretize(a, x.w2); double d = x.op == Instruction::SIToFP ? (double)sext(c, x.w2) : (double)c; return vc_(x.tk == TF ? fBits((float)d) : dBits(d)); }
        case Instruction::FPToSI: case Instruction::FPToUI: { if (a.k == KU) return a; double d; if (a.k == KC) d = x.tk2 == TF ? bitsF(a.c) : bitsD(a.c); else { mpq_class q; if (a.k == KR && R.isConst(a.ref, &q)) d = q.get_d(); else throw Unsupported{"conversion of a symbolic real to an integer"}; } return vc_(maskw(x.op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d, x.w)); }
        default: throw Unsupported{"cast"};
        }
    }
    V selectOp(const Inst& x, const V& c, const V& a, const V& b) {
        if (c.k == KC) return c.c & 1 ? a : b;
        if (c.k == KU || c.k == KX) throw Violation{"uninitialised", "a selection depends on an uninitialised value"};
        if (a.k == b.k && a.c == b.c && a.ref == b.ref) return a;
        if (!bools[c.ref].hasR && (x.tk == TI || x.tk == TP) && (a.k == KC || a.k == KBV || a.k == KB) && (b.k == KC || b.k == KBV || b.k == KB)) {
            z3::expr cz = boolZ3(c.ref);
            if (x.w == 1) return band(band(c, a, false), band(bnot(c), b, false), true);
            return mkBV(z3::ite(cz, toBV(a, x.w), toBV(b, x.w)), x.w);
        }
        if (x.w == 1 && x.tk == TI && (a.k == KC || a.k == KB) && (b.k == KC || b.k == KB)) return band(band(c, a, false), band(bnot(c), b, false), true);
        return decide(c) ? a : b;
    }
    bool typeMatches(uint64_t thrown, uint64_t want, int depth = 0) {
        if (thrown == want || !want) return true; if (depth > 10) return false;
        const GlobalVariable* tg = nullptr; for (auto& p : gaddr) if (p.second == thrown) tg = dyn_cast<GlobalVariable>(p.first);
        const GlobalVariable* wg = nullptr; for (auto& p : gaddr) if (p.second == want) wg = dyn_cast<GlobalVariable>(p.first);
        if (!tg || !wg) return false;
        std::string tn = tg->getName().str(), wn = wg->getName().str();
        if (tg->hasInitializer()) { auto* s = dyn_cast<ConstantStruct>(tg->getInitializer()); if (s && s->getNumOperands() >= 3) for (unsigned i = 2; i < s->getNumOperands(); ++i) { auto* c = dyn_cast<Constant>(s->getOperand(i)); if (auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts())) if (typeMatches(addrOf(g), want, depth + 1)) return true; } return false; }
        auto isStd = [&](const char* n) { return tn.find(n) != std::string::npos; };
        if (wn == "_ZTISt9exception") return tn.compare(0, 6, "_ZTISt") == 0;
        if (wn == "_ZTISt13runtime_error") return isStd("range_error") || isStd("overflow_error") || isStd("underflow_error");
        if (wn == "_ZTISt11logic_error") return isStd("out_of_range") || isStd("invalid_argument") || isStd("domain_error") || isStd("length_error");
        return false;
    }
    long typeId(uint64_t t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; long n = typeIds.size() + 1; return typeIds[t] = n; }
    std::string typeName(uint64_t t) { for (auto& p : gaddr) if (p.second == t) return demangle(p.first->getName().str()); return "?"; }
    void unwind(size_t base) {   // current exception propagates from the top frame
        while (st.size() > base) {
            Frame& f = st.back(); const Inst& x = f.code->b[f.blk].is[f.ip];
            if (x.op == Instruction::Invoke) {
                const BasicBlock* ub = f.code->b[x.t1].bb; const LandingPadInst* lp = ub->getLandingPadInst(); bool take = lp->isCleanup(); long sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) { auto* c = lp->getClause(i); uint64_t t = evalConst(c).c; if (typeMatches(excType, t)) { take = true; sel = typeId(t); break; } } else { take = true; sel = -1; }
                if (take) { jump(f, x.t1); std::vector<V> r{vc_(excPtr), vc_((uint32_t)sel)}; landVal = aggP(r); return; }
            }
            popFrame();
        }
        throw Violation{"exception", "uncaught exception of type " + typeName(excType)};
    }
    V landVal;
    size_t runBase = 0;
    struct ThrowNow {};
    void run(const Function* F, std::vector<V> args) {
        size_t base = st.size(); size_t oldBase = runBase; runBase = base;
        push(F, args, -1);
        while (st.size() > base) {
            try { loop(base); } catch (ThrowNow&) { unwind(base); }
        }
        runBase = oldBase;
    }
    void loop(size_t base) {
        while (st.size() > base) {
            Frame* f = &st.back();
            const Inst& x = f->code->b[f->blk].is[f->ip];
            if (!(++steps & 0xFFFF)) { if (now() > deadline) throw TimeUp{"time limit"}; if (steps > stepLimit) throw TimeUp{"instruction limit"}; }
            auto O = [&](int i) { return get(*f, x.o[i]); };
            switch (x.op) {
            case Instruction::Br: if (x.o.empty()) jump(*f, x.t0); else jump(*f, decide(O(0)) ? x.t0 : x.t1); continue;
            case Instruction::Switch: {
                V c = O(0); if (c.k == KU || c.k == KX) throw Violation{"uninitialised", "a switch depends on an uninitialised value"};
                uint32_t to = x.t0;
                for (size_t i = 0; i < x.imm.size(); i += 2) { V e = icmp(CmpInst::ICMP_EQ, c, vc_((uint64_t)x.imm[i]), x.w); if (decide(e)) { to = x.imm[i + 1]; break; } }
                jump(*f, to); continue; }
            case Instruction::Ret: {
                V r = x.o.empty() ? vu_() : O(0); int32_t d = f->retDst; popFrame(); if (st.size() <= base) return;
                Frame& c = st.back(); const Inst& ci = c.code->b[c.blk].is[c.ip]; if (d >= 0) c.r[d] = r;
                if (ci.op == Instruction::Invoke) jump(c, ci.t0); else ++c.ip; continue; }
            case Instruction::Unreachable: throw Violation{"unreachable", "unreachable code is reached (undefined behaviour)"};
            case Instruction::Resume: { auto v = agg(O(0)); excPtr = v[0].c; excType = excTypeOf[excPtr]; popFrame(); unwind(base); continue; }
            case Instruction::LandingPad: f->r[x.dst] = landVal; break;
            case Instruction::Load: {
                V p = O(0); if (p.k == KU || p.k == KX) throw Violation{"uninitialised", "load through an uninitialised pointer"};
                uint64_t a = ptr(p); f = &st.back();
                if (x.tk == TAGG || x.tk == TV) f->r[x.dst] = ldT(a, x.ty); else { if (x.w2 > 8) throw Unsupported{"wide load"}; V v = loadN(a, x.w2); if (x.tk == TI && x.w < x.w2 * 8 && v.k == KC) v.c = maskw(v.c, x.w); else if (x.tk == TI && x.w == 1 && v.k == KBV) { V o; mkBoolZ(bvs[v.ref] != Z->bv_val(0, 8), &o); v = o; } f->r[x.dst] = v; }
                break; }
            case Instruction::Store: {
                V v = O(0), p = O(1); if (p.k == KU || p.k == KX) throw Violation{"uninitialised", "store through an uninitialised pointer"};
                uint64_t a = ptr(p); if (x.tk == TAGG || x.tk == TV) stT(a, v, x.ty); else { if (x.w2 > 8) throw Unsupported{"wide store"}; storeN(a, x.w2, v); } break; }
            case Instruction::Alloca: { uint64_t n = concretize(O(0), 64); uint64_t a = alloc(std::max<uint64_t>(1, n * x.imm[0]), 2); f->allocas.push_back(a); f->r[x.dst] = vc_(a); break; }
            case Instruction::GetElementPtr: f->r[x.dst] = gep(*f, x); break;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
                if (x.tk == TV) { auto a = agg(O(0)), b = agg(O(1)); std::vector<V> r; unsigned w = x.ty->getScalarSizeInBits(); for (size_t i = 0; i < a.size(); ++i) r.push_back(ibin(x.op, a[i], b[i], w)); f->r[x.dst] = aggP(r); break; }
                f->r[x.dst] = x.w > 64 ? wide(x, O(0), O(1)) : ibin(x.op, O(0), O(1), x.w); break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                if (x.tk == TV) { auto a = agg(O(0)), b = agg(O(1)); std::vector<V> r; for (size_t i = 0; i < a.size(); ++i) r.push_back(fbin(x.op, a[i], b[i], TD)); f->r[x.dst] = aggP(r); break; }
                if (x.tk != TD && x.tk != TF) { f->r[x.dst] = vu_(); break; }
                f->r[x.dst] = fbin(x.op, O(0), O(1), x.tk); break; }
            case Instruction::FNeg: { V a = O(0); if (a.k == KC) f->r[x.dst] = x.tk == TF ? vc_(fBits(-bitsF(a.c))) : vc_(dBits(-bitsD(a.c))); else if (a.k == KR) f->r[x.dst] = vr_(R.neg(a.ref)); else f->r[x.dst] = vu_(); break; }
            case Instruction::ICmp: f->r[x.dst] = icmp(x.imm[0], O(0), O(1), x.w2); break;
            case Instruction::FCmp: f->r[x.dst] = fcmp(x.imm[0], O(0), O(1), x.tk2); break;
            case Instruction::Select: { V c = O(0), a = O(1), b = O(2); V r = selectOp(x, c, a, b); f->r[x.dst] = r; break; }
            case Instruction::Freeze: f->r[x.dst] = O(0); break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
                V a = O(0); if (x.w > 64 || x.w2 > 64) { f->r[x.dst] = wide(x, a, vu_()); break; } V r = castOp(x, a); f->r[x.dst] = r; break; }
            case Instruction::ExtractValue: { V a = O(0); if (a.k == KU) { f->r[x.dst] = a; break; } for (int64_t k : x.imm) { a = agg(a)[k]; if (a.k == KU) break; } f->r[x.dst] = a; break; }
            case Instruction::InsertValue: { V a = O(0); if (a.k == KU) a = undefOf(x.ty); f->r[x.dst] = insertV(a, O(1), x.imm, 0, x.ty); break; }
            case Instruction::ExtractElement: { V a = O(0); uint64_t i = concretize(O(1), 64); f->r[x.dst] = a.k == KU ? a : agg(a)[i]; break; }
            case Instruction::InsertElement: { V a = O(0); if (a.k == KU) a = undefOf(x.ty); auto v = agg(a); v[concretize(O(2), 64)] = O(1); f->r[x.dst] = aggP(v); break; }
            case Instruction::ShuffleVector: { V a = O(0), b = O(1); auto va = a.k == KU ? std::vector<V>(nElem(x.I->getOperand(0)->getType())) : agg(a); auto vb = b.k == KU ? std::vector<V>(va.size()) : agg(b); std::vector<V> r; for (int64_t k : x.imm) r.push_back(k < 0 ? vu_() : (size_t)k < va.size() ? va[k] : vb[k - va.size()]); f->r[x.dst] = aggP(r); break; }
            case Instruction::AtomicRMW: { uint64_t a = ptr(O(0)); auto* rm = cast<AtomicRMWInst>(x.I); V old = loadN(a, x.w / 8), v = O(1), n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = ibin(Instruction::Add, old, v, x.w); break; case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, old, v, x.w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = ibin(Instruction::And, old, v, x.w); break; case AtomicRMWInst::Or: n = ibin(Instruction::Or, old, v, x.w); break; default: throw Unsupported{"atomicrmw"}; } storeN(a, x.w / 8, n); f->r[x.dst] = old; break; }
            case Instruction::AtomicCmpXchg: { uint64_t a = ptr(O(0)); auto* cx = cast<AtomicCmpXchgInst>(x.I); unsigned w = cx->getCompareOperand()->getType()->isPointerTy() ? 64 : cx->getCompareOperand()->getType()->getIntegerBitWidth(); V old = loadN(a, w / 8); bool eq = decide(icmp(CmpInst::ICMP_EQ, old, O(1), w)); if (eq) storeN(a, w / 8, O(2)); f->r[x.dst] = aggP({old, vc_(eq)}); break; }
            case Instruction::Fence: break;
            case Instruction::Call: case Instruction::Invoke: {
                std::vector<V> args; size_t na = x.o.size(); const Function* cf = x.callee; int bi = x.builtin;
                if (bi == -1) { V p = O(na - 1); --na; if (p.k == KU || p.k == KX) throw Violation{"uninitialised", "call through an uninitialised pointer"}; uint64_t a = ptr(p); if ((a >> 56) != 0x7F) throw Violation{"memory", "call through a pointer that is not a function"}; cf = funcs[(a & 0xFFFFFFFF) / 16 - 1]; Inst tmp; tmp.callee = cf; resolve(tmp, cf); bi = tmp.builtin; if (tmp.callee) cf = tmp.callee; f = &st.back(); }
                if (bi == -2) throw Unsupported{"inline assembly"};
                args.reserve(na); for (size_t i = 0; i < na; ++i) args.push_back(O(i));
                if (bi > 0) { V r = g_bfun[bi](*this, args, x); f = &st.back(); if (x.dst >= 0) f->r[x.dst] = r; if (x.op == Instruction::Invoke) { jump(*f, x.t0); continue; } break; }
                if (cf->isDeclaration()) throw Unsupported{"call of external function " + demangle(cf->getName().str())};
                push(cf, args, x.dst); continue; }
            default: throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
            }
            ++st.back().ip;
        }
    }
    V insertV(const V& a, const V& v, const std::vector<int64_t>& idx, size_t d, const Type* t) {
        if (d == idx.size()) return v;
        auto x = a.k == KU ? std::vector<V>(nElem(t)) : agg(a); x[idx[d]] = insertV(x[idx[d]], v, idx, d + 1, elemT(t, idx[d])); return aggP(x);
    }
    // 128-bit integers appear only for overflow-checked multiplication; kept concrete
    V wide(const Inst& x, const V& a, const V& b) { (void)a; (void)b; throw Unsupported{std::string("integer wider than 64 bits: ") + x.I->getOpcodeName()}; }
    // ---------------------------------------------------------------- whole-path driver
    void initGlobals() {
        std::vector<GlobalVariable*> gs; for (auto& g : M.globals()) if (!g.getName().starts_with("llvm.")) gs.push_back(&g);
        for (auto* g : gs) addrOf(g);
        for (auto* g : gs) if (g->hasInitializer()) writeConst(addrOf(g), g->getInitializer());
        for (auto* g : gs) if (g->isConstant() && g->hasInitializer()) region(addrOf(g))->kind = 4;
        auto* gc = M.getGlobalVariable("llvm.global_ctors");
        if (gc && gc->hasInitializer()) {
            std::vector<std::pair<int64_t, Function*>> cs; auto* a = dyn_cast<ConstantArray>(gc->getInitializer());
            if (a) for (auto& o : a->operands()) { auto* s = cast<ConstantStruct>(o); auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()); if (fn) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getSExtValue(), fn}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& p, auto& q) { return p.first < q.first; });
            for (auto& c : cs) { try { run(c.second, {}); } catch (Unsupported& u) { fprintf(stderr, "engine: global constructor %s: %s\n", c.second->getName().str().c_str(), u.what.c_str()); st.clear(); } catch (Violation& v) { fprintf(stderr, "engine: global constructor %s: %s\n", c.second->getName().str().c_str(), v.detail.c_str()); st.clear(); } }
        }
        steps = 0; memChecks = 0; funcsRun.clear();
    }
    void resetPath(const Snapshot& init) {
        mem = init; bvs.clear(); bools.clear(); boolZ.clear(); aggs.clear(); xs.clear(); pc.clear(); pcMixed = pcReal = false; ord.clear(); ordPure = true; learned = 0; syncing = false; cnt.clear(); ivars.clear(); rvars.clear(); nonzeroNodes.clear(); facts.clear(); divSeen.clear(); z3r.clear(); z3rv.clear(); z3side.clear();
        while (!st.empty()) { spare.push_back(std::move(st.back())); st.pop_back(); }
        delete bvS; bvS = nullptr; if (Z) { bvS = new z3::solver(*Z); z3::params p(*Z); p.set("timeout", 4000u); bvS->set(p); }
        delete iS; iS = nullptr; iOK = true; ieX.clear(); ieMemo.clear(); ieKeep.clear(); if (Z) { iS = new z3::solver(*Z); z3::params p(*Z); p.set("timeout", 4000u); iS->set(p); }
        initSamples(); decPos = 0; excTypeOf.clear(); runBase = 0;
        if (R.nodes.size() > 3000000) { R.canon.clear(); }
    }
    std::string where() {
        std::string s; int n = 0;
        for (size_t i = st.size(); i-- > 0 && n < 6;) { Frame& f = st[i]; if (f.blk >= f.code->b.size() || f.ip >= f.code->b[f.blk].is.size()) continue; const Instruction* I = f.code->b[f.blk].is[f.ip].I; std::string fn = demangle(f.code->F->getName().str()); if (fn.size() > 120) fn = fn.substr(0, 117) + "..."; s += (n++ ? " < " : ""); if (auto& dl = I->getDebugLoc()) { auto* sc = dl->getFilename().data() ? dl.get() : nullptr; if (sc) { std::string fl = sc->getFilename().str(); s += fl.substr(fl.rfind('/') + 1) + ":" + std::to_string(sc->getLine()) + " "; } } s += fn; }
        return s;
    }
    void runPath(const Function* F, const Snapshot& init, const std::vector<Dec>& prefix) {
        resetPath(init); dec = prefix; ++paths; std::string saveLabel;
        try { run(F, {}); }
        catch (PathEnd&) { ++discarded; }
        catch (Violation& v) { std::string w = where(); if (!concrete) failPath("safety: " + v.kind, v.detail + " at " + w); else fprintf(clog ? clog : stderr, "%s VIOLATION %s %s\n", curCase.c_str(), v.kind.c_str(), (v.detail + " at " + w).c_str()); }
        catch (Unsupported& u) { ++aborted; unsupported.insert(u.what + " at " + where().substr(0, 300)); }
        catch (pl::TooBig& t) { ++aborted; unsupported.insert(std::string("canonical form: ") + t.what()); }
        catch (z3::exception& e) { ++aborted; unsupported.insert(std::string("z3: ") + e.msg()); }
    }
};
#include "builtins.inc"
#include "driver.inc"
