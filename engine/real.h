// Hash-consed real terms + canonical rational-function form (with sqrt / function atoms) used to discharge
// equalities over the reals, and numeric evaluation used to refute them.
#pragma once
#include "poly.h"
#include <functional>
#include <set>

namespace rl {
using NodeId = uint32_t;
enum class Op : uint8_t { Var, Const, Add, Sub, Mul, Div, Neg, Fn1, Fn2 };
enum class Fn : uint8_t { Sqrt, Cbrt, Exp, Log, Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Expm1, Log1p, Pow, Atan2, Abs, Uf };
struct Node { Op op; Fn fn; uint32_t aux; NodeId a, b; };   // aux: var index / const index / uf name

struct VarInfo { std::string name; double lo, hi; };

struct RatFun { pl::Poly num; std::map<int, int> den; };

struct Ctx {
    std::vector<Node> nodes;
    std::vector<VarInfo> vars;
    std::vector<mpq_class> consts;
    std::vector<std::string> ufNames;
    struct Key { uint64_t x, y; bool operator==(const Key& o) const { return x == o.x && y == o.y; } };
    struct KeyH { size_t operator()(const Key& k) const { return k.x * 0x9E3779B97F4A7C15ull ^ (k.y + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full; } };
    std::unordered_map<Key, NodeId, KeyH> cons;
    std::map<mpq_class, uint32_t> constIdx;
    std::map<std::string, NodeId> varIdx;

    NodeId mk(Op op, Fn fn, uint32_t aux, NodeId a, NodeId b);
    NodeId constant(const mpq_class& q);
    NodeId fromDouble(double d);
    NodeId var(const std::string& name, double lo, double hi);
    NodeId add(NodeId a, NodeId b); NodeId sub(NodeId a, NodeId b); NodeId mul(NodeId a, NodeId b);
    NodeId div(NodeId a, NodeId b); NodeId neg(NodeId a);
    NodeId fn1(Fn f, NodeId a, uint32_t aux = 0); NodeId fn2(Fn f, NodeId a, NodeId b, uint32_t aux = 0);
    bool isConst(NodeId n, mpq_class* q = nullptr) const { if (nodes[n].op != Op::Const) return false; if (q) *q = consts[nodes[n].aux]; return true; }

    // ---- canonical forms
    struct Atom { enum K { Var, Fun } k; Fn fn; uint32_t aux; NodeId node; RatFun a, b; };
    std::vector<Atom> atoms;                 // poly variable id -> atom
    std::vector<int> varAtom;                // var index -> atom id
    std::vector<pl::Poly> factors;           // denominator factors (leading coefficient 1)
    std::unordered_map<NodeId, std::shared_ptr<RatFun>> canon;
    bool hasAlg = false;
    const RatFun& rat(NodeId n);
    RatFun radd(const RatFun& a, const RatFun& b, bool minus);
    RatFun rmul(const RatFun& a, const RatFun& b);
    RatFun rdiv(const RatFun& a, const RatFun& b);
    RatFun rpow(const RatFun& a, int k);
    RatFun atomOf(Fn fn, const RatFun& a, const RatFun* b, NodeId node, uint32_t aux);
    RatFun powOf(const RatFun& a, const RatFun& b, NodeId node);
    RatFun rconst(const mpq_class& q) { RatFun r; r.num = pl::Poly::C(q); return r; }
    void reduce(RatFun& r);
    void cancel(RatFun& r);
    int factorId(const pl::Poly& p);
    void pushDen(RatFun& r, pl::Poly N, int e);   // r /= N^e
    pl::Poly expandDen(const std::map<int, int>& d);
    mpq_class leadCoef(const pl::Poly& p);
    bool divides(const pl::Poly& p, const pl::Poly& d, pl::Poly& q);   // q = p / d when exact
    // 0: not zero, 1: zero exactly, 2: zero up to coefficient tolerance
    int equalCanon(NodeId a, NodeId b, double tol);
    int zeroDiff(const RatFun& a, const RatFun& b, double tol);
    std::string show(const RatFun& r, size_t maxTerms = 12);
    std::string showPoly(const pl::Poly& p, size_t maxTerms = 12);
    std::string atomName(int id);

    // ---- numeric evaluation under an assignment of vars
    struct Val { long double v, mag; };
    struct Eval { std::vector<long double> varv; std::vector<Val> val; std::vector<uint8_t> has; };
    Val eval(NodeId n, Eval& e);
    void collectVars(NodeId n, std::set<uint32_t>& out);
    void clearCanon() { canon.clear(); }
};
mpq_class readLiteral(double d);    // doubles within 1 ulp of a small rational are read as that rational
const char* fnName(Fn f);
}
