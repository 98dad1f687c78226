// Functions the executor interprets itself: contract primitives, libc/libm, the C++ runtime and LLVM intrinsics.
static int reg(const char* n, Builtin b) { if (g_bfun.empty()) g_bfun.push_back(nullptr); g_bfun.push_back(b); g_bidx[n] = g_bfun.size() - 1; return 0; }
using Args = std::vector<V>;
static std::string keyOf(Exec& e, uint64_t nm, std::string* base, unsigned* k) { std::string n = e.cstr(nm); unsigned kk = e.cnt[n]++; if (base) *base = n; if (k) *k = kk; return n + "#" + std::to_string(kk); }
static V realVar(Exec& e, Args& a, bool bound) {
    std::string b; unsigned k; std::string key = keyOf(e, e.ptr(a[0]), &b, &k); double lo = bitsD(a[1].c), hi = bitsD(a[2].c);
    if (e.concrete) return vc_(dBits(vc_draw_real(e.cseed, b.c_str(), k, lo, hi)));
    NodeId n = e.R.var(key, lo, hi); e.rvars.push_back({key, n});
    if (bound) { V c = e.rcmp(2, e.R.constant(mpq_class(lo)), n); if (c.k == KB) e.addPC(c.ref, true); c = e.rcmp(2, n, e.R.constant(mpq_class(hi))); if (c.k == KB) e.addPC(c.ref, true); }
    return vr_(n);
}
static void assumeV(Exec& e, const V& c) {
    if (c.k == KC) { if (!(c.c & 0xFFFFFFFF)) throw PathEnd(); return; }
    if (c.k == KU || c.k == KX) throw Violation{"uninitialised", "an assumption depends on an uninitialised value"};
    V b = c; if (c.k == KBV) { e.mkBoolZ(e.bvs[c.ref] != e.Z->bv_val(0, 32), &b); if (b.k == KC) { if (!b.c) throw PathEnd(); return; } }
    if (e.decPos >= e.dec.size()) { if (!e.feasible(b.ref, true)) throw PathEnd(); }   // (already known feasible when replaying a longer prefix)
    e.addPC(b.ref, true);
}
static V boolOf(Exec& e, const V& c) { if (c.k == KC) return vc_((c.c & 0xFFFFFFFF) != 0); if (c.k == KBV) { V b; e.mkBoolZ(e.bvs[c.ref] != e.Z->bv_val(0, 32), &b); return b; } return c; }
static void throwStd(Exec& e, const char* ti) {
    auto* g = cast<GlobalVariable>(e.M.getOrInsertGlobal(ti, PointerType::get(e.M.getContext(), 0)));
    uint64_t p = e.alloc(64, 3); e.excPtr = p; e.excType = e.addrOf(g); e.excTypeOf[p] = e.excType; throw Exec::ThrowNow();
}
static std::vector<uint64_t> g_caught;
static double absD(double x) { return std::fabs(x); }
static V dbl(double d) { return vc_(dBits(d)); }
static V overflowOp(Exec& e, Args& a, const Inst& x, unsigned op, bool sg) {
    unsigned w = x.w2;
    if (a[0].k == KU || a[1].k == KU) return e.aggP({vu_(), vu_()});
    if (a[0].k == KC && a[1].k == KC) {
        __int128 p = sg ? (__int128)sext(a[0].c, w) : (__int128)a[0].c, q = sg ? (__int128)sext(a[1].c, w) : (__int128)a[1].c; __int128 r = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q;
        uint64_t m = maskw((uint64_t)r, w); bool ov = sg ? (__int128)sext(m, w) != r : (r < 0 || (__int128)m != r);
        return e.aggP({vc_(m), vc_(ov)});
    }
    z3::expr p = e.toBV(a[0], w), q = e.toBV(a[1], w); unsigned W = op == Instruction::Mul ? 2 * w : w + 2; auto ex = [&](const z3::expr& t) { return sg ? z3::sext(t, W - w) : z3::zext(t, W - w); };
    z3::expr P = ex(p), Q = ex(q), r = op == Instruction::Add ? P + Q : op == Instruction::Sub ? P - Q : P * Q; z3::expr lo = r.extract(w - 1, 0); V o; e.mkBoolZ(ex(lo) != r, &o);
    V l = e.mkBV(lo, w); return e.aggP({l, o});
}
static V minmax(Exec& e, Args& a, const Inst& x, unsigned pred) { V c = e.icmp(pred, a[0], a[1], x.w2); Inst t = x; t.tk = TI; t.w = x.w2; return e.selectOp(t, c, a[0], a[1]); }
static V fminmax(Exec& e, Args& a, const Inst& x, bool mx) { V c = e.fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0], a[1], x.tk2); return e.decide(c) ? a[0] : a[1]; }
static V fabsV(Exec& e, Args& a, const Inst& x) {
    if (a[0].k != KR) return a[0].k == KC ? e.mathFn(Fn::Abs, a[0], x.tk2, absD) : a[0];
    V c = e.rcmp(1, a[0].ref, e.R.constant(0)); return e.decide(c) ? vr_(e.R.neg(a[0].ref)) : a[0];
}
static V powV(Exec& e, Args& a, const Inst& x) {
    if (a[0].k == KC && a[1].k == KC) return dbl(std::pow(bitsD(a[0].c), bitsD(a[1].c)));
    if (a[0].k == KU || a[1].k == KU) return vu_();
    NodeId b = e.node(a[1], TD), m = e.node(a[0], TD); mpq_class q;
    if (e.R.isConst(b, &q)) { if (q == 0) return vr_(e.R.constant(1)); if (q == 1) return a[0]; }
    return vr_(e.R.fn2(Fn::Pow, m, b));
}
static V bvUn(Exec& e, const V& a, unsigned w, uint64_t (*f)(uint64_t, unsigned)) { if (a.k == KU) return a; uint64_t c = e.concretize(a, w); return vc_(f(c, w)); }
static void vlog(Exec& e, const char* fmt, const std::string& l, double a, double b) { if (e.clog) { fprintf(e.clog, fmt, e.curCase.c_str(), l.c_str(), a, b); } }
static int setupBuiltins() {
#define B(n, ...) reg(n, [](Exec& e, Args& a, const Inst& x) -> V { (void)e; (void)a; (void)x; __VA_ARGS__ });
    // ---- contract language
    B("vc_real", return realVar(e, a, false);)
    B("vc_real_in", return realVar(e, a, true);)
    B("vc_int", { std::string b; unsigned k; std::string key = keyOf(e, e.ptr(a[0]), &b, &k); long lo = (long)a[1].c, hi = (long)a[2].c; if (e.concrete) return vc_((uint64_t)vc_draw_int(e.cseed, b.c_str(), k, lo, hi)); if (lo == hi) return vc_(lo);
        z3::expr v = e.Z->bv_const(key.c_str(), 64); e.intRange[key] = {lo, hi}; e.bvs.push_back(v); V r; r.k = KBV; r.ref = e.bvs.size() - 1; e.ivars.push_back({key, lo, hi, false, 0, r.ref}); { z3::expr c = z3::sge(v, e.Z->bv_val((int64_t)lo, 64)) && z3::sle(v, e.Z->bv_val((int64_t)hi, 64)); e.bvS->add(c); e.liAdd(c); } return r; })
    B("vc_choose", { std::string b; unsigned k; std::string key = keyOf(e, e.ptr(a[0]), &b, &k); long lo = (long)e.concretize(a[1], 64), hi = (long)e.concretize(a[2], 64); if (e.concrete) return vc_((uint64_t)vc_draw_int(e.cseed, b.c_str(), k, lo, hi)); if (lo > hi) throw PathEnd(); long v = e.chooseRange(lo, hi); e.ivars.push_back({key, lo, hi, true, v, 0}); return vc_((uint64_t)v); })
    B("vc_assume", assumeV(e, a[0]); return vu_();)
    B("vc_nonzero", if (a[0].k == KC) { if (e.concrete ? !(std::fabs(bitsD(a[0].c)) > 1e-3) : bitsD(a[0].c) == 0) throw PathEnd(); return vu_(); } NodeId n = e.node(a[0], TD); e.nonzeroNodes.push_back(n); V c = e.rcmp(0, n, e.R.constant(0)); if (c.k == KC) { if (c.c) throw PathEnd(); } else e.addPC(c.ref, false); return vu_();)
    B("vc_check", std::string l = e.cstr(e.ptr(a[1])); V c = boolOf(e, a[0]); if (e.concrete) { if (e.clog) fprintf(e.clog, "%s %s C %d\n", e.curCase.c_str(), l.c_str(), c.k == KC ? (int)c.c : -1); return vu_(); } e.check(c, l); return vu_();)
    B("vc_eq", std::string l = e.cstr(e.ptr(a[2])); if (e.concrete) { vlog(e, "%s %s E %.17g %.17g\n", l, a[0].k == KC ? bitsD(a[0].c) : NAN, a[1].k == KC ? bitsD(a[1].c) : NAN); return vu_(); } e.checkEq(a[0], a[1], l); return vu_();)
    B("vc_near", std::string l = e.cstr(e.ptr(a[3])); if (e.concrete) return vu_(); if (a[0].k == KC && a[1].k == KC) { e.check(vc_(std::fabs(bitsD(a[0].c) - bitsD(a[1].c)) <= bitsD(a[2].c)), l); return vu_(); } if (a[0].k == KU || a[1].k == KU) { e.failPath(l, "uninitialised value"); return vu_(); } NodeId p = e.node(a[0], TD), q = e.node(a[1], TD), t = e.node(a[2], TD); NodeId d = e.R.sub(p, q); e.check(e.band(e.rcmp(2, d, t), e.rcmp(2, e.R.neg(t), d), false), l); return vu_();)
    B("vc_cover", e.covers.insert(e.cstr(e.ptr(a[0]))); return vu_();)
    B("vc_undef", e.setMem(e.ptr(a[0]), vu_(), e.concretize(a[1], 64)); return vu_();)
    B("vc_isundef", uint64_t p = e.ptr(a[0]), n = e.concretize(a[1], 64); if (!n) return vc_(0); uint32_t o; Region& r = e.access(p, n, o, false); bool u = false; for (uint64_t i = 0; i < n; ++i) if (r.st[o + i] == 0) u = true; return vc_(u);)
    B("vc_symbolic", return vc_(!e.concrete);)
    B("vc_uf1", std::string n = e.cstr(e.ptr(a[0])); if (e.concrete) return dbl(vc_ufval(n.c_str(), bitsD(a[1].c), 0)); uint32_t i; auto& u = e.R.ufNames; for (i = 0; i < u.size(); ++i) if (u[i] == n) break; if (i == u.size()) u.push_back(n); return vr_(e.R.fn1(Fn::Uf, e.node(a[1], TD), i));)
    B("vc_uf2", std::string n = e.cstr(e.ptr(a[0])); if (e.concrete) return dbl(vc_ufval(n.c_str(), bitsD(a[1].c), bitsD(a[2].c))); uint32_t i; auto& u = e.R.ufNames; for (i = 0; i < u.size(); ++i) if (u[i] == n) break; if (i == u.size()) u.push_back(n); return vr_(e.R.fn2(Fn::Uf, e.node(a[1], TD), e.node(a[2], TD), i));)
    B("vc_scale", return vu_();)
    B("vc_bounded", e.boundedWhy.insert(e.cstr(e.ptr(a[0]))); return vu_();)
    // ---- memory
    for (const char* n : {"malloc", "_Znwm", "_Znam"}) B(n, uint64_t s = e.concretize(a[0], 64); return vc_(e.alloc(s, 3));)
    for (const char* n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B(n, uint64_t s = e.concretize(a[0], 64); return vc_(e.alloc(s, 3));)
    B("calloc", uint64_t s = e.concretize(a[0], 64) * e.concretize(a[1], 64); uint64_t p = e.alloc(s, 3); e.setMem(p, vc_(0), s); return vc_(p);)
    B("realloc", uint64_t o = e.ptr(a[0]), s = e.concretize(a[1], 64); uint64_t p = e.alloc(s, 3); if (o) { Region* r = e.region(o); if (!r || r->kind != 3 || r->base != o) throw Violation{"memory", "realloc of an invalid pointer"}; e.copyMem(p, o, std::min<uint64_t>(s, r->size)); e.freeSlot(((o >> 28) & 0xFFFFF) - 1); } return vc_(p);)
    B("posix_memalign", uint64_t s = e.concretize(a[2], 64); e.storeN(e.ptr(a[0]), 8, vc_(e.alloc(s, 3))); return vc_(0);)
    for (const char* n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"}) B(n, if (a[0].k == KU) throw Violation{"uninitialised", "free of an uninitialised pointer"}; uint64_t p = e.ptr(a[0]); if (!p) return vu_(); Region* r = e.region(p); if (!r || r->kind != 3 || r->base != p) throw Violation{"memory", "free of a pointer that is not the start of a live heap object (double free or invalid free)"}; e.freeSlot(((p >> 28) & 0xFFFFF) - 1); return vu_();)
    for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove"}) B(n, uint64_t k = e.concretize(a[2], 64); if (k) e.copyMem(e.ptr(a[0]), e.ptr(a[1]), k); return a[0];)
    for (const char* n : {"llvm.memset", "memset"}) B(n, V v = a[1]; if (v.k == KC) v.c &= 255; uint64_t k = e.concretize(a[2], 64); if (k) e.setMem(e.ptr(a[0]), v, k); return a[0];)
    for (const char* n : {"memcmp", "bcmp", "strncmp"}) B(n, uint64_t p = e.ptr(a[0]), q = e.ptr(a[1]), k = e.concretize(a[2], 64); for (uint64_t i = 0; i < k; ++i) { uint64_t c = e.concretize(e.loadN(p + i, 1), 8), d = e.concretize(e.loadN(q + i, 1), 8); if (c != d) return vc_((uint32_t)(c < d ? -1 : 1)); if (x.callee && x.callee->getName() == "strncmp" && !c) break; } return vc_(0);)
    B("strcmp", uint64_t p = e.ptr(a[0]), q = e.ptr(a[1]); for (uint64_t i = 0;; ++i) { uint64_t c = e.concretize(e.loadN(p + i, 1), 8), d = e.concretize(e.loadN(q + i, 1), 8); if (c != d) return vc_((uint32_t)(c < d ? -1 : 1)); if (!c) return vc_(0); })
    // std::to_string(int): decimal digits when the argument is known, an empty string otherwise (only used in messages)
    B("_ZNSt7__cxx119to_stringEi", uint64_t p = e.ptr(a[0]); std::string s; if (a[1].k == KC) s = std::to_string((int)(uint32_t)a[1].c); e.storeN(p, 8, vc_(p + 16)); e.storeN(p + 8, 8, vc_(s.size())); for (size_t i = 0; i < s.size(); ++i) e.storeN(p + 16 + i, 1, vc_((uint8_t)s[i])); e.storeN(p + 16 + s.size(), 1, vc_(0)); return vu_();)
    B("_ZNSt7__cxx119to_stringEm", uint64_t p = e.ptr(a[0]); std::string s; if (a[1].k == KC) s = std::to_string((unsigned long)a[1].c); e.storeN(p, 8, vc_(p + 16)); e.storeN(p + 8, 8, vc_(s.size())); for (size_t i = 0; i < s.size(); ++i) e.storeN(p + 16 + i, 1, vc_((uint8_t)s[i])); e.storeN(p + 16 + s.size(), 1, vc_(0)); return vu_();)
    B("_ZNSt7__cxx119to_stringEj", uint64_t p = e.ptr(a[0]); std::string s; if (a[1].k == KC) s = std::to_string((uint32_t)a[1].c); e.storeN(p, 8, vc_(p + 16)); e.storeN(p + 8, 8, vc_(s.size())); for (size_t i = 0; i < s.size(); ++i) e.storeN(p + 16 + i, 1, vc_((uint8_t)s[i])); e.storeN(p + 16 + s.size(), 1, vc_(0)); return vu_();)
    B("_ZNSt7__cxx119to_stringEl", uint64_t p = e.ptr(a[0]); std::string s; if (a[1].k == KC) s = std::to_string((long)a[1].c); e.storeN(p, 8, vc_(p + 16)); e.storeN(p + 8, 8, vc_(s.size())); for (size_t i = 0; i < s.size(); ++i) e.storeN(p + 16 + i, 1, vc_((uint8_t)s[i])); e.storeN(p + 16 + s.size(), 1, vc_(0)); return vu_();)
    B("strlen", uint64_t p = e.ptr(a[0]); uint64_t i = 0; while (e.concretize(e.loadN(p + i, 1), 8)) ++i; return vc_(i);)
    B("memchr", uint64_t p = e.ptr(a[0]), n = e.concretize(a[2], 64); for (uint64_t i = 0; i < n; ++i) if (e.concretize(e.loadN(p + i, 1), 8) == (a[1].c & 255)) return vc_(p + i); return vc_(0);)
    B("strtod", uint64_t p = e.ptr(a[0]); std::string s = e.cstr(p); char* en; double d = strtod(s.c_str(), &en); if (a[1].k == KC && a[1].c) e.storeN(a[1].c, 8, vc_(p + (en - s.c_str()))); return dbl(d);)
    for (const char* n : {"strtol", "strtoll", "__isoc23_strtol"}) B(n, uint64_t p = e.ptr(a[0]); std::string s = e.cstr(p); char* en; long d = strtol(s.c_str(), &en, (int)a[2].c); if (a[1].k == KC && a[1].c) e.storeN(a[1].c, 8, vc_(p + (en - s.c_str()))); return vc_((uint64_t)d);)
    for (const char* n : {"strtoul", "strtoull", "__isoc23_strtoul"}) B(n, uint64_t p = e.ptr(a[0]); std::string s = e.cstr(p); char* en; unsigned long d = strtoul(s.c_str(), &en, (int)a[2].c); if (a[1].k == KC && a[1].c) e.storeN(a[1].c, 8, vc_(p + (en - s.c_str()))); return vc_((uint64_t)d);)
    B("__errno_location", static thread_local uint64_t p = 0; (void)p; uint64_t q = e.alloc(8, 1); e.setMem(q, vc_(0), 8); return vc_(q);)
    for (const char* n : {"isspace", "isdigit", "isalpha", "isalnum", "toupper", "tolower"}) B(n, int c = (int)e.concretize(a[0], 32); std::string nm = x.callee->getName().str(); int r = nm == "isspace" ? !!isspace(c) : nm == "isdigit" ? !!isdigit(c) : nm == "isalpha" ? !!isalpha(c) : nm == "isalnum" ? !!isalnum(c) : nm == "toupper" ? toupper(c) : tolower(c); return vc_((uint32_t)r);)
    for (const char* n : {"snprintf", "vsnprintf", "sprintf"}) B(n, bool has = a[0].k == KC && a[0].c; if (has) e.setMem(a[0].c, vc_(0), 1); return vc_(0);)
    for (const char* n : {"printf", "fprintf", "puts", "putchar", "vprintf", "fflush", "fputs", "fwrite", "fputc"}) B(n, return vc_(1);)
    // ---- C++ runtime
    B("__cxa_allocate_exception", return vc_(e.alloc(e.concretize(a[0], 64), 3));)
    B("__cxa_free_exception", return vu_();)
    B("__cxa_throw", e.excPtr = e.ptr(a[0]); e.excType = e.ptr(a[1]); e.excTypeOf[e.excPtr] = e.excType; throw Exec::ThrowNow();)
    for (const char* n : {"__cxa_begin_catch", "__cxa_get_exception_ptr"}) B(n, if (x.callee && x.callee->getName() == "__cxa_begin_catch") g_caught.push_back(e.ptr(a[0])); return a[0];)
    B("__cxa_end_catch", if (!g_caught.empty()) g_caught.pop_back(); return vu_();)
    B("__cxa_rethrow", if (g_caught.empty()) throw Violation{"exception", "rethrow without an active exception"}; e.excPtr = g_caught.back(); g_caught.pop_back(); e.excType = e.excTypeOf[e.excPtr]; throw Exec::ThrowNow();)
    B("__cxa_guard_acquire", uint64_t p = e.ptr(a[0]); V v = e.loadN(p, 1); return vc_(!(v.k == KC && v.c));)
    B("__cxa_guard_release", e.storeN(e.ptr(a[0]), 1, vc_(1)); return vu_();)
    for (const char* n : {"__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "__cxa_call_unexpected"}) B(n, return vc_(0);)
    for (const char* n : {"__clang_call_terminate", "_ZSt9terminatev", "abort", "exit", "__cxa_pure_virtual"}) B(n, throw Violation{"termination", "the program terminates here (std::terminate, abort or a pure virtual call)"};)
    B("__assert_fail", throw Violation{"assertion", "assertion failed: " + e.cstr(e.ptr(a[0]))};)
    B("__dynamic_cast", uint64_t p = e.ptr(a[0]); if (!p) return vc_(0); uint64_t vt = e.ptr(e.loadN(p, 8)); uint64_t ti = e.ptr(e.loadN(vt - 8, 8)); uint64_t ot = e.ptr(e.loadN(vt - 16, 8)); return e.typeMatches(ti, e.ptr(a[2])) ? vc_(p + ot) : vc_(0);)
    B("llvm.eh.typeid.for", return vc_((uint32_t)e.typeId(e.ptr(a[0])));)
#define T(n, ti) B(n, throwStd(e, ti); return vu_();)
    T("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range") T("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range") T("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error") T("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc") T("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length") T("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call") T("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error") T("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument") T("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast") T("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error") T("_ZSt20__throw_system_errori", "_ZTISt12system_error") T("_ZSt15__throw_bad_weak_ptrv", "_ZTISt12bad_weak_ptr")
    for (const char* n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock"}) B(n, return vc_(0);)
    B("omp_get_thread_num", return vc_(0);) B("omp_get_max_threads", return vc_(1);) B("omp_get_num_threads", return vc_(1);)
    B("std_nop", return a.empty() ? vu_() : a[0];)
    // ---- maths
#define M1(n, F, cf) B(n, return e.mathFn(F, a[0], x.tk2, [](double t) -> double { return cf(t); });)
    M1("sqrt", Fn::Sqrt, std::sqrt) M1("llvm.sqrt", Fn::Sqrt, std::sqrt) M1("sqrtf", Fn::Sqrt, std::sqrt) M1("cbrt", Fn::Cbrt, std::cbrt) M1("exp", Fn::Exp, std::exp) M1("llvm.exp", Fn::Exp, std::exp) M1("log", Fn::Log, std::log) M1("llvm.log", Fn::Log, std::log)
    M1("sin", Fn::Sin, std::sin) M1("llvm.sin", Fn::Sin, std::sin) M1("cos", Fn::Cos, std::cos) M1("llvm.cos", Fn::Cos, std::cos) M1("tan", Fn::Tan, std::tan) M1("asin", Fn::Asin, std::asin) M1("acos", Fn::Acos, std::acos) M1("atan", Fn::Atan, std::atan)
    M1("sinh", Fn::Sinh, std::sinh) M1("cosh", Fn::Cosh, std::cosh) M1("tanh", Fn::Tanh, std::tanh) M1("expm1", Fn::Expm1, std::expm1) M1("log1p", Fn::Log1p, std::log1p)
    for (const char* n : {"fabs", "fabsf", "llvm.fabs"}) B(n, return fabsV(e, a, x);)
    for (const char* n : {"pow", "llvm.pow"}) B(n, return powV(e, a, x);)
    B("llvm.powi", if (a[0].k == KC && a[1].k == KC) return dbl(std::pow(bitsD(a[0].c), (int)a[1].c)); int k = (int)e.concretize(a[1], 32); V r = dbl(1); V b = a[0]; for (int i = 0; i < std::abs(k); ++i) r = e.fbin(Instruction::FMul, r, b, TD); return k < 0 ? e.fbin(Instruction::FDiv, dbl(1), r, TD) : r;)
    B("atan2", if (a[0].k == KC && a[1].k == KC) return dbl(std::atan2(bitsD(a[0].c), bitsD(a[1].c))); if (a[0].k == KU || a[1].k == KU) return vu_(); return vr_(e.R.fn2(Fn::Atan2, e.node(a[0], TD), e.node(a[1], TD)));)
    B("hypot", if (a[0].k == KC && a[1].k == KC) return dbl(std::hypot(bitsD(a[0].c), bitsD(a[1].c))); if (a[0].k == KU || a[1].k == KU) return vu_(); NodeId p = e.node(a[0], TD), q = e.node(a[1], TD); return vr_(e.R.fn1(Fn::Sqrt, e.R.add(e.R.mul(p, p), e.R.mul(q, q))));)
    for (const char* n : {"fmax", "llvm.maxnum", "fmaxf"}) B(n, return fminmax(e, a, x, true);)
    for (const char* n : {"fmin", "llvm.minnum", "fminf"}) B(n, return fminmax(e, a, x, false);)
    for (const char* n : {"llvm.fmuladd", "llvm.fma", "fma"}) B(n, return e.fbin(Instruction::FAdd, e.fbin(Instruction::FMul, a[0], a[1], x.tk2), a[2], x.tk2);)
#define MC(n, cf) B(n, if (a[0].k != KC) { mpq_class q; if (a[0].k == KR && e.R.isConst(a[0].ref, &q)) return dbl(cf(q.get_d())); throw Unsupported{"rounding of a symbolic real"}; } return x.tk2 == TF ? vc_(fBits((float)cf(bitsF(a[0].c)))) : dbl(cf(bitsD(a[0].c)));)
    for (const char* n : {"floor", "llvm.floor"}) B(n, if (a[0].k == KC && x.tk2 == TF) return vc_(fBits(std::floor(bitsF(a[0].c)))); return e.namedFn("@floor", a[0], nullptr, [](double t, double) { return std::floor(t); });)
    for (const char* n : {"ceil", "llvm.ceil"}) B(n, if (a[0].k == KC && x.tk2 == TF) return vc_(fBits(std::ceil(bitsF(a[0].c)))); return e.namedFn("@ceil", a[0], nullptr, [](double t, double) { return std::ceil(t); });)
    B("erf", return e.namedFn("@erf", a[0], nullptr, [](double t, double) { return std::erf(t); });) B("erfc", return e.namedFn("@erfc", a[0], nullptr, [](double t, double) { return std::erfc(t); });) B("tgamma", return e.namedFn("@tgamma", a[0], nullptr, [](double t, double) { return std::tgamma(t); });) B("lgamma", return e.namedFn("@lgamma", a[0], nullptr, [](double t, double) { return std::lgamma(t); });)
    B("fmod", return e.namedFn("@fmod", a[0], &a[1], [](double s, double t) { return std::fmod(s, t); });)
   MC("round", std::round) MC("llvm.round", std::round) MC("trunc", std::trunc) MC("llvm.trunc", std::trunc) MC("llvm.rint", std::rint) MC("llvm.nearbyint", std::nearbyint)
    for (const char* n : {"llvm.lround", "lround", "llvm.lrint", "llvm.llround"}) B(n, if (a[0].k != KC) throw Unsupported{"rounding of a symbolic real"}; return vc_((uint64_t)std::lround(bitsD(a[0].c)));)
    for (const char* n : {"copysign", "llvm.copysign"}) B(n, if (a[0].k == KC && a[1].k == KC) return dbl(std::copysign(bitsD(a[0].c), bitsD(a[1].c))); Args t{a[0]}; V m = fabsV(e, t, x); bool neg; if (a[1].k == KC) neg = std::signbit(bitsD(a[1].c)); else neg = e.decide(e.fcmp(CmpInst::FCMP_OLT, a[1], dbl(0), TD)); if (!neg) return m; return m.k == KR ? vr_(e.R.neg(m.ref)) : dbl(-bitsD(m.c));)
    for (const char* n : {"ilogb"}) B(n, if (a[0].k != KC) { mpq_class q; if (a[0].k == KR && e.R.isConst(a[0].ref, &q)) return vc_((uint32_t)ilogb(q.get_d())); throw Unsupported{"exponent of a symbolic real"}; } return vc_((uint32_t)ilogb(bitsD(a[0].c)));)
    B("llvm.is.fpclass", if (a[0].k == KU) return a[0]; unsigned m = (unsigned)a[1].c; if (a[0].k != KC) { if ((m & ~0x207u) == 0 && !(m & 0x1F8)) return vc_(0); if ((m & 0x1F8) == 0x1F8) return vc_(1); throw Unsupported{"is.fpclass of a symbolic real"}; } double d = bitsD(a[0].c); unsigned c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256); return vc_((m & c) != 0);)
    for (const char* n : {"isnan", "__isnan"}) B(n, return vc_(a[0].k == KC && std::isnan(bitsD(a[0].c)));)
    // ---- integer intrinsics
    B("llvm.umul.with.overflow", return overflowOp(e, a, x, Instruction::Mul, false);) B("llvm.smul.with.overflow", return overflowOp(e, a, x, Instruction::Mul, true);)
    B("llvm.uadd.with.overflow", return overflowOp(e, a, x, Instruction::Add, false);) B("llvm.sadd.with.overflow", return overflowOp(e, a, x, Instruction::Add, true);)
    B("llvm.usub.with.overflow", return overflowOp(e, a, x, Instruction::Sub, false);) B("llvm.ssub.with.overflow", return overflowOp(e, a, x, Instruction::Sub, true);)
    B("llvm.umin", return minmax(e, a, x, CmpInst::ICMP_ULT);) B("llvm.umax", return minmax(e, a, x, CmpInst::ICMP_UGT);) B("llvm.smin", return minmax(e, a, x, CmpInst::ICMP_SLT);) B("llvm.smax", return minmax(e, a, x, CmpInst::ICMP_SGT);)
    B("llvm.usub.sat", V c = e.icmp(CmpInst::ICMP_ULT, a[0], a[1], x.w2); if (e.decide(c)) return vc_(0); return e.ibin(Instruction::Sub, a[0], a[1], x.w2);)
    B("llvm.uadd.sat", V s = e.ibin(Instruction::Add, a[0], a[1], x.w2); V c = e.icmp(CmpInst::ICMP_ULT, s, a[0], x.w2); if (e.decide(c)) return vc_(maskw(~0ull, x.w2)); return s;)
    B("llvm.abs", V c = e.icmp(CmpInst::ICMP_SLT, a[0], vc_(0), x.w2); V n = e.ibin(Instruction::Sub, vc_(0), a[0], x.w2); Inst t = x; t.tk = TI; t.w = x.w2; return e.selectOp(t, c, n, a[0]);)
    B("llvm.ctlz", return bvUn(e, a[0], x.w2, [](uint64_t c, unsigned w) -> uint64_t { unsigned n = 0; for (int i = w - 1; i >= 0 && !(c >> i & 1); --i) ++n; return n; });)
    B("llvm.cttz", return bvUn(e, a[0], x.w2, [](uint64_t c, unsigned w) -> uint64_t { unsigned n = 0; while (n < w && !(c >> n & 1)) ++n; return n; });)
    B("llvm.ctpop", return bvUn(e, a[0], x.w2, [](uint64_t c, unsigned) -> uint64_t { return __builtin_popcountll(c); });)
    B("llvm.bswap", return bvUn(e, a[0], x.w2, [](uint64_t c, unsigned w) -> uint64_t { return __builtin_bswap64(c) >> (64 - w); });)
    for (const char* n : {"llvm.fshl", "llvm.fshr"}) B(n, unsigned w = x.w2; uint64_t p = e.concretize(a[0], w), q = e.concretize(a[1], w), s = e.concretize(a[2], w) % w; if (x.callee->getName().starts_with("llvm.fshl")) return vc_(s ? maskw(p << s | q >> (w - s), w) : p); return vc_(s ? maskw(q >> s | p << (w - s), w) : q);)
    for (const char* n : {"llvm.expect", "llvm.expect.with.probability", "llvm.threadlocal.address", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation", "llvm.ssa.copy"}) B(n, return a[0];)
    for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.invariant.start", "llvm.invariant.end", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.prefetch", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.stackrestore", "llvm.sideeffect"}) B(n, return vu_();)
    B("llvm.stacksave", return vc_(0);)
    B("llvm.is.constant", return vc_(0);)
    B("llvm.objectsize", return vc_(~0ull);)
    for (const char* n : {"llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"}) B(n, throw Violation{"trap", "a trap is reached"};)
    return 0;
}
static int g_setup = setupBuiltins();
void Exec::resolve(Inst& x, const Function* f) {
    x.builtin = 0;
    if (f->isIntrinsic()) { auto it = g_bidx.find(Intrinsic::getBaseName(f->getIntrinsicID()).str()); if (it != g_bidx.end()) x.builtin = it->second; return; }
    std::string n = f->getName().str();
    auto it = g_bidx.find(n);
    if (it != g_bidx.end()) { x.builtin = it->second; return; }
    if (!f->isDeclaration()) return;
    if (n == "__gxx_personality_v0") return;
    static const char* pre[] = {"_ZNSo", "_ZNSi", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZNSt8ios_base", "_ZNSt6locale", "_ZNKSt6locale", "_ZSt16__ostream_insert", "_ZNSt9basic_ios"};
    for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) { x.builtin = g_bidx["std_nop"]; return; }
    if (n.compare(0, 5, "_ZNSt") == 0 && (n.find("_error") != std::string::npos || n.find("exception") != std::string::npos || n.find("out_of_range") != std::string::npos || n.find("invalid_argument") != std::string::npos || n.find("bad_") != std::string::npos)) { x.builtin = g_bidx["std_nop"]; return; }
}
