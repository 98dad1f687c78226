// Native runtime of the contract language: bounded checks on random inputs and replay of counterexamples.
#define VC_NATIVE
#include "vc.h"
#include "vc_rand.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>
struct vc_discard {};
struct Reg { const char* n; void (*f)(); int neg; };
static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
void vc_register(const char* n, void (*f)(), int neg) { regs().push_back({n, f, neg}); }
static uint64_t g_seed; static std::map<std::string, unsigned> g_cnt; static std::map<std::string, double> g_rep; static std::map<std::string, long> g_repi; static bool g_replay = false; static long g_search = 0;   // g_search: 0 no, otherwise number of the attempt to find a failing input for a refuted obligation
static FILE* g_log = nullptr; static long g_checks = 0, g_fails = 0; static std::string g_firstFail; static double g_scale = 0; static const char* g_cur = "";
static std::vector<std::pair<std::string, std::string>> g_vals; static std::map<std::string,long> g_covers; static std::map<std::string,long> g_bounded;
static std::string key(const char* n, unsigned k) { return std::string(n) + "#" + std::to_string(k); }
static void note(const std::string& k, const char* v) { if (g_vals.size() < 4000) g_vals.emplace_back(k, v); }
static void fail(const char* label, const char* det) { ++g_fails; if (g_firstFail.empty()) g_firstFail = std::string(label) + ": " + det; }
// inputs tried after a refutation whose model does not fail natively: the model perturbed, several magnitudes, special values
static double searchReal(const std::string& s, const char* n, unsigned k, double lo, double hi, bool bound) {
    uint64_t h = vc_mix(vc_hash(g_seed, n, k) + 17 * g_search); double u = (double)(h >> 11) / 9007199254740992.0, v; auto it = g_rep.find(s);
    int mode = g_search % 4;
    if (mode == 0 && it != g_rep.end()) v = it->second + (2 * u - 1) * std::pow(10., -(double)((g_search / 4) % 12));
    else { v = vc_draw_real(g_seed, n, k, lo, hi); if (mode == 2) v *= std::pow(10., -(double)((g_search / 4) % 10)); if (mode == 3 && it != g_rep.end() && (h & 1)) v = it->second; if (mode == 1 && (h & 3) == 0) { static const double sp[] = {0, 1, -1, 0.5, 0, 0, 2, 1e-9}; v = sp[(h >> 3) & 7]; } }
    if (bound) v = std::min(std::max(v, lo), hi);
    return v;
}
extern "C" {
double vc_real(const char* n, double lo, double hi) { unsigned k = g_cnt[n]++; auto s = key(n, k); double v; auto it = g_rep.find(s); if (g_search) v = searchReal(s, n, k, lo, hi, false); else if (g_replay && it != g_rep.end()) v = it->second; else v = vc_draw_real(g_seed, n, k, lo, hi); char b[64]; snprintf(b, 64, "%.17g", v); note(s, b); return v; }
double vc_real_in(const char* n, double lo, double hi) { if (!g_search) return vc_real(n, lo, hi); unsigned k = g_cnt[n]++; auto s = key(n, k); double v = searchReal(s, n, k, lo, hi, true); char b[64]; snprintf(b, 64, "%.17g", v); note(s, b); return v; }
long vc_int(const char* n, long lo, long hi) { unsigned k = g_cnt[n]++; auto s = key(n, k); long v; auto it = g_repi.find(s); if ((g_replay || (g_search && g_search % 8 < 6)) && it != g_repi.end()) v = it->second; else v = vc_draw_int(g_seed, n, k, lo, hi); char b[64]; snprintf(b, 64, "%ld", v); note(s, b); return v; }
long vc_choose(const char* n, long lo, long hi) { return vc_int(n, lo, hi); }
void vc_assume(int c) { if (!c) throw vc_discard(); }
void vc_nonzero(double x) { if (!(std::fabs(x) > (g_replay ? 0 : g_search ? 1e-30 : 1e-3))) throw vc_discard(); }
void vc_check(int c, const char* l) { ++g_checks; if (g_log) fprintf(g_log, "%s %s C %d\n", g_cur, l, !!c); if (!c) fail(l, "condition is false"); }
void vc_eq(double a, double b, const char* l) { ++g_checks; if (g_log) fprintf(g_log, "%s %s E %.17g %.17g\n", g_cur, l, a, b); double s = std::max(std::max(std::fabs(a), std::fabs(b)), std::max(1.0, g_scale)); if (!(std::fabs(a - b) <= 1e-6 * s)) { char t[256]; snprintf(t, 256, "code gives %.17g, contract requires %.17g", a, b); fail(l, t); } }
void vc_near(double a, double b, double tol, const char* l) { ++g_checks; if (!(std::fabs(a - b) <= tol)) { char t[256]; snprintf(t, 256, "code gives %.17g, contract requires %.17g (tolerance %g)", a, b, tol); fail(l, t); } }
void vc_cover(const char* l) { g_covers[l]++; }
static const unsigned char POIS[8] = {0xA5, 0x5A, 0xA5, 0x5A, 0xA5, 0x5A, 0xFC, 0x7F};   // a NaN with a recognisable payload
void vc_undef(void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = POIS[i % 8]; }
int vc_isundef(const void* p, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) if (!memcmp((const char*)p + i, POIS, 8)) return 1; return 0; }
int vc_symbolic(void) { return 0; }
double vc_uf1(const char* n, double x) { return vc_ufval(n, x, 0); }
double vc_uf2(const char* n, double x, double y) { return vc_ufval(n, x, y); }
void vc_scale(double s) { g_scale = s; }
void vc_bounded(const char*) {}
}
static const Reg* g_curReg = nullptr; static const char* g_outReplay = nullptr;
static void dumpReplay(const char* why) {
    if (!g_outReplay) return; FILE* f = fopen(g_outReplay, "w"); if (!f) return;
    fprintf(f, "# %s\ncase %s\n", why, g_curReg ? g_curReg->n : "?"); for (auto& v : g_vals) fprintf(f, "%s %s\n", v.first.c_str(), v.second.c_str()); fclose(f);
}
static int runOne(const Reg& r) {   // 0 ok 1 fail 2 discarded
    g_cnt.clear(); g_vals.clear(); g_scale = 0; g_firstFail.clear(); g_curReg = &r; g_cur = r.n; long f0 = g_fails;
    try { r.f(); } catch (vc_discard&) { return 2; } catch (std::exception& e) { fail("unexpected exception", e.what()); }
    return g_fails > f0;
}
static void onAbort(int sig) { // assertion failure in the code under test
    char b[64]; snprintf(b, 64, "signal %d (assertion failure or crash in the code under test)", sig);
    dumpReplay(b); printf("NATIVE-FAIL %s signal %d\n", g_cur, sig); fflush(stdout); _exit(3);
}
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
static void onDeath() { dumpReplay("memory error reported by the sanitizer"); printf("NATIVE-FAIL %s sanitizer\n", g_cur); fflush(stdout); }
int main(int argc, char** argv) {
    long iters = 50; uint64_t seed = 1; std::string only; const char* rep = nullptr; const char* lg = nullptr; bool neg = false; long search = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--iters") iters = atol(argv[++i]); else if (a == "--seed") seed = strtoull(argv[++i], 0, 10); else if (a == "--case") only = argv[++i];
        else if (a == "--replay") rep = argv[++i]; else if (a == "--log") lg = argv[++i]; else if (a == "--out-replay") g_outReplay = argv[++i]; else if (a == "--search") search = atol(argv[++i]); else if (a == "--neg") neg = true;
        else if (a == "--list") { for (auto& r : regs()) printf("%s%s\n", r.n, r.neg ? " neg" : ""); return 0; }
    }
    signal(SIGABRT, onAbort); signal(SIGSEGV, onAbort); signal(SIGFPE, onAbort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    if (lg) g_log = fopen(lg, "w");
    if (rep) {
        FILE* f = fopen(rep, "r"); if (!f) { perror(rep); return 2; }
        char line[1024]; g_replay = true; std::string cs;
        while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; char k[512], v[512]; if (sscanf(line, "%511s %511s", k, v) != 2) continue; if (!strcmp(k, "case")) cs = v; else if (strchr(k, '#')) { g_rep[k] = strtod(v, 0); g_repi[k] = strtol(v, 0, 10); } }
        fclose(f);
        if (search) {
            g_replay = false; alarm(60);
            for (auto& r : regs()) if (cs == r.n) for (g_search = 1; g_search <= search; ++g_search) { g_seed = vc_mix(seed * 31 + g_search); if (runOne(r) == 1) { dumpReplay(g_firstFail.c_str()); printf("REPLAY-FAIL %s %s\n", r.n, g_firstFail.c_str()); return 1; } }
            printf("REPLAY-OK %s (no failing input in the search)\n", cs.c_str()); return 0;
        }
        for (auto& r : regs()) if (cs == r.n) { alarm(120); int x = runOne(r); if (x == 1) { printf("REPLAY-FAIL %s %s\n", r.n, g_firstFail.c_str()); return 1; } printf("REPLAY-%s %s\n", x == 2 ? "DISCARDED" : "OK", r.n); return x == 2 ? 4 : 0; }
        printf("REPLAY-NOCASE %s\n", cs.c_str()); return 5;
    }
    int rc = 0;
    for (auto& r : regs()) {
        if (!only.empty() && only != r.n) continue;
        if (r.neg != (int)neg) continue;
        long done = 0, disc = 0, bad = 0; std::string first; g_checks = 0;
        for (long i = 0; i < iters; ++i) {
            bool ok = false;
            for (int t = 0; t < 50 && !ok; ++t) { g_seed = vc_mix(seed * 7919 + i * 101 + t); if (lg) g_seed = seed; int x = runOne(r); if (x == 2) { ++disc; if (lg) break; continue; } ok = true; ++done; if (x == 1) { if (!bad) { first = g_firstFail; if (!neg) dumpReplay(first.c_str()); } ++bad; } }
            if (bad && !lg) break;
        }
        printf("NATIVE %s runs %ld checks %ld discarded %ld fails %ld %s\n", r.n, done, g_checks, disc, bad, first.c_str()); fflush(stdout);
        if (bad && !neg) rc = 1;
    }
    if (g_log) fclose(g_log);
    return rc;
}
