// Contract language used by the files in /verif/contracts. The same file is (a) compiled to LLVM IR together with
// the code under /repo and handed to the verifier and (b) compiled natively as the replay / bounded-check driver.
#pragma once
#include <cstddef>
extern "C" {
double vc_real(const char* name, double lo, double hi);     // fresh real, for ALL reals; [lo,hi] only guides sampling (lo > hi: samples from [hi,lo] with either sign)
double vc_real_in(const char* name, double lo, double hi);  // fresh real with lo <= x <= hi assumed
long   vc_int(const char* name, long lo, long hi);          // fresh integer with lo <= x <= hi assumed (symbolic)
long   vc_choose(const char* name, long lo, long hi);       // every value lo..hi is explored as a separate case
void   vc_assume(int cond);
void   vc_nonzero(double x);                                // assume x != 0 (non-degenerate input)
void   vc_check(int cond, const char* label);
void   vc_eq(double code, double spec, const char* label);  // equality over the reals
void   vc_near(double code, double spec, double tol, const char* label); // |code-spec| <= tol (absolute)
void   vc_cover(const char* label);                         // reachability marker (vacuity guard)
void   vc_undef(void* p, size_t nbytes);                    // mark memory as uninitialised
int    vc_isundef(const void* p, size_t nbytes);            // 1 if any byte is uninitialised (natively: poison pattern)
int    vc_symbolic(void);                                   // 1 inside the verifier, 0 natively
double vc_uf1(const char* name, double x);                  // uninterpreted function (natively: some fixed function)
double vc_uf2(const char* name, double x, double y);
void   vc_scale(double s);                                  // natively: magnitude used by the tolerance of vc_eq
void   vc_bounded(const char* why);                         // this case is a bounded check: never count it as proved
}
#ifdef VC_NATIVE
void vc_register(const char* name, void (*f)(), int negated);
struct vc_registrar { vc_registrar(const char* n, void (*f)(), int g) { vc_register(n, f, g); } };
#define VC(name) extern "C" void vc_case_##name(); static vc_registrar vc_reg_##name(#name, vc_case_##name, 0); extern "C" void vc_case_##name()
#define VC_NEG(name) extern "C" void vc_neg_##name(); static vc_registrar vc_nreg_##name(#name, vc_neg_##name, 1); extern "C" void vc_neg_##name()
#else
#define VC(name) extern "C" __attribute__((used)) void vc_case_##name()
#define VC_NEG(name) extern "C" __attribute__((used)) void vc_neg_##name()
#endif
