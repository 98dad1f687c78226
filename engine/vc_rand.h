#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
static inline uint64_t vc_mix(uint64_t x){ x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static inline uint64_t vc_hash(uint64_t seed, const char* name, unsigned k){ uint64_t h = vc_mix(seed * 1000003 + k); for (const char* p = name; *p; ++p) h = vc_mix(h ^ (unsigned char)*p); return h; }
static inline double vc_draw_real(uint64_t seed, const char* name, unsigned k, double lo, double hi){
    uint64_t h = vc_hash(seed, name, k);
    if (lo > hi) { double y = vc_draw_real(seed, name, k, hi, lo); return (vc_mix(h ^ 0x5DEECE66Dull) & 1) ? -y : y; }   // [hi, lo] with either sign
    double u = (double)(vc_mix(h) >> 11) * (1.0 / 9007199254740992.0);
    double x = lo + (hi - lo) * u;
    double y = (double)((long long)(x * 4096)) / 4096;   // a short dyadic keeps replay files readable
    if (y < lo || y > hi) y = x;
    return y;
}
static inline long vc_draw_int(uint64_t seed, const char* name, unsigned k, long lo, long hi){ uint64_t h = vc_hash(seed, name, k); unsigned long n = (unsigned long)hi - (unsigned long)lo + 1; if (n == 0) return (long)h; return lo + (long)(h % n); }
static inline double vc_ufval(const char* name, double x, double y){   // a fixed smooth function per name
    if (*name == '@') { if (!strcmp(name, "@erf")) return erf(x); if (!strcmp(name, "@erfc")) return erfc(x); if (!strcmp(name, "@tgamma")) return tgamma(x); if (!strcmp(name, "@lgamma")) return lgamma(x); if (!strcmp(name, "@fmod")) return fmod(x, y); if (!strcmp(name, "@floor")) return floor(x); if (!strcmp(name, "@ceil")) return ceil(x); }   // library functions known by name only
    uint64_t h = vc_hash(77, name, 0); double u = (double)(h & 1023) / 256, a = 0.5 + (double)((h >> 10) & 255) / 200, b = 0.5 + (double)((h >> 20) & 255) / 200;
    return sin(u + a * x + b * y);
}
