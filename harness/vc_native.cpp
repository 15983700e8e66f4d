// native side of the contract vocabulary: runs the same contracts against the real compiled code
#define VC_NATIVE
#include "vc.h"
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <exception>
struct VcSkip {}; struct VcFail { const char* n; };
static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
VcReg::VcReg(const char* n, void (*f)()) { reg()[n] = f; }
static bool replaying = false; static std::map<std::string, uint64_t> rep; 
static std::map<std::string, int> occ; static std::vector<std::pair<std::string, uint64_t>> trace; static char kinds[65536];
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::map<std::string, long> checks; static const char* outpath; static const char* curh; static long iters = 0, passed = 0;
static uint64_t sizemix;
static uint64_t in(const char* n, uint64_t gen) {
    std::string k = std::string(n) + "#" + std::to_string(occ[n]++);
    uint64_t v = gen;
    if(replaying) { auto i = rep.find(k); v = i == rep.end() ? 0 : i->second; }
    trace.push_back(std::make_pair(k, v)); return v;
}
static void dump(const char* why) {
    if(!outpath) return; FILE* f = fopen(outpath, "w"); if(!f) return;
    fprintf(f, "FAIL %s\n", why); for(auto& t : trace) fprintf(f, "%s %llu\n", t.first.c_str(), (unsigned long long)t.second); fclose(f);
}
static uint64_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float bf(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static float lastf[8]; static int nlast = 0;
static bool tame = getenv("VC_TAME") != nullptr;
static float genf() {
    float r;
    if(tame) { switch(rnd() % 5) { case 0: r = (float)(int)(rnd() % 9) - 4.f; break; case 1: r = nlast ? lastf[rnd() % (nlast < 8 ? nlast : 8)] : 1.f; break; case 2: r = (float)(u01() * 8 - 4); break; default: r = ((float)(int)(rnd() % 129) - 64.f) / 8.f; } lastf[nlast++ % 8] = r; return r; }
    switch(rnd() % 14) {
        case 0: r = 0.f; break; case 1: r = (float)(int)(rnd() % 7) - 3.f; break; case 2: r = (float)u01(); break;
        case 3: case 4: case 5: r = (float)(u01() * 2 - 1); break; case 6: r = (float)(u01() * 20 - 10); break; case 7: r = (float)(u01() * 200 - 100); break;
        case 8: r = (float)(u01() * 2000 - 1000); break; case 9: r = (float)exp((u01() * 2 - 1) * 10) * (rnd() & 1 ? 1 : -1); break;
        case 10: r = nlast ? lastf[rnd() % (nlast < 8 ? nlast : 8)] : 1.f; break;
        case 11: r = nlast ? lastf[rnd() % (nlast < 8 ? nlast : 8)] * (rnd() & 1 ? -1.f : 1.f) + (rnd() & 1 ? 0.f : (float)(u01() * 0.1)) : -1.f; break;
        case 12: r = 0.5f * (float)(int)(rnd() % 9) - 2.f; break;
        default: r = (float)(u01() * 4 - 2); break;
    }
    lastf[nlast++ % 8] = r; return r;
}
static uint64_t geni(int w) {
    uint64_t m = w == 64 ? ~0ULL : ((1ULL << w) - 1);
    switch(rnd() % 7) { case 0: return rnd() % 4 & m; case 1: return (m - rnd() % 4) & m; case 2: return (rnd() % 64) & m; case 3: return (1ULL << (rnd() % w)) & m;
        case 4: return ((1ULL << (rnd() % w)) - 1) & m; case 5: return (rnd() % 1024) & m; default: return rnd() & m; }
}
extern "C" {
uint8_t vc_u8(const char* n) { return (uint8_t)in(n, geni(8)); }
uint16_t vc_u16(const char* n) { return (uint16_t)in(n, geni(16)); }
uint32_t vc_u32(const char* n) { return (uint32_t)in(n, geni(32)); }
uint64_t vc_u64(const char* n) { return in(n, geni(64)); }
bool vc_bool(const char* n) { return in(n, rnd() & 1) & 1; }
float vc_f32(const char* n) { float f = bf(in(n, fb(genf()))); if(std::isnan(f) || std::isinf(f)) throw VcSkip(); return f; }
float vc_f32any(const char* n) { uint64_t g = fb(genf()); uint64_t c = rnd() % 16; if(c == 0) g = fb(INFINITY); else if(c == 1) g = fb(-INFINITY); else if(c == 2) g = fb(NAN); else if(c == 3) g = rnd() & 0xffffffffu; return bf(in(n, g)); }
float vc_f32in(const char* n, float lo, float hi) {
    float g; switch(rnd() % 8) { case 0: g = lo; break; case 1: g = hi; break; case 2: g = lo + (hi - lo) * 0.5f; break; case 3: { g = genf(); if(!(g >= lo && g <= hi)) g = lo + (float)u01() * (hi - lo); break; } case 4: g = lo + (float)(u01() * 0.01) * (hi - lo); break; default: g = lo + (float)u01() * (hi - lo); }
    if(g < lo) g = lo; if(g > hi) g = hi;
    lastf[nlast++ % 8] = g;
    float f = bf(in(n, fb(g))); if(!(f >= lo && f <= hi)) throw VcSkip(); return f; }
double vc_f64(const char* n) { double d = genf(); uint64_t u; memcpy(&u, &d, 8); u = in(n, u); memcpy(&d, &u, 8); return d; }
uint32_t vc_u32in(const char* n, uint32_t lo, uint32_t hi) {
    uint64_t span = (uint64_t)hi - lo + 1; uint64_t g; switch(rnd() % 6) { case 0: g = lo; break; case 1: g = hi; break; case 2: g = lo + rnd() % (span < 8 ? span : 8); break; case 3: g = hi - rnd() % (span < 8 ? span : 8); break; default: g = lo + rnd() % span; }
    uint32_t v = (uint32_t)in(n, g); if(v < lo || v > hi) throw VcSkip(); return v; }
uint32_t vc_pick(const char* n, uint32_t k) { uint32_t v = (uint32_t)in(n, rnd() % k); if(v >= k) throw VcSkip(); return v; }
void vc_assume(bool c) { if(!c) throw VcSkip(); }
void vc_check(bool c, const char* n) { checks[n]++; if(!c) throw VcFail{n}; }
bool vc_symbolic() { return false; }
bool vc_and(bool a, bool b) { return a & b; } bool vc_or(bool a, bool b) { return a | b; } bool vc_implies(bool a, bool b) { return !a | b; }
bool vc_split(bool c) { return c; }
static float mag(float a, float b) { a = fabsf(a); b = fabsf(b); float m = a > b ? a : b; return m > 1.f ? m : 1.f; }
bool vc_feqtol(float a, float b, float tol) { if(std::isnan(a) || std::isnan(b)) return false; if(a == b) return true; if(std::isinf(a) || std::isinf(b)) return false; return fabsf(a - b) <= tol * mag(a, b); }
bool vc_fletol(float a, float b, float tol) { if(std::isnan(a) || std::isnan(b)) return false; if(a <= b) return true; if(std::isinf(a) || std::isinf(b)) return false; return a <= b + tol * mag(a, b); }
void vc_lemma(bool, const char*) {}
void vc_by(bool, bool, const char*) {}
float vc_name(float v) { return v; }
void vc_nat(bool c) { if(!c) throw VcSkip(); }
void vc_protos(void*, uint64_t, uint64_t, const void*) {}
void vc_ptrarray(void*, uint64_t, uint64_t, void*, uint64_t, uint64_t) {}
bool vc_replaying() { return replaying; }
void vc_note(const char*) {}
void vc_debug(uint64_t) {}
void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
}
static bool allowexit = getenv("VC_ALLOW_EXIT") != nullptr;
extern "C" void __wrap_exit(int) { if(allowexit) throw VcSkip(); throw VcFail{"fatal error exit reached"}; }
static void death() { dump("sanitizer"); }
static void sig(int s) { dump(s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : "crash"); _exit(3); }
static const char* runone(void (*f)()) {
    occ.clear(); trace.clear(); nlast = 0;
    try { f(); passed++; return NULL; } catch(VcSkip&) { return NULL; } catch(VcFail& e) { return e.n; } catch(std::exception& e) { static std::string s; s = std::string("exception:") + e.what(); for(auto& c : s) if(c == ' ') c = '_'; return s.c_str(); }
    catch(...) { return "unknown_exception"; }
}
#include <fcntl.h>
int main(int argc, char** argv) {
    // argv: harness replay file out | harness search seed ms out [maxiters]
    std::string h = argv[1]; std::string mode = argv[2];
    auto it = reg().find(h); if(it == reg().end()) { printf("no harness %s\n", h.c_str()); return 9; }
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    signal(SIGSEGV, sig); signal(SIGFPE, sig); signal(SIGABRT, sig); signal(SIGALRM, sig); signal(SIGBUS, sig); signal(SIGILL, sig);
    int keep = dup(1); int nul = open("/dev/null", O_WRONLY); if(!getenv("VC_KEEP_OUT")) { dup2(nul, 1); }
    int rc = 0; const char* bad = NULL;
    if(mode == "replay") {
        replaying = true; FILE* f = fopen(argv[3], "r"); char nm[512]; unsigned long long v; 
        while(f && fscanf(f, "%511s %llu", nm, &v) == 2) rep[nm] = v;
        if(f) fclose(f);
        outpath = argv[4]; alarm(20); bad = runone(it->second); if(bad) { dump(bad); rc = 1; }
    } else {
        rs ^= (uint64_t)strtoull(argv[3], NULL, 10) * 0x9E3779B97F4A7C15ULL; if(!rs) rs = 1; for(int i = 0; i < 8; i++) rnd();
        long ms = atol(argv[4]); outpath = argv[5]; long maxit = argc > 6 ? atol(argv[6]) : 0;
        struct timeval t0, t1; gettimeofday(&t0, NULL);
        while(true) {
            if(iters % 64 == 0) { gettimeofday(&t1, NULL); if((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_usec - t0.tv_usec) / 1000 > ms) break; alarm(20); }
            if(maxit && iters >= maxit) break;
            iters++; bad = runone(it->second); if(bad) { dump(bad); rc = 1; break; }
        }
    }
    alarm(0);
    fflush(stdout); dup2(keep, 1);
    printf("iters %ld passed %ld rc %d %s\n", iters, passed, rc, bad ? bad : "-");
    for(auto& c : checks) printf("check %ld %s\n", c.second, c.first.c_str());
    fflush(stdout); _exit(rc);
}
