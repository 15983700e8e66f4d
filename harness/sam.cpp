#include "vc.h"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
#include <cstdlib>
#include <cstring>
#include <cmath>
#define TOL 2e-3f
static Sample* g_s; static float g_d; static int64_t g_y, g_x, g_k; static int g_nx, g_ny, g_sx; static bool g_jit; static uint64_t g_n;
#ifndef VC_NATIVE
static bool g_stub; static uint64_t g_calls;
/* contract of the generator, proved by rng_step: a number in [0,1] */
extern "C" float CONTRACT(_ZN7WELLrng9getNumberEv)(WELLrng*) { float x = vc_f32("rnd"); vc_assume(AND(x >= 0, x <= 1)); vc_lemma(AND(x * g_d >= 0, x * g_d <= g_d), "scaled number"); return x; }
#endif
static bool le(float a, float b) { return vc_symbolic() ? a <= b : vc_fletol(a, b, 1e-3f); }
/* sample (y,x) of the pixel lies in its own cell of the grid */
static bool incell(const Sample& p, int nx, int ny, int x, int y, int n)
{
    float d = vc_symbolic() ? g_d : 1.f / n, a = p.posx - nx, b = p.posy - ny; return ALL(le(x * d, a), le(a, (x + 1.f) * d), le(y * d, b), le(b, (y + 1.f) * d));
}
static bool inpix(const Sample& p, int nx, int ny) { return ALL(le(nx, p.posx), le(p.posx, nx + 1.f), le(ny, p.posy), le(p.posy, ny + 1.f)); }
#ifndef VC_NATIVE
/* row[y].v is the product y * g_sx, by its defining equations (keeps the solvers away from bit-vector products) */
struct Row { uint64_t v; }; static Row* row;
static void rows(int64_t y) { vc_assume(ALL(row[0].v == 0, row[g_sx].v == g_n, row[y].v <= g_n, row[y + 1].v == row[y].v + g_sx, IMPLIES(y < g_y, row[y].v + g_sx <= row[g_y].v), IMPLIES(y > g_y, row[g_y].v + g_sx <= row[y].v), IMPLIES(y < g_sx, row[y].v + g_sx <= g_n))); }
extern "C" void vcloop__ZN17SamplerStratified11get_samplesEP6Sample__0(Sample* res, int y)
{
    int64_t at = res - g_s; vc_inv(AND(y >= 0, y <= g_sx), "the rows of the grid"); rows(y); vc_inv((uint64_t)at == row[y].v, "one sample for every cell so far");
    vc_inv(IMPLIES(g_y < y, incell(g_s[g_k], g_nx, g_ny, (int)g_x, (int)g_y, g_sx)), "every sample so far is in its cell"); vc_variant(g_sx - y);
}
extern "C" void vcloop__ZN17SamplerStratified11get_samplesEP6Sample__1(Sample* res, int y, int x)
{
    int64_t at = res - g_s; vc_inv(ALL(y >= 0, y < g_sx, x >= 0, x <= g_sx), "the columns of the grid"); rows(y); vc_inv((uint64_t)at == row[y].v + x, "one sample for every cell so far");
    vc_inv(IMPLIES(OR(g_y < y, AND(g_y == y, g_x < x)), incell(g_s[g_k], g_nx, g_ny, (int)g_x, (int)g_y, g_sx)), "every sample so far is in its cell"); vc_variant(g_sx - x);
}
extern "C" void vcloop__ZN13SamplerRandom11get_samplesEP6Sample__0(Sample* res, int i)
{
    int64_t at = res - g_s; vc_inv(AND(i >= 0, (uint64_t)i <= g_n), "the samples of the pixel"); vc_inv(at == i, "one sample each");
    vc_inv(IMPLIES(g_k < i, inpix(g_s[g_k], g_nx, g_ny)), "every sample so far is in the pixel"); vc_variant((int64_t)g_n - i);
}
static float* g_c; static int g_size;
extern "C" void vcloop__ZN7Sampler18get_random_numbersEPfi__0(float* container, int i)
{
    vc_inv(AND(i >= 0, i <= g_size), "the numbers asked for"); vc_inv(IMPLIES(g_k < i, AND(g_c[g_k] >= 0, g_c[g_k] <= 1)), "every number so far is in [0,1]"); vc_variant(g_size - i);
}
#else
static float* g_c; static int g_size;
#endif
static void tile(int* sx, int* ex, int* sy, int* ey)
{
    *sx = (int)vc_u32in("startx", 0, 60000); *sy = (int)vc_u32in("starty", 0, 60000); *ex = (int)vc_u32in("endx", 1, 65536); *ey = (int)vc_u32in("endy", 1, 65536); if(!vc_symbolic()) { *sx %= 2000; *sy %= 2000; *ex = *sx + *ex % 6 + 1; *ey = *sy + *ey % 6 + 1; }
    vc_assume(AND(*sx < *ex, *sy < *ey));
    g_nx = (int)vc_u32in("nextx", 0, 65536); g_ny = (int)vc_u32in("nexty", 0, 65536); if(!vc_symbolic()) { g_nx = *sx + g_nx % (*ex - *sx); g_ny = *sy + g_ny % (*ey - *sy + 1); } vc_assume(ALL(*sx <= g_nx, g_nx < *ex, *sy <= g_ny, g_ny <= *ey)); 
}
template<typename T> static void moved(const T& s, bool r, int sx, int ex, int sy, int ey)
{
    vc_check(r == (g_ny != ey), "sampling ends exactly when every row is done"); bool last = g_nx + 1 == ex;
    vc_check(IMPLIES(!r, AND(s.nextx == g_nx, s.nexty == g_ny)), "nothing changes after the end");
    vc_check(IMPLIES(r, AND(s.nextx == (last ? sx : g_nx + 1), s.nexty == (last ? g_ny + 1 : g_ny))), "pixels are visited row by row, each once");
    vc_check(ALL(s.startx == sx, s.endx == ex, s.starty == sy, s.endy == ey), "the tile stays the same");
}
HARNESS(smp_strat)
{
    int sx, ex, sy, ey; tile(&sx, &ex, &sy, &ey); unsigned seed[32]; memset(seed, 0, sizeof seed); for(int i = 0; i < 32; i++) seed[i] = vc_symbolic() ? 1 : vc_u32("seed");
    g_sx = (int)vc_u32in("strata", 1, 4096); if(!vc_symbolic()) g_sx = g_sx % 20 + 1; int spp = vc_symbolic() ? (int)vc_u32in("spp", 1, 1 << 24) : g_sx * g_sx; vc_assume((float)spp == (float)g_sx * (float)g_sx); bool jit = vc_split(vc_bool("jitter"));
    SamplerStratified s(sx, ex, sy, ey, spp, seed, jit); vc_check(AND(s.nextx == sx, s.nexty == sy), "sampling starts at the corner of the tile");
    
    if(vc_symbolic()) { float P = vc_name((float)spp), Q = vc_name(sqrtf((float)spp)), S = vc_name((float)g_sx); vc_lemma(S * S == P, "square"); vc_lemma(Q * Q == P, "root squared"); vc_lemma(AND(Q >= 0, S >= 1), "positive"); vc_by(ALL(Q * Q == P, S * S == P, Q >= 0, S >= 1), Q == S, "root"); vc_lemma(s.strata_x == (int)Q, "truncated root x"); vc_lemma(s.strata_y == (int)Q, "truncated root y"); vc_by(AND(Q == S, S == (float)g_sx), (int)Q == g_sx, "integer root"); }
     vc_check(AND(s.strata_x == g_sx, s.strata_y == g_sx), "a square number of samples is a full grid"); s.strata_x = s.strata_y = g_sx; g_d = vc_name(1.f / g_sx);
    s.nextx = g_nx; s.nexty = g_ny; g_n = (uint64_t)spp; g_s = (Sample*)malloc(g_n * sizeof(Sample)); if(!vc_symbolic()) memset((void*)g_s, 0, g_n * sizeof(Sample));
    g_y = vc_u32("gy"); g_x = vc_u32("gx"); if(!vc_symbolic()) { g_y %= g_sx; g_x %= g_sx; } vc_assume(AND(g_y < g_sx, g_x < g_sx)); g_k = g_y * g_sx + g_x; 
#ifndef VC_NATIVE
    row = (Row*)malloc(((uint64_t)g_sx + 2) * sizeof(Row)); rows(0); rows(g_y); g_k = (int64_t)(row[g_y].v + g_x);
#endif
    float old = g_s[g_k].posx; bool r = s.SamplerStratified::get_samples(g_s); moved(s, r, sx, ex, sy, ey);
    vc_check(IMPLIES(r, incell(g_s[g_k], g_nx, g_ny, (int)g_x, (int)g_y, g_sx)), "every cell of the grid gets its sample"); vc_check(IMPLIES(!r, g_s[g_k].posx == old), "no samples after the end");
    free(g_s);
}
HARNESS(smp_random)
{
    int sx, ex, sy, ey; tile(&sx, &ex, &sy, &ey); unsigned seed[32]; memset(seed, 0, sizeof seed); for(int i = 0; i < 32; i++) seed[i] = vc_symbolic() ? 1 : vc_u32("seed");
    int spp = (int)vc_u32in("spp", 1, 1 << 24); if(!vc_symbolic()) spp = spp % 64 + 1; g_d = 1; SamplerRandom s(sx, ex, sy, ey, spp, seed); vc_check(AND(s.nextx == sx, s.nexty == sy), "sampling starts at the corner of the tile");
    s.nextx = g_nx; s.nexty = g_ny; g_n = (uint64_t)spp; g_s = (Sample*)malloc(g_n * sizeof(Sample)); if(!vc_symbolic()) memset((void*)g_s, 0, g_n * sizeof(Sample));
    g_k = vc_u32("k"); if(!vc_symbolic()) g_k %= spp; vc_assume(g_k < spp); float old = g_s[g_k].posx; bool r = s.SamplerRandom::get_samples(g_s); moved(s, r, sx, ex, sy, ey);
    vc_check(IMPLIES(r, inpix(g_s[g_k], g_nx, g_ny)), "every sample is in the pixel"); vc_check(IMPLIES(!r, g_s[g_k].posx == old), "no samples after the end"); free(g_s);
}
HARNESS(smp_numbers)
{
    unsigned seed[32]; memset(seed, 0, sizeof seed); for(int i = 0; i < 32; i++) seed[i] = vc_symbolic() ? 1 : vc_u32("seed"); g_d = 1; g_size = (int)vc_u32in("size", 1, 1 << 24); if(!vc_symbolic()) g_size = g_size % 64 + 1; SamplerRandom s(0, 1, 0, 1, 1, seed);
    g_c = (float*)malloc((uint64_t)g_size * sizeof(float)); g_k = vc_u32("k"); if(!vc_symbolic()) { g_k %= g_size; for(int i = 0; i < g_size; i++) g_c[i] = 7; } vc_assume(g_k < g_size);
    s.get_random_numbers(g_c, g_size); vc_check(AND(g_c[g_k] >= 0, g_c[g_k] <= 1), "every requested number is drawn from [0,1]"); free(g_c);
}
