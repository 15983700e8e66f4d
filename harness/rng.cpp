#include "vc.h"
#include "utility/wellrng.hpp"
#include <cstdlib>
#include <cstring>
/* WELL1024a as published (Panneton, L'Ecuyer, Matsumoto 2006) */
static uint32_t pos(int t, uint32_t v) { return v ^ (v >> t); } static uint32_t neg(int t, uint32_t v) { return v ^ (v << t); }
HARNESS(rng_step)
{
    unsigned seed[32]; for(int i = 0; i < 32; i++) { static const char* N[32] = {"s0","s1","s2","s3","s4","s5","s6","s7","s8","s9","s10","s11","s12","s13","s14","s15","s16","s17","s18","s19","s20","s21","s22","s23","s24","s25","s26","s27","s28","s29","s30","s31"}; seed[i] = vc_u32(N[i]); }
    WELLrng r(seed); vc_check(r.state_i < 32, "the state index starts in range"); bool eq = true; for(int i = 0; i < 32; i++) eq = AND(eq, r.state[i] == seed[i]); vc_check(eq, "the state is the seed");
    uint32_t k = vc_pick("k", 32); r.state_i = k; uint32_t V[32]; for(int i = 0; i < 32; i++) V[i] = seed[(k + i) & 31];
    float f = r.getNumber(); uint32_t z0 = V[31], z1 = V[0] ^ pos(8, V[3]), z2 = neg(19, V[24]) ^ neg(14, V[10]), v1 = z1 ^ z2, v0 = neg(11, z0) ^ neg(7, z1) ^ neg(13, z2);
    vc_check(r.state_i == ((k + 31) & 31), "the state index moves back by one, cyclically"); vc_check(AND(r.state[k] == v1, r.state[(k + 31) & 31] == v0), "the recurrence is WELL1024a");
    bool rest = true; for(int i = 1; i < 31; i++) rest = AND(rest, r.state[(k + i) & 31] == V[i]); vc_check(rest, "the other words of the state do not change");
    (void)f;
}
HARNESS(rng_range)
{
    unsigned seed[32]; memset(seed, 0, sizeof seed); seed[31] = vc_u32("a"); seed[0] = vc_u32("b"); WELLrng r(seed); float f = r.getNumber(); vc_check(AND(f >= 0.f, f <= 1.f), "numbers are in [0,1]"); float x = (float)r.state[r.state_i]; vc_check(f == x * 2.32830643653869628906e-10f, "the number is the new word scaled by 2^-32");
}
