#include "geo.h"
#include "utility/utility.hpp"
HARNESS(util_range)
{
    float v = vc_f32("v"), lo = vc_f32("lo"), hi = vc_f32("hi"); vc_assume(lo <= hi);
    float c = clamp(v, lo, hi);
    vc_check(AND(c >= lo, c <= hi), "clamp result lies in the range"); vc_check(IMPLIES(AND(v >= lo, v <= hi), c == v), "clamp keeps values already in range");
    vc_check(AND(IMPLIES(v < lo, c == lo), IMPLIES(v > hi, c == hi)), "clamp saturates at the nearest bound");
    vc_check(ALL(min(v, lo) <= v, min(v, lo) <= lo, OR(min(v, lo) == v, min(v, lo) == lo), max(v, lo) >= v, max(v, lo) >= lo, OR(max(v, lo) == v, max(v, lo) == lo)), "float min and max");
    uint32_t a = vc_u32("a"), b = vc_u32("b"); int i = (int)a, j = (int)b;
    vc_check(ALL(min(i, j) <= i, min(i, j) <= j, OR(min(i, j) == i, min(i, j) == j), max(i, j) >= i, max(i, j) >= j, OR(max(i, j) == i, max(i, j) == j)), "integer min and max");
    vc_check(AND(IMPLIES(v >= 0, sign(v) == 1), IMPLIES(v < 0, sign(v) == -1)), "sign is +1 for non-negative and -1 for negative");
    float x = v, y = lo; swap(&x, &y); vc_check(AND(x == lo, y == v), "swap exchanges floats");
    uint8_t p = (uint8_t)a, q = (uint8_t)b, p0 = p, q0 = q; swap(&p, &q); vc_check(AND(p == q0, q == p0), "swap exchanges bytes");
}
HARNESS(util_bits)
{
    uint32_t a = vc_u32("a"); uint32_t s = swap_endianness(a); uint16_t h = (uint16_t)a, t = swap_endianness(h);
    for(int i = 0; i < 4; i++) vc_check(((s >> (8 * i)) & 255) == ((a >> (24 - 8 * i)) & 255), "32-bit byte swap reverses the bytes");
    vc_check(AND((t & 255) == (h >> 8), (t >> 8) == (h & 255)), "16-bit byte swap reverses the bytes");
    vc_check(AND(swap_endianness(s) == a, swap_endianness(t) == h), "byte swap is its own inverse");
    uint32_t n = vc_u32("n"), m = vc_pick("m", 8) + 1; vc_assume(n < (1u << 30));
    uint32_t r = nearest_uint(n, m);
    vc_check(r % m == 0, "nearest multiple is a multiple"); vc_check(AND(IMPLIES(r >= n, r - n <= m / 2), IMPLIES(r <= n, 2 * (n - r) <= m)), "nearest multiple is at most half a step away");
}
HARNESS(util_real)
{
    float v = vc_f32("v"), lo = vc_f32("lo"), hi = vc_f32("hi");
    float l = lerp(v, lo, hi);
    vc_check(AND(vc_feqtol(lerp(0, lo, hi), lo, TOL), vc_feqtol(lerp(1, lo, hi), hi, TOL)), "interpolation meets both ends");
    if(vc_split(AND(v >= 0, AND(v <= 1, lo <= hi)))) vc_check(AND(vc_fletol(lo, l, TOL), vc_fletol(l, hi, TOL)), "interpolation stays between its ends");
    if(vc_split(lo != hi)) { vc_nat(hi - lo > 0.1f || lo - hi > 0.1f); vc_check(vc_feqtol(inverse_lerp(l, lo, hi), v, 2e-2f), "inverse interpolation undoes interpolation"); }
    float w = degrees(radians(v)), e = 1e-4f * (v < 0 ? -v : v); vc_check(AND(w <= v + e, w >= v - e), "degrees and radians are inverse conversions");
    float p = radians(180.f); vc_check(AND(p > 3.1415f, p < 3.1416f), "180 degrees is pi radians");
    if(vc_split(lo != 0)) { vc_nat(lo > 0.1f || lo < -0.1f); vc_check(vc_feqtol(lo * equation1(lo, hi), -hi, 1e-2f), "linear equation root"); }
}
HARNESS(util_quad)
{
    float a = vc_f32("a"), b = vc_f32("b"), c = vc_f32("c"), s1 = 11, s2 = -13; vc_assume(a != 0); float d = b * b - 4 * a * c;
    float big = fmaxf(b * b, fabsf(4 * a * c)); if(!vc_symbolic()) vc_nat(fabsf(a) > 1e-9f && big > 1e-9f && big < 1e12f && fabsf(d) > 0.1f * big && (d > 0 || d < -1e-3f));
    bool ok = equation2(a, b, c, &s1, &s2);
    vc_check(IMPLIES(d < -1e-3f, AND(!ok, AND(s1 == 11.f, s2 == -13.f))), "no real root: nothing is reported and the outputs are untouched");
    vc_check(IMPLIES(d >= 0, ok), "real roots are reported");
    if(ok) {
        float m1 = 1, m2 = 1; if(!vc_symbolic()) { m1 = 1 / fmaxf(fmaxf(fabsf(a * s1 * s1), fabsf(b * s1)), fmaxf(fabsf(c), 1e-20f)); m2 = 1 / fmaxf(fmaxf(fabsf(a * s2 * s2), fabsf(b * s2)), fmaxf(fabsf(c), 1e-20f)); }
        vc_check(IMPLIES(d > 0, vc_feqtol(m1 * (a * s1 * s1 + b * s1 + c), 0, 2e-2f)), "first root solves the equation"); vc_check(IMPLIES(d > 0, vc_feqtol(m2 * (a * s2 * s2 + b * s2 + c), 0, 2e-2f)), "second root solves the equation");
        vc_check(vc_feqtol((vc_symbolic() ? 1 : 1 / sqrtf(big)) * (a * (s1 + s2) + b), 0, 2e-2f), "the two roots are distinct solutions (their sum is -b/a)");
    }
}
