#include "vc.h"
#define private public
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#undef private
#include "utility/utility.hpp"
#include <cmath>
#define TOL 1e-4f
static float X, Y; static float ab(float v) { return v < 0 ? -v : v; }
static void at(const Filter& f) { float m = vc_symbolic() ? 0 : 1e-4f; X = vc_f32in("x", -8, 8); Y = vc_f32in("y", -8, 8); if(!vc_symbolic()) { if(vc_u32("kx") % 4 == 0) X = (float)(int)X; if(vc_u32("ky") % 4 == 0) Y = (float)(int)Y; } vc_assume(ALL(X <= f.range_x, -X <= f.range_x, Y <= f.range_y, -Y <= f.range_y)); (void)m; }
static void sym(const Filter& f)
{
    float w = f.weight(X, Y); vc_check(vc_feqtol(w, f.weight(-X, Y), TOL), "the filter is symmetric left and right"); vc_check(vc_feqtol(w, f.weight(X, -Y), TOL), "the filter is symmetric up and down");
}
HARNESS(flt_box) { FilterBox f; vc_check(AND(f.range_x == 1, f.range_y == 1), "extent"); at(f); vc_check(f.weight(X, Y) == 1.f, "all covered pixels weigh the same"); }
HARNESS(flt_tent)
{
    FilterTent f; vc_check(AND(f.range_x == 2, f.range_y == 2), "extent"); at(f); sym(f); float w = f.weight(X, Y);
    vc_check(vc_feqtol(f.weight(0, 0), 1.f * 1.f, TOL), "unit weight at the centre"); vc_check(vc_feqtol(w, (1 - ab(X) * 0.5f) * (1 - ab(Y) * 0.5f), TOL), "the weight falls linearly to zero at the border in each direction");
    // partition of unity with a constant factor
    float x = vc_f32in("px", 0, 1), y = vc_f32in("py", 0, 1), s = 0; for(int i = -2; i < 2; i++) for(int j = -2; j < 2; j++) s += f.weight(x + i, y + j); vc_check(vc_feqtol(s, 4, TOL), "the weights of a sample add up to the same for all samples");
}
HARNESS(flt_gauss)
{
    float al = vc_f32in("falloff", 0.01f, 8.f); FilterGaussian f(al); vc_check(AND(f.range_x == 2, f.range_y == 2), "extent"); at(f); 
    if(vc_symbolic()) { float P = vc_name(X * X), Q = vc_name(Y * Y); vc_lemma(AND(P <= 4, Q <= 4), "squares"); vc_lemma(AND(-al * P >= -al * 4, -al * Q >= -al * 4), "scaled"); vc_lemma(AND(al * P >= 0, al * Q >= 0), "scaled"); }
    float e0 = expf(-al * 2 * 2), ex = expf(-al * X * X), ey = expf(-al * Y * Y), w = f.weight(X, Y), c = f.weight(0, 0);
    vc_check(vc_feqtol(w, (ex - e0) * (ey - e0), TOL), "the weight is the product of the Gaussians lowered to zero at the border"); 
    float A = vc_name(ex - e0), B = vc_name(ey - e0), C = vc_name(1 - e0); vc_check(AND(vc_fletol(0, A, TOL), vc_fletol(0, B, TOL)), "no negative weights"); vc_check(AND(vc_fletol(A, C, TOL), vc_fletol(B, C, TOL)), "largest at the centre"); vc_check(vc_feqtol(c, C * C, TOL), "largest at the centre"); sym(f);
}
static float mit(float b, float c, float t)
{
    t = ab(t); return (t < 1 ? (12 - 9 * b - 6 * c) * t * t * t + (-18 + 12 * b + 6 * c) * t * t + (6 - 2 * b) : (-b - 6 * c) * t * t * t + (6 * b + 30 * c) * t * t + (-12 * b - 48 * c) * t + (8 * b + 24 * c));
}
// sixths: exact or by the rounded constant
static bool mine(float v, float n, float m) { const float k = 1.f / 6.f; return vc_symbolic() ? ANY(v == n * m / 36, v == n * k * (m * k)) : vc_feqtol(v, n * m / 36, 1e-3f); }
HARNESS(flt_mitchell)
{
    float b = vc_f32in("b", -2, 2), c = vc_f32in("c", -2, 2); FilterMitchell f(b, c); vc_check(AND(f.range_x == 2, f.range_y == 2), "extent"); at(f); float w = f.weight(X, Y);
    vc_check(mine(w, mit(b, c, X), mit(b, c, Y)), "the weight is the product of the Mitchell-Netravali cubics"); sym(f);
}
HARNESS(flt_mitchell_unity)
{
    float b = vc_f32in("b", -2, 2), c = vc_f32in("c", -2, 2); FilterMitchell f(b, c); float x = vc_f32in("x", 0, 1), y = vc_f32in("y", 0, 1); int k = (int)vc_pick("j", 4) - 2;
    // in the verifier a lemma over the contract of weight proved above
    float s = 0, m = mit(b, c, y + k); for(int i = -2; i < 2; i++) s += vc_symbolic() ? mit(b, c, x + i) : f.weight(x + i, y + k); vc_check(vc_symbolic() ? s == 6 : mine(s, 6, m), "the weights along a line add up to the weight across it: colours are neither brightened nor darkened");
}
static float lan(float t, float tau) { t = fabsf(t) / 4; if(vc_split(t < 1e-5)) return 1; float p = t * ONE_PI, q = p * tau; float a = sinf(q), b = sinf(p); if(!vc_symbolic()) return (a / q) * (b / p);
    float u = vc_name(a / q), v = vc_name(b / p); vc_lemma(AND(q > 0, p > 0), "positive"); vc_lemma(AND(u * q == a, v * p == b), "quotients"); vc_by(ALL(u * q == a, q > 0, a <= q, -a <= q), AND(u <= 1, -u <= 1), "at most one"); vc_by(ALL(v * p == b, p > 0, b <= p, -b <= p), AND(v <= 1, -v <= 1), "at most one");
    float r = vc_name(u * v); vc_by(ALL(r == u * v, u <= 1, -u <= 1, v <= 1, -v <= 1), AND(r <= 1, -r <= 1), "at most one"); return r; }
HARNESS(flt_lanczos)
{
    float tau = vc_f32in("tau", 0.1f, 16); FilterLanczos f(tau); vc_check(AND(f.range_x == 4, f.range_y == 4), "extent"); at(f); float w = f.weight(X, Y), a = lan(X, tau), b = lan(Y, tau);
    vc_check(vc_feqtol(w, a * b, TOL), "the weight is the product of the windowed sinc functions"); vc_check(ALL(vc_fletol(a, 1, TOL), vc_fletol(-1, a, TOL), vc_fletol(b, 1, TOL), vc_fletol(-1, b, TOL)), "no weight exceeds that of the centre"); vc_check(vc_feqtol(f.weight(0, 0), 1, TOL), "unit weight at the centre"); sym(f);
}
