#include "vc.h"
#include "utility/color.hpp"
#include "utility/spectrum.hpp"
#include <cmath>
#ifdef SPECTRAL
#define NS SPECTRUM_SAMPLES
#else
#define NS 3
#endif
static bool fe(float a, float b) { return vc_feqtol(a, b, 2e-3f); }
static const char* NM[32] = {"a0","a1","a2","a3","a4","a5","a6","a7","a8","a9","aa","ab","ac","ad","ae","af","b0","b1","b2","b3","b4","b5","b6","b7","b8","b9","ba","bb","bc","bd","be","bf"};
static void op(uint32_t k, float a, float b, float* r) { *r = k == 0 ? a + b : (k == 1 ? a - b : (k == 2 ? a * b : a / b)); }
static bool nr(float a, float b, float t) { return AND(a - b < t, b - a < t); }
HARNESS(spec_ops)
{
    float a[NS], b[NS], e[NS]; uint32_t k = vc_pick("op", 4), form = vc_pick("form", 4); float v = vc_f32("v"); 
    if(k == 3) { vc_assume(v != 0); vc_nat(v > 0.05f || v < -0.05f); }
    Spectrum A, B;
    for(int i = 0; i < NS; i++) { a[i] = vc_f32(NM[i]); b[i] = vc_f32(NM[16 + i]); A.w[i] = a[i]; B.w[i] = b[i]; if(k == 3) { vc_assume(b[i] != 0); vc_nat(b[i] > 0.05f || b[i] < -0.05f); } op(k, a[i], form < 2 ? b[i] : v, &e[i]); }
    Spectrum R;
    if(form == 0) R = k == 0 ? A + B : (k == 1 ? A - B : (k == 2 ? A * B : A / B));
    else if(form == 1) { R = A; if(k == 0) R += B; else if(k == 1) R -= B; else if(k == 2) R *= B; else R /= B; }
    else if(form == 2) R = k == 0 ? A + v : (k == 1 ? A - v : (k == 2 ? A * v : A / v));
    else { R = A; if(k == 0) R += v; else if(k == 1) R -= v; else if(k == 2) R *= v; else R /= v; }
    bool ok = true, un = true; for(int i = 0; i < NS; i++) { ok = AND(ok, fe(R.w[i], e[i])); un = ALL(un, A.w[i] == a[i], B.w[i] == b[i]); }
    vc_check(ok, "spectra combine sample by sample"); vc_check(un, "operands unchanged");
    Spectrum C(v); bool all = true, z = true; for(int i = 0; i < NS; i++) { all = AND(all, C.w[i] == v); z = AND(z, a[i] == 0); } vc_check(all, "a constant spectrum has every sample equal");
    vc_check(A.is_black() == z, "black means every sample is zero");
    vc_check(A.is_valid(), "finite spectra are valid");
}
HARNESS(spec_valid)
{
    Spectrum A; bool good = true; uint32_t bad = vc_pick("bad", NS);
    for(uint32_t i = 0; i < NS; i++) { float f = i == bad ? vc_f32any("bad") : vc_f32(NM[i]); A.w[i] = f; good = AND(good, AND(f - f == 0, true)); }
    float f = A.w[bad]; uint32_t u; __builtin_memcpy(&u, &f, 4); bool fin = (u & 0x7f800000u) != 0x7f800000u;
    vc_check(A.is_valid() == fin, "a spectrum is valid exactly when every sample is finite");
    bool z = true; for(int i = 0; i < NS; i++) z = AND(z, A.w[i] == 0); vc_check(A.is_black() == z, "black means every sample is zero");
}
HARNESS(col_ops)
{
    uint32_t k = vc_pick("op", 4), form = vc_pick("form", 4); float v = vc_f32("v"); float a[3], b[3], e[3];
    for(int i = 0; i < 3; i++) { a[i] = vc_f32(NM[i]); b[i] = vc_f32(NM[16 + i]); if(k == 3) { vc_assume(b[i] != 0); vc_assume(v != 0); vc_nat((v > 0.05f || v < -0.05f) && (b[i] > 0.05f || b[i] < -0.05f)); } op(k, a[i], form < 2 ? b[i] : v, &e[i]); }
    Color A(a[0], a[1], a[2]), B(b[0], b[1], b[2]), R;
    vc_check(R.r == 0 && R.g == 0 && R.b == 0, "default colour is black");
    if(form == 0) R = k == 0 ? A + B : (k == 1 ? A - B : (k == 2 ? A * B : A / B));
    else if(form == 1) { R = A; if(k == 0) R += B; else if(k == 1) R -= B; else if(k == 2) R *= B; else R /= B; }
    else if(form == 2) R = k == 0 ? A + v : (k == 1 ? A - v : (k == 2 ? A * v : A / v));
    else { R = A; if(k == 0) R += v; else if(k == 1) R -= v; else if(k == 2) R *= v; else R /= v; }
    vc_check(ALL(fe(R.r, e[0]), fe(R.g, e[1]), fe(R.b, e[2])), "colours combine channel by channel");
    vc_check(ALL(A.r == a[0], A.g == a[1], A.b == a[2], B.r == b[0], B.g == b[1], B.b == b[2]), "operands unchanged");
    vc_check(A.is_black() == ALL(a[0] == 0, a[1] == 0, a[2] == 0), "black means every channel is zero");
    Color G(v); vc_check(ALL(G.r == v, G.g == v, G.b == v), "grey has equal channels");
}
HARNESS(col_bytes)
{
    uint8_t r = vc_u8("r"), g = vc_u8("g"), b = vc_u8("b"), x = vc_u8("alpha");
    ColorRGB c(r, g, b); uint32_t px = (uint32_t)b << 24 | (uint32_t)g << 16 | (uint32_t)r << 8 | x; ColorRGB d((pixBGRA)px);
    vc_check(ALL(c.r >= 0, c.r <= 1.00001f, c.g >= 0, c.g <= 1.00001f, c.b >= 0, c.b <= 1.00001f), "channels decoded from bytes lie in [0,1]");
    vc_check(ALL(nr(c.r * 255, (float)r, 1e-3f), nr(c.g * 255, (float)g, 1e-3f), nr(c.b * 255, (float)b, 1e-3f)), "byte channels are divided by 255");
    vc_check(ALL(fe(c.r, d.r), fe(c.g, d.g), fe(c.b, d.b)), "packed pixels decode to the same channels, ignoring alpha");
}
HARNESS(col_cie)
{
    float r = vc_f32in("r", 0, 1), g = vc_f32in("g", 0, 1), b = vc_f32in("b", 0, 1); ColorXYZ x = ColorRGB(r, g, b).to_XYZ();
    vc_check(ALL(x.r >= 0, x.g >= 0, x.b >= 0, x.r <= 0.951f, x.g <= 1.0005f, x.b <= 1.0895f), "colours in gamut convert to non-negative tristimulus values bounded by white");
    uint32_t ch = vc_pick("channel", 3); float d = vc_f32in("d", 0, 1); float q[3] = {r, g, b}; q[ch] += d; vc_assume(q[ch] <= 1); vc_assume(OR(q[ch] <= 0.04f, q[ch] - d > 0.041f));
    ColorXYZ y = ColorRGB(q[0], q[1], q[2]).to_XYZ(); float e = vc_symbolic() ? 0.f : 1e-5f;
    vc_check(ALL(y.r >= x.r - e, y.g >= x.g - e, y.b >= x.b - e), "more light in a channel never lowers a tristimulus value");
    float m = vc_f32in("m", 0, 1); ColorXYZ n = ColorRGB(m).to_XYZ();
    vc_check(ALL(nr(n.r, 0.9505f * n.g, 1e-3f), nr(n.b, 1.089f * n.g, 1e-3f)), "greys keep the white point");
    // the linear part of the transfer curve: exact round trip
    float u = vc_f32in("u", 0, 0.04f), v = vc_f32in("v", 0, 0.04f), w = vc_f32in("w", 0, 0.04f); ColorRGB s = ColorRGB(u, v, w).to_XYZ().to_sRGB();
    vc_check(ALL(nr(s.r, u, 1e-4f), nr(s.g, v, 1e-4f), nr(s.b, w, 1e-4f)), "dark colours survive the round trip through XYZ");
    ColorRGB W = ColorXYZ(0.9505f * 1.001f, 1.f * 1.001f, 1.089f * 1.001f).to_sRGB(), W2 = ColorXYZ(0.9505f * 0.999f, 0.999f, 1.089f * 0.999f).to_sRGB();
    vc_check(ALL(W.r >= 0.9999f, W.g >= 0.9999f, W.b >= 0.9999f, W2.r <= 1.0001f, W2.g <= 1.0001f, W2.b <= 1.0001f), "the white point maps to white");
    ColorXYZ z(vc_f32in("zx", 0, 1), vc_f32in("zy", 0, 1), vc_f32in("zz", 0, 1)); ColorRGB p = z.to_sRGB();
    float lr = z.r * 3.2404542f + z.g * -1.5371385f + z.b * -0.4985314f, lg = z.r * -0.9692660f + z.g * 1.8760108f + z.b * 0.0415560f, lb = z.r * 0.0556434f + z.g * -0.2040259f + z.b * 1.0572252f;
    vc_check(ALL(IMPLIES(lr >= 1.0001f, p.r >= 0.9999f), IMPLIES(lg >= 1.0001f, p.g >= 0.9999f), IMPLIES(lb >= 1.0001f, p.b >= 0.9999f), IMPLIES(lr <= 0.9999f, p.r <= 1.0001f), IMPLIES(lg <= 0.9999f, p.g <= 1.0001f), IMPLIES(lb <= 0.9999f, p.b <= 1.0001f)), "the sRGB curve keeps full intensity fixed");
}
HARNESS(spec_convert)
{
    Spectrum A; for(int i = 0; i < NS; i++) A.w[i] = vc_f32in(NM[i], 0, 1000);
    ColorXYZ x = A.to_xyz(); float l = A.luminance();
    vc_check(fe(x.g, l), "luminance is the Y tristimulus value"); vc_check(ALL(x.r >= 0, x.g >= 0, x.b >= 0), "non-negative spectra have non-negative tristimulus values");
    Spectrum Z(0); bool z = true; for(int i = 0; i < NS; i++) z = AND(z, Z.w[i] == 0); vc_check(z, "zero temperature emits nothing"); 
    float r = vc_f32in("r", 0, 1), g = vc_f32in("g", 0, 1), b = vc_f32in("b", 0, 1); Spectrum S(ColorRGB(r, g, b), vc_pick("light", 2) != 0);
#ifdef SPECTRAL
    bool in = true; for(int i = 0; i < NS; i++) in = ALL(in, S.w[i] >= 0, S.w[i] <= 1); vc_check(in, "spectra of colours lie in [0,1]");
#else
    ColorXYZ c = ColorRGB(r, g, b).to_XYZ(); vc_check(ALL(fe(S.w[0], c.r), fe(S.w[1], c.g), fe(S.w[2], c.b)), "a colour becomes its tristimulus values");
#endif
}
HARNESS(spec_blackbody)
{
    uint32_t t = vc_u32in("t", 800, 20000); Spectrum S((int)t); bool pos = true; for(int i = 0; i < NS; i++) pos = AND(pos, S.w[i] >= 0);
    vc_check(pos, "black-body spectra are non-negative"); vc_check(S.luminance() > 0, "a hot body emits light");
}
