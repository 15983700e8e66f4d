#include "vc.h"
#include <sstream>
#include <string>
#define private public
#define protected public
#include "materials/bdf.hpp"
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
#include "materials/fresnel_conditions.hpp"
#undef private
#undef protected
#include "utility/utility.hpp"
#include <cmath>
#define TOL 5e-3f
static float ab(float v) { return v < 0 ? -v : v; }
static bool near3(const Vec3& a, const Vec3& b) { return ALL(vc_feqtol(a.x, b.x, 1e-3f), vc_feqtol(a.y, b.y, 1e-3f), vc_feqtol(a.z, b.z, 1e-3f)); }
static float d3(const Vec3& a, const Vec3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static bool eqv(const Vec3& a, const Vec3& b) { return ALL(a.x == b.x, a.y == b.y, a.z == b.z); }
static Vec3 V3(float x, float y, float z) { Vec3 v; v.x = x; v.y = y; v.z = z; return v; }
static Vec3 unit(const char* n)
{
    Vec3 v; v.x = vc_f32in("dx", -1, 1); v.y = vc_f32in("dy", -1, 1); v.z = vc_f32in("dz", -1, 1); if(vc_symbolic()) { vc_assume(d3(v, v) == 1); return v; }
    uint32_t k = vc_u32("shape") % 8; if(k == 0) v.y = 0; if(k == 1) { v.x = v.y = 0; } if(k == 2) v.z *= 0.05f; float l = v.length(); vc_nat(l > 1e-2f); if(l > 0) v = v * (1.f / l); return v;
}
static Spectrum spec() { Spectrum s; for(int i = 0; i < 3; i++) s.w[i] = vc_f32in("F", 0, 1); return s; }
static bool same(const Spectrum& a, const Spectrum& b, float k, float tol) { return ALL(vc_feqtol(a.w[0], b.w[0] * k, tol), vc_feqtol(a.w[1], b.w[1] * k, tol), vc_feqtol(a.w[2], b.w[2] * k, tol)); }
static bool black(const Spectrum& a) { return ALL(a.w[0] == 0, a.w[1] == 0, a.w[2] == 0); }
/* any distribution of microfacets and any reflectance: arbitrary answers; the questions are checked */
static Vec3 EO, EI, EH, EP, SW; static float aD, aG, aP, e0, e1, eC; static Spectrum aF; static int nD, nG, nP, nF, nS;
static void ask(const Vec3& o, const Vec3& i, const Vec3& h) { EO = o; EI = i; EH = h; EP = h; eC = d3(i, h); }
struct AnyDist : public MicrofacetDist
{
    float D(const Vec3* h) const override { nD++; vc_check(OR(near3(*h, EH), near3(*h, V3(-EH.x, -EH.y, -EH.z))), "the distribution is asked about the half vector"); return aD; }
    float G(const Vec3* o, const Vec3* i) const override { nG++; vc_check(OR(AND(near3(*o, EO), near3(*i, EI)), AND(near3(*i, EO), near3(*o, EI))), "shadowing is that of the two directions"); return aG; }
    void sample_wh(const Vec3* o, float a, float b, Vec3* h) const override { nS++; vc_check(ALL(near3(*o, EO), a == e0, b == e1), "the half vector is sampled for the outgoing direction"); *h = SW; }
    float pdf(const Vec3* o, const Vec3* h) const override { nP++; vc_check(AND(near3(*o, EO), OR(near3(*h, EP), near3(*h, V3(-EP.x, -EP.y, -EP.z)))), "the density is that of the half vector"); return aP; }
};
struct AnyFresnel : public Fresnel { Spectrum eval(float c) const override { nF++; vc_check(vc_feqtol(c, eC, 1e-3f), "reflectance is that at the microfacet"); return aF; } };
static void answers() { aD = vc_f32in("D", 0, 100); aG = vc_f32in("G", 0, 1); aP = vc_f32in("P", 0, 100); aF = spec(); nD = nG = nP = nF = nS = 0; }
/* normalize (G02): expected arguments and results in order */
static Vec3 nin[4], nout[4]; static int n_n;
#ifndef VC_NATIVE
extern "C" Vec3& CONTRACT(_ZN4Vec39normalizeEv)(Vec3* v) { vc_check(n_n < 4, "normalize"); vc_check(eqv(*v, nin[n_n]), "the half vector of the two directions is used"); *v = nout[n_n]; n_n++; return *v; }
extern "C" Spectrum CONTRACT(_ZNK10Dielectric4evalEf)(const Dielectric*, float c) { nF++; vc_check(vc_feqtol(c, eC, 1e-3f), "reflectance is that at the microfacet"); return aF; }
static Vec3 TR; static Vec3 rS, rI; static float rE;
extern "C" Vec3 CONTRACT(_Z7refractRK4Vec3S1_f)(const Vec3& s, const Vec3& i, float eta) { vc_check(ALL(eqv(s, rS), eqv(i, rI), eta == rE), "light is refracted at the microfacet"); return TR; }
#endif
static float g_k = 1;
static Vec3 half(const Vec3& sum) { Vec3 h; if(vc_symbolic()) { h = unit("h"); float k = vc_f32in("k", 0, 1e6f); g_k = k; vc_assume(AND(k > 0, ALL(h.x == k * sum.x, h.y == k * sum.y, h.z == k * sum.z))); return h; } float l = sum.length(); vc_nat(l > 0.05f); h = sum; if(l > 0) h = h * (1.f / l); return h; }
/* the two-way optical path along the half vector never vanishes: |den| = 1 / k */
static void denlem(const Vec3& h, const Vec3& s, const Vec3& wo, const Vec3& wi, float eo, float ei)
{
    if(!vc_symbolic()) return; float k = g_k, den = vc_name(eo * d3(wo, h) + ei * d3(wi, h)), A = vc_name(k * s.x), B = vc_name(k * s.y), C = vc_name(k * s.z), T = vc_name(h.x * A + h.y * B + h.z * C), N = vc_name(h.x * h.x + h.y * h.y + h.z * h.z), KD = vc_name(k * den);
    vc_lemma(KD + T == 0, "optical path"); vc_lemma(ALL(A == h.x, B == h.y, C == h.z), "optical path"); vc_lemma(N == 1, "optical path"); vc_by(ALL(A == h.x, B == h.y, C == h.z, T == h.x * A + h.y * B + h.z * C, N == h.x * h.x + h.y * h.y + h.z * h.z, N == 1), T == 1, "optical path"); vc_by(ALL(KD + T == 0, T == 1, KD == k * den), den != 0, "optical path");
    float dn = vc_name(eo * -d3(wo, h) + ei * -d3(wi, h)), sq = vc_name(den * den), z = vc_name(wo.z * wi.z); vc_by(ALL(dn + den == 0, den != 0), dn != 0, "optical path"); vc_by(AND(sq == den * den, den != 0), sq > 0, "optical path"); if(vc_split(OR(wo.z == 0, wi.z == 0))) return; vc_by(ALL(wo.z != 0, wi.z != 0, z == wo.z * wi.z), z != 0, "optical path"); vc_by(ALL(z != 0, sq > 0), sq * z != 0, "optical path");
}
static Vec3 add(const Vec3& a, const Vec3& b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
HARNESS(gl_r_value)
{
    answers(); AnyDist* d = new AnyDist; AnyFresnel* f = new AnyFresnel; MicrofacetR* r = new MicrofacetR(d, f); Vec3 wo = unit("wo"), wi = unit("wi"); n_n = 0; bool cross = vc_split(wo.z * wi.z < 0); vc_nat(ab(wo.z) > 1e-2f && ab(wi.z) > 1e-2f); Vec3 k1 = wo, k2 = wi;
    Vec3 s = add(wo, wi); bool none = vc_split(OR(OR(wo.z == 0, wi.z == 0), ALL(s.x == 0, s.y == 0, s.z == 0))); if(!cross && !none) { Vec3 h = half(s); nin[0] = s; nout[0] = h; ask(wo, wi, h); } Spectrum v = ((Bdf*)r)->value(&wo, &wi); vc_check(AND(eqv(wo, k1), eqv(wi, k2)), "directions unchanged");
    if(cross || none) { vc_check(black(v), "nothing is reflected through the surface"); return; } vc_check(ALL(nD == 1, nG == 1, nF == 1), "distribution, shadowing and reflectance each count once"); vc_check(same(v, aF, aD * aG / (4.f * ab(wo.z) * ab(wi.z)), TOL), "the reflected light is F D G over four cosines");
}
HARNESS(gl_r_pdf)
{
    answers(); MicrofacetR* r = new MicrofacetR(new AnyDist, new AnyFresnel); Vec3 wo = unit("wo"), wi = unit("wi"); n_n = 0; bool cross = vc_split(wo.z * wi.z < 0); vc_nat(ab(wo.z) > 1e-2f && ab(wi.z) > 1e-2f); Vec3 s = add(wo, wi); vc_assume(d3(s, s) > 1e-3f); Vec3 h = s; if(!cross) { h = half(s); nin[0] = s; nout[0] = h; ask(wo, wi, h);
        if(vc_symbolic()) { float u = vc_name(d3(wo, wo)), w = vc_name(d3(wi, wi)), x = vc_name(d3(wo, wi)), L = vc_name(d3(s, s)), q = vc_name(d3(wo, s)), c = vc_name(d3(wo, h)), k = g_k; vc_lemma(ALL(u == 1, w == 1, L > 1e-3f), "unit directions"); vc_lemma(AND(L == u + 2 * x + w, q == u + x), "half angle"); vc_by(ALL(u == 1, w == 1, L > 1e-3f, L == u + 2 * x + w, q == u + x), q > 0, "half angle"); vc_lemma(c == k * q, "half angle"); vc_by(ALL(c == k * q, k > 0, q > 0), c > 0, "half angle"); } }
    float p = ((Bdf*)r)->pdf(&wo, &wi); if(cross) { vc_check(p == 0, "no density through the surface"); return; } vc_check(vc_feqtol(p * (4.f * d3(wo, h)), aP, TOL), "the density of a reflected direction is that of its half vector over four cosines");
}
HARNESS(gl_r_sample)
{
    answers(); MicrofacetR* r = new MicrofacetR(new AnyDist, new AnyFresnel); Vec3 wo = unit("wo"), h = unit("h"), wi = V3(0, 0, 0); SW = h; e0 = vc_f32in("r0", 0, 1); e1 = vc_f32in("r1", 0, 1); vc_assume(AND(wo.z * h.z >= 0, wo.z != 0)); float c = d3(wo, h), pdf = -1; vc_nat(ab(c) > 1e-2f && ab(wo.z) > 1e-2f);
    Vec3 m = V3(-wo.x + h.x * (2.f * c), -wo.y + h.y * (2.f * c), -wo.z + h.z * (2.f * c)); vc_nat(ab(m.z) > 1e-2f); n_n = 0; nin[0] = h; nout[0] = h; nin[1] = m; nout[1] = m; nin[2] = add(wo, m); nout[2] = h; if(!vc_split(c > 0)) nout[2] = V3(-h.x, -h.y, -h.z); ask(wo, m, nout[2]); vc_assume(c != 0); EP = h;
    Spectrum v = ((Bdf*)r)->sample_value(&wo, &wi, e0, e1, &pdf); vc_check(near3(wi, m), "light is mirrored at the sampled microfacet"); vc_check(nS == 1, "one microfacet is sampled"); bool away = wo.z * m.z < 0;
    if(vc_symbolic()) { float a = vc_name(wo.z), b = vc_name(h.z), q = vc_name(c), w = vc_name(m.z); vc_lemma(ALL(w == 2 * q * b - a, a * b >= 0, a != 0), "mirrored height"); if(vc_split(q < 0)) vc_by(ALL(w == 2 * q * b - a, a * b >= 0, a != 0, q < 0), a * w < 0, "microfacets seen from behind mirror light into the surface"); }
    if(vc_split(away)) { vc_check(pdf == 0, "a direction into the surface, is discarded"); vc_check(black(v), "a discarded direction carries nothing"); return; }
    vc_check(vc_feqtol(pdf * (4.f * c), aP, TOL), "the density of a sampled direction is that of its half vector over four cosines"); if(vc_split(m.z == 0)) return; if(vc_split(wo.z == 0)) return; vc_check(same(v, aF, aD * aG / (4.f * ab(wo.z) * ab(m.z)), TOL), "the light of a sampled direction is that of value()");
}
/* transmission: half vector of -(etao wo + etai wi), turned towards the outside */
static MicrofacetT* thin(float ni, float nt) { return new MicrofacetT(new AnyDist, Spectrum(ni), Spectrum(nt)); }
static float REF(float ni, float nt, float c, int i) { return vc_symbolic() ? aF.w[i] : Dielectric(Spectrum(ni), Spectrum(nt)).eval(c).w[i]; }
static void tvalue(const Spectrum& v, const Vec3& wo, const Vec3& wi, const Vec3& hh, float ni, float nt)
{
    Vec3 h = hh; float eo = wo.z > 0 ? ni : nt, ei = wo.z > 0 ? nt : ni, a = d3(wo, h), b = d3(wi, h), up = eo * eo * aD * aG * a * b, den = eo * a + ei * b; den = den * den; den = den * (wo.z * wi.z); vc_nat(ab(up) > 1e-3f && ab(eo * a + ei * b) > 0.05f); vc_check(EPSILON <= 1e-4f, "only negligible light is dropped");
    if(vc_split(flt_equal(up, 0.f))) { vc_check(OR(black(v), !vc_symbolic()), "negligible light is dropped"); return; } float q = fabsf(up / den); for(int i = 0; i < 3; i++) vc_check(vc_feqtol(v.w[i], (1.f - REF(ni, nt, b, i)) * q, TOL), "the transmitted light follows the microfacet transmission formula");
}
HARNESS(gl_t_value)
{
    answers(); float ni = vc_f32in("ni", 1, 3), nt = vc_f32in("nt", 1, 3); MicrofacetT* r = thin(ni, nt); Vec3 wo = unit("wo"), wi = unit("wi"); n_n = 0; bool same_ = vc_split(wo.z * wi.z > 0); bool flat = vc_split(OR(wo.z == 0, wi.z == 0)); vc_nat(ab(wo.z) > 1e-2f && ab(wi.z) > 1e-2f);
    bool out = vc_split(wo.z > 0); float eo = out ? ni : nt, ei = out ? nt : ni; Vec3 s; s.x = -wo.x * eo - wi.x * ei; s.y = -wo.y * eo - wi.y * ei; s.z = -wo.z * eo - wi.z * ei; bool none = vc_split(ALL(s.x == 0, s.y == 0, s.z == 0)); Vec3 h = s; if(!same_ && !flat && !none) { h = half(s); denlem(h, s, wo, wi, eo, ei); nin[0] = s; nout[0] = h; if(vc_split(h.z < 0)) h = V3(-h.x, -h.y, -h.z); ask(wo, wi, h); }
    Spectrum v = ((Bdf*)r)->value(&wo, &wi); if(same_ || flat || none) { vc_check(black(v), "nothing is transmitted on the side of the viewer"); return; } tvalue(v, wo, wi, h, ni, nt);
}
HARNESS(gl_t_pdf)
{
    answers(); float ni = vc_f32in("ni", 1, 3), nt = vc_f32in("nt", 1, 3); MicrofacetT* r = thin(ni, nt); Vec3 wo = unit("wo"), wi = unit("wi"); n_n = 0; bool same_ = vc_split(wo.z * wi.z > 0); vc_nat(ab(wo.z) > 1e-2f && ab(wi.z) > 1e-2f);
    bool out = vc_split(wo.z > 0); float eo = out ? ni : nt, ei = out ? nt : ni; Vec3 s; s.x = -wo.x * eo - wi.x * ei; s.y = -wo.y * eo - wi.y * ei; s.z = -wo.z * eo - wi.z * ei; bool none = vc_split(ALL(s.x == 0, s.y == 0, s.z == 0)); Vec3 h = s; if(!same_ && !none) { h = half(s); nin[0] = s; nout[0] = h; ask(wo, wi, h); denlem(h, s, wo, wi, eo, ei); vc_nat(ab(ei * d3(wi, h) + eo * d3(wo, h)) > 0.05f); }
    float p = ((Bdf*)r)->pdf(&wo, &wi); if(same_ || none) { vc_check(p == 0, "no density on the side of the viewer"); return; } float a = d3(wo, h), den = ei * d3(wi, h) + eo * a; vc_check(vc_feqtol(p, aP * (eo * eo * fabsf(a) / (den * den)), TOL), "the density of a transmitted direction is that of its half vector times the Jacobian of refraction");
}
HARNESS(gl_t_sample)
{
    answers(); float ni = vc_f32in("ni", 1, 3), nt = vc_f32in("nt", 1, 3); MicrofacetT* r = thin(ni, nt); Vec3 wo = unit("wo"), h = unit("h"), wi = V3(0, 0, 0); SW = h; e0 = vc_f32in("r0", 0, 1); e1 = vc_f32in("r1", 0, 1); float pdf = -1; vc_assume(wo.z * h.z >= 0); bool flat = vc_split(wo.z == 0); bool out = vc_split(wo.z > 0); float eo = out ? ni : nt, ei = out ? nt : ni; Vec3 t = unit("t");
#ifdef VC_NATIVE
    vc_nat(ab(wo.z) > 0.05f && ab(d3(wo, h)) > 0.05f); t = refract(wo, h, eo / ei);
#else
    if(vc_bool("total")) t = V3(0, 0, 0); rS = wo; rI = h; rE = eo / ei; TR = t;
#endif
    bool tir = vc_split(ALL(t.x == 0, t.y == 0, t.z == 0)), back = true; n_n = 0; nin[0] = h; nout[0] = h; nin[1] = t; nout[1] = t; Vec3 s, hh = h; ask(wo, t, h); if(!tir && !flat) { s.x = -wo.x * eo - t.x * ei; s.y = -wo.y * eo - t.y * ei; s.z = -wo.z * eo - t.z * ei; float den = ei * d3(t, h) + eo * d3(wo, h); vc_assume(den != 0); vc_nat(ab(den) > 0.05f && ab(t.z) > 0.05f);
        back = vc_split(OR(wo.z * t.z > 0, OR(t.z == 0, ALL(s.x == 0, s.y == 0, s.z == 0)))); if(!back) { hh = half(s); denlem(hh, s, wo, t, eo, ei); nin[2] = s; nout[2] = hh; if(vc_split(hh.z < 0)) hh = V3(-hh.x, -hh.y, -hh.z); ask(wo, t, hh); EP = h; } }
    Spectrum v = ((Bdf*)r)->sample_value(&wo, &wi, e0, e1, &pdf); if(flat || tir) { vc_check(AND(pdf == 0, black(v)), "nothing is sampled along the surface or beyond the critical angle"); return; }
    vc_check(near3(wi, t), "light is refracted at the sampled microfacet"); float a = d3(wo, h), den = ei * d3(t, h) + eo * a; vc_check(vc_feqtol(pdf, aP * (eo * eo * fabsf(a) / (den * den)), TOL), "the density of a sampled direction is that of its half vector times the Jacobian of refraction"); if(back) { vc_check(black(v), "nothing is transmitted on the side of the viewer"); return; } tvalue(v, wo, t, hh, ni, nt);
}
