#include "vc.h"
#include <sstream>
#include <string>
#include <initializer_list>
#define private public
#define protected public
#include "materials/bdf.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/fresnel_conditions.hpp"
#undef private
#undef protected
#include "utility/utility.hpp"
#include <cmath>
#define TOL 2e-3f
static float ab(float v) { return v < 0 ? -v : v; }
static Vec3 unit(const char* n)
{
    Vec3 v; v.x = vc_f32in("dx", -1, 1); v.y = vc_f32in("dy", -1, 1); v.z = vc_f32in("dz", -1, 1);
    if(vc_symbolic()) { vc_assume(v.x * v.x + v.y * v.y + v.z * v.z == 1); return v; }
    uint32_t k = vc_u32("shape") % 8; if(k == 0) v.y = 0; if(k == 1) { v.x = v.y = 0; } if(k == 2) v.z *= 0.05f; float l = v.length(); vc_nat(l > 1e-2f); if(l > 0) v = v * (1.f / l); return v;
}
static bool all3(const Spectrum& s, float v, float tol) { return ALL(vc_feqtol(s.w[0], v, tol), vc_feqtol(s.w[1], v, tol), vc_feqtol(s.w[2], v, tol)); }
// Fresnel reflectance of an unpolarised ray leaving a medium of index ei for et at cosine c >= 0, with the proof of its range
static float fresnel(float ei, float et, float c)
{
    float st = (ei / et) * sqrtf(::max(0.f, 1.f - c * c)); if(vc_split(st >= 1)) return 1; float ct = sqrtf(::max(0.f, 1.f - st * st));
    float etatcosi = et * c, etaicosi = ei * c, etatcost = et * ct, etaicost = ei * ct, rp = (etaicosi - etatcost) / (etaicosi + etatcost), rl = (etatcosi - etaicost) / (etatcosi + etaicost), f = (rl * rl + rp * rp) / 2;
    if(vc_symbolic())
    {
        float a = vc_name(etaicosi), b = vc_name(etatcost), p = vc_name(etatcosi), q = vc_name(etaicost);
        vc_lemma(AND(a >= 0, p >= 0), "incident side"); vc_lemma(AND(st < 1, st >= 0), "transmitted sine"); vc_by(AND(st < 1, st >= 0), st * st < 1, "transmitted sine"); vc_lemma(AND(ct >= 0, ct * ct == 1 - st * st), "transmitted cosine"); vc_by(ALL(ct >= 0, ct * ct == 1 - st * st, st * st < 1), ct > 0, "transmitted cosine"); vc_by(ALL(ct > 0, et > 0, ei > 0, b == et * ct, q == ei * ct), AND(b > 0, q > 0), "transmitted side");
        float R = vc_name(rp), L = vc_name(rl); vc_lemma(AND(R * (a + b) == a - b, L * (p + q) == p - q), "amplitudes"); vc_by(ALL(R * (a + b) == a - b, a >= 0, b > 0), AND(R <= 1, -R <= 1), "amplitude at most one"); vc_by(ALL(L * (p + q) == p - q, p >= 0, q > 0), AND(L <= 1, -L <= 1), "amplitude at most one");
        vc_by(ALL(R <= 1, -R <= 1, L <= 1, -L <= 1), AND(R * R <= 1, L * L <= 1), "squares"); float S = vc_name(R * R), T = vc_name(L * L); vc_lemma(ALL(S <= 1, T <= 1, S >= 0, T >= 0, f == (S + T) / 2), "reflectance");
    }
    return f;
}
static void media(float* ni, float* nt) { *ni = vc_f32in("ni", 0.5f, 4); *nt = vc_f32in("nt", 0.5f, 4); }
HARNESS(mat_fresnel)
{
    float ni, nt; media(&ni, &nt); float c = vc_f32in("cos", 0, 1); bool in = vc_split(vc_bool("inside")); vc_assume(IMPLIES(in, c > 0)); Dielectric d{Spectrum(ni), Spectrum(nt)}; vc_check(AND(d.get_eta_incident() == ni, d.get_eta_transmitted() == nt), "the indices are kept"); float f = fresnel(in ? nt : ni, in ? ni : nt, c); vc_nat(c > 1e-3f);
    Spectrum s = d.eval(in ? -c : c); vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], f, TOL), "the reflectance of a dielectric is that of the Fresnel equations, total beyond the critical angle, on both sides"); vc_check(AND(f >= 0, f <= 1), "the reflectance lies between 0 and 1");
}
// reflectance of a conductor n + ik at cosine c
static float metal(float n, float k, float c)
{
    float t = n * n + k * k, a = vc_name(t + c * c), b = vc_name(2 * n * c), e = vc_name(t * c * c + 1); float s = (a - b) / (a + b), p = (e - b) / (e + b), f = (s + p) / 2;
    if(vc_symbolic())
    {
        vc_lemma(a - b == (n - c) * (n - c) + k * k, "perpendicular"); vc_lemma(e - b == (n * c - 1) * (n * c - 1) + (k * c) * (k * c), "parallel"); vc_lemma(AND(a - b >= 0, e - b >= 0), "no negative reflectance"); vc_by(AND(n >= 0, c >= 0), n * c >= 0, "no negative absorption"); vc_lemma(b >= 0, "no negative absorption"); vc_by(AND(n >= 0.01f, t == n * n + k * k), t > 0, "index"); vc_lemma(AND(a > 0, e >= 1), "denominators");
        float S = vc_name(s), P = vc_name(p); vc_lemma(AND(S * (a + b) == a - b, P * (e + b) == e - b), "fractions"); vc_by(ALL(S * (a + b) == a - b, a > 0, b >= 0, a - b >= 0), AND(S >= 0, S <= 1), "fraction"); vc_by(ALL(P * (e + b) == e - b, e >= 1, b >= 0, e - b >= 0), AND(P >= 0, P <= 1), "fraction");
    }
    return f;
}
static void index3(Spectrum* n, Spectrum* k) { for(int i = 0; i < 3; i++) { n->w[i] = vc_f32in("n", 0.01f, 10); k->w[i] = vc_f32in("k", 0, 10); } }
HARNESS(mat_metal)
{
    Spectrum n, k; index3(&n, &k); float c = vc_f32in("cos", 0, 1); Conductor d(n, k); Spectrum s = d.eval(c); for(int i = 0; i < 3; i++) { float f = metal(n.w[i], k.w[i], c); vc_check(vc_feqtol(s.w[i], f, TOL), "the reflectance of a metal is that of the Fresnel equations"); vc_check(AND(f >= 0, f <= 1), "the reflectance lies between 0 and 1"); }
}
static bool mirrored(const Vec3& wo, const Vec3& wi) { return ALL(vc_feqtol(wi.x, -wo.x, 1e-6f), vc_feqtol(wi.y, -wo.y, 1e-6f), vc_feqtol(wi.z, wo.z, 1e-6f)); }
HARNESS(mat_mirror_metal)
{
    Spectrum n, k; index3(&n, &k); ConductorReflection b(n, k); Vec3 wo = unit("wo"), wi; float pdf = -1; vc_assume(wo.z > 0.01f); Vec3 keep = wo; Spectrum s = ((Bdf*)&b)->sample_value(&wo, &wi, vc_f32in("r0", 0, 1), vc_f32in("r1", 0, 1), &pdf);
    vc_check(AND(mirrored(wo, wi), pdf == 1), "light is mirrored at the normal"); for(int i = 0; i < 3; i++) vc_check(vc_feqtol(s.w[i], metal(n.w[i], k.w[i], wo.z) / ab(wo.z), TOL), "the mirrored light is weighted by the reflectance of the metal");
    vc_check(AND(ALL(((Bdf*)&b)->value(&wo, &wi).w[0] == 0, ((Bdf*)&b)->value(&wo, &wi).w[1] == 0, ((Bdf*)&b)->value(&wo, &wi).w[2] == 0), ((Bdf*)&b)->pdf(&wo, &wi) == 0), "no other direction is reflected"); vc_check(ALL(wo.x == keep.x, wo.y == keep.y, wo.z == keep.z), "the outgoing direction is unchanged");
    vc_check(AND(b.is_specular(), AND(b.is_BRDF(), !b.is_BTDF())), "kind");
}
HARNESS(mat_metal_below)
{
    Spectrum n, k; index3(&n, &k); ConductorReflection b(n, k); Vec3 wo = unit("wo"), wi; float pdf = -1; vc_assume(wo.z < -0.01f); Spectrum s = ((Bdf*)&b)->sample_value(&wo, &wi, 0.5f, 0.5f, &pdf); vc_check(vc_fletol(s.w[0] * ab(wo.z), 1, TOL), "a metal seen from below reflects no more than it receives");
}
HARNESS(mat_mirror_glass)
{
    float ni, nt; media(&ni, &nt); DielectricReflection b{Spectrum(ni), Spectrum(nt)}; Vec3 wo = unit("wo"), wi; float pdf = -1; vc_assume(ab(wo.z) > 0.01f); bool in = vc_split(wo.z < 0); float c = in ? -wo.z : wo.z; if(in && vc_symbolic()) { c = vc_f32in("c", 0.01f, 1); vc_assume(-c == wo.z); wo.z = -c; } Spectrum s = ((Bdf*)&b)->sample_value(&wo, &wi, vc_f32in("r0", 0, 1), vc_f32in("r1", 0, 1), &pdf);
    vc_check(AND(mirrored(wo, wi), pdf == 1), "light is mirrored at the normal"); float f = fresnel(in ? nt : ni, in ? ni : nt, c); vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], f / c, TOL), "the mirrored light is weighted by the Fresnel reflectance, total reflection included");
    vc_check(AND(((Bdf*)&b)->value(&wo, &wi).w[0] == 0, ((Bdf*)&b)->pdf(&wo, &wi) == 0), "no other direction is reflected"); vc_check(AND(b.is_specular(), AND(b.is_BRDF(), !b.is_BTDF())), "kind");
}
HARNESS(mat_refract)
{
    float ni, nt; media(&ni, &nt); Refraction b{Spectrum(ni), Spectrum(nt)}; Vec3 wo = unit("wo"), wi(7.f, 7.f, 7.f); float pdf = -1; vc_assume(ab(wo.z) > 0.01f); bool in = vc_split(wo.z < 0); float c = in ? -wo.z : wo.z; if(in && vc_symbolic()) { c = vc_f32in("c", 0.01f, 1); vc_assume(-c == wo.z); wo.z = -c; } float ei = in ? nt : ni, et = in ? ni : nt, eta = ei / et; Spectrum s = ((Bdf*)&b)->sample_value(&wo, &wi, vc_f32in("r0", 0, 1), vc_f32in("r1", 0, 1), &pdf);
    float s2 = eta * eta * (1.f - wo.z * wo.z); bool tir = vc_split(s2 >= 1); vc_nat(ab(s2 - 1) > 1e-2f); vc_check(pdf == (tir ? 0.f : 1.f), "no light is transmitted exactly beyond the critical angle");
    if(tir) { vc_check(ALL(s.w[0] == 0, s.w[1] == 0, s.w[2] == 0), "no light is transmitted beyond the critical angle"); return; }
    vc_check(ALL(vc_feqtol(wi.x * et, -wo.x * ei, TOL), vc_feqtol(wi.y * et, -wo.y * ei, TOL)), "the law of sines, in the plane of incidence"); if(vc_symbolic()) { float w = vc_name(wi.z); vc_lemma(w * w == 1 - s2, "unit result"); }
    vc_check(vc_feqtol(wi.z * wi.z, 1 - s2, TOL), "the transmitted direction is a unit vector"); vc_check(in ? wi.z > 0 : wi.z < 0, "light is transmitted to the other side");
    float ct = vc_symbolic() ? sqrtf(1.f - eta * eta * (1.f - wo.z * wo.z)) : ab(wi.z), a = ei * c, bb = et * ct, p = et * c, q = ei * ct, rp = (a - bb) / (a + bb), rl = (p - q) / (p + q), f = 1.f - ((rl * rl + rp * rp) / 2.f); vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], f * ((ei * ei) / (et * et)) / ct, 1e-2f), "transmitted light is what is not reflected, compressed by the indices");
    vc_check(AND(((Bdf*)&b)->value(&wo, &wi).w[0] == 0, ((Bdf*)&b)->pdf(&wo, &wi) == 0), "no other direction is transmitted"); vc_check(AND(b.is_specular(), AND(!b.is_BRDF(), b.is_BTDF())), "kind");
}
HARNESS(mat_diffuse)
{
    Lambertian b; Vec3 wo = unit("wo"), wi; float r0 = vc_f32in("r0", 0, 1), r1 = vc_f32in("r1", 0, 1), pdf = -1; Spectrum s = ((Bdf*)&b)->sample_value(&wo, &wi, r0, r1, &pdf); vc_nat(ab(wo.z) > 1e-4f && r1 < 0.999f);
    vc_check(vc_feqtol(wi.x * wi.x + wi.y * wi.y, r1, TOL), "sampled points are uniform on the disk"); vc_check(vc_feqtol(wi.x * wi.x + wi.y * wi.y + wi.z * wi.z, 1, TOL), "the sampled direction is a unit vector"); vc_check(IMPLIES(wo.z > 0, wi.z >= 0), "on the same side"); vc_check(IMPLIES(wo.z < 0, wi.z <= 0), "on the same side");
    if(vc_symbolic()) { float t = TWO_PI * r0; vc_check(AND(wi.x * sinf(t) == wi.y * cosf(t), wi.x * cosf(t) + wi.y * sinf(t) >= 0), "at the sampled azimuth"); }
    vc_check(vc_feqtol(pdf, ab(wi.z) * INV_PI, TOL), "the density is proportional to the cosine"); vc_check(IMPLIES(wo.z != 0, vc_feqtol(((Bdf*)&b)->pdf(&wo, &wi), pdf, TOL)), "sampling and density agree"); Spectrum v = ((Bdf*)&b)->value(&wo, &wi);
    vc_check(ALL(all3(s, INV_PI, 1e-6f), all3(v, INV_PI, 1e-6f)), "a diffuse surface scatters all light equally in all directions"); Vec3 o = unit("o"); vc_check(vc_feqtol(((Bdf*)&b)->pdf(&wo, &o), wo.z * o.z > 0 ? ab(o.z) * INV_PI : 0.f, TOL), "the density is the cosine on the same side, zero on the other"); vc_check(AND(!b.is_specular(), AND(b.is_BRDF(), !b.is_BTDF())), "kind");
}
HARNESS(mat_oren)
{
    float sg = vc_f32in("sigma", 0, 10), s2 = sg * sg; OrenNayar b(sg); Vec3 wo = unit("wo"), wi = unit("wi"); vc_assume(AND(ab(wo.z) > 0.01f, ab(wi.z) > 0.01f)); Spectrum s = ((Bdf*)&b)->value(&wo, &wi), r = ((Bdf*)&b)->value(&wi, &wo);
    float A = 1 - s2 / (2 * (s2 + 0.33f)), B = 0.45f * s2 / (s2 + 0.09f); vc_check(AND(vc_feqtol(b.A, A, TOL), vc_feqtol(b.B, B, TOL)), "the coefficients of the roughness"); vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], r.w[0], TOL), "exchanging light and viewer changes nothing");
    float so = sqrtf(::max(0.f, 1.f - wo.z * wo.z)), si = sqrtf(::max(0.f, 1.f - wi.z * wi.z)); vc_nat(so > 1e-2f && si > 1e-2f); float co = fabsf(wo.z), ci = fabsf(wi.z); bool flat = OR(so == 0, si == 0);
    if(vc_split(flat)) { vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], A * INV_PI, TOL), "perpendicular light is scattered as by a smooth surface"); return; }
    if(vc_symbolic()) { float xi = vc_name(wi.x / si), yi = vc_name(wi.y / si), xo = vc_name(wo.x / so), yo = vc_name(wo.y / so); vc_lemma(ALL(xi * si == wi.x, yi * si == wi.y, xo * so == wo.x, yo * so == wo.y), "azimuths"); vc_lemma(AND(si * si == wi.x * wi.x + wi.y * wi.y, so * so == wo.x * wo.x + wo.y * wo.y), "sines"); vc_lemma(AND(si > 0, so > 0), "sines");
        vc_by(ALL(xi * si == wi.x, yi * si == wi.y, si > 0, si * si == wi.x * wi.x + wi.y * wi.y), ALL(xi <= 1, -xi <= 1, yi <= 1, -yi <= 1), "azimuth range"); vc_by(ALL(xo * so == wo.x, yo * so == wo.y, so > 0, so * so == wo.x * wo.x + wo.y * wo.y), ALL(xo <= 1, -xo <= 1, yo <= 1, -yo <= 1), "azimuth range"); }
    float cpi = clamp(wi.x / si, -1.f, 1.f), cpo = clamp(wo.x / so, -1.f, 1.f), spi = clamp(wi.y / si, -1.f, 1.f), spo = clamp(wo.y / so, -1.f, 1.f); if(vc_symbolic()) vc_lemma(ALL(cpi == wi.x / si, cpo == wo.x / so, spi == wi.y / si, spo == wo.y / so), "the clamping of the azimuths has no effect");
    float m = ::max(0.f, cpi * cpo + spi * spo); bool k = vc_split(ci > co); vc_check(AND(s.w[1] == s.w[0], s.w[2] == s.w[0]), "all wavelengths alike"); vc_check(vc_feqtol(s.w[0], INV_PI * (A + B * m * (k ? so : si) * (k ? si / ci : so / co)), 1e-2f), "the Oren-Nayar model with the difference of the azimuths"); 
}
