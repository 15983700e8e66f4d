#include "vc.h"
#include <sstream>
#include <string>
#include <vector>
#include <unordered_map>
#define private public
#define protected public
#include "materials/bdf.hpp"
#include "materials/bsdf.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/shading_space.hpp"
#include "materials/bump.hpp"
#include "textures/texture.hpp"
#include "textures/mask_boolean.hpp"
#include "textures/texture_library.hpp"
#undef private
#undef protected
#include "utility/console.hpp"
#include <cmath>
#define TOL 2e-3f
static float ab(float v) { return v < 0 ? -v : v; }
static bool near3(const Vec3& a, const Vec3& b) { return ALL(vc_feqtol(a.x, b.x, 1e-4f), vc_feqtol(a.y, b.y, 1e-4f), vc_feqtol(a.z, b.z, 1e-4f)); }
static bool eqv(const Vec3& a, const Vec3& b) { return ALL(a.x == b.x, a.y == b.y, a.z == b.z); }
static Vec3 any(const char* n) { Vec3 v; v.x = vc_f32in("vx", -1, 1); v.y = vc_f32in("vy", -1, 1); v.z = vc_f32in("vz", -1, 1); if(!vc_symbolic()) { float l = v.length(); vc_assume(l > 1e-2f); v = v * (1.f / l); } return v; }
static Spectrum spec(const char* n) { Spectrum s; for(int i = 0; i < 3; i++) s.w[i] = vc_f32in(n, 0, 10); return s; }
static Spectrum mul(const Spectrum& a, const Spectrum& b) { Spectrum s; for(int i = 0; i < 3; i++) s.w[i] = a.w[i] * b.w[i]; return s; }
static bool same(const Spectrum& a, const Spectrum& b) { return ALL(vc_feqtol(a.w[0], b.w[0], TOL), vc_feqtol(a.w[1], b.w[1], TOL), vc_feqtol(a.w[2], b.w[2], TOL)); }
static bool black(const Spectrum& a) { return ALL(a.w[0] == 0, a.w[1] == 0, a.w[2] == 0); }
static const HitPoint* g_h; static bool g_badhit, g_vis, g_warn; static const Texture* g_dflt;
/* any scattering function, used through its interface: every answer is arbitrary, every argument is recorded */
static Vec3 EO, EI, g_swi; static int g_chosen, g_asked; static float g_r0, g_r1;
struct AnyBdf : public Bdf
{
    Spectrum v, sv; float p, sp; Vec3 swi; int id; int* dead;
    AnyBdf(char f) : Bdf(f), p(0), sp(0), id(0), dead(0) {}
    ~AnyBdf() override { if(dead) ++*dead; }
    Spectrum value(const Vec3* wo, const Vec3* wi) const override { vc_check(AND(near3(*wo, EO), near3(*wi, EI)), "components are asked about the two directions in the shading space"); return v; }
    float pdf(const Vec3* wo, const Vec3* wi) const override { vc_check(AND(near3(*wo, EO), near3(*wi, EI)), "components are asked for the density of the two directions in the shading space"); return p; }
    Spectrum sample_value(const Vec3* wo, Vec3* wi, float a, float b, float* q) const override
    {
        vc_check(ALL(near3(*wo, EO), a == g_r0, b == g_r1), "components sample in the shading space with their own two numbers"); *wi = swi; *q = sp; g_swi = swi; g_chosen = id; g_asked++;
        if(!vc_symbolic()) { EI = swi; if(EI.length() > 0) EI.normalize(); } return sv;
    }
};
struct AnyTexture : public Texture
{
    Spectrum c; AnyTexture() {} Spectrum map(const HitPoint* h) const override { g_badhit = OR(g_badhit, h != g_h); return c; }
};
bool MaskBoolean::is_visible(const HitPoint* h) const { g_badhit = OR(g_badhit, h != g_h); return g_vis; }
MaskBoolean::MaskBoolean() : map(0) {}
TextureLibrary::TextureLibrary() {}
TextureLibrary::~TextureLibrary() {}
const Texture* TextureLibrary::get_dflt_texture() const { return g_dflt; }
/* the shading space turns directions into arbitrary others (proved orthonormal separately) */
#ifndef VC_NATIVE
extern "C" TextureLibrary& CONTRACT(_ZN14TextureLibrary8instanceEv)() { static char lib[sizeof(TextureLibrary)]; return *(TextureLibrary*)lib; }
static Vec3 WO, WI, SO, SI, LS, LW; static int n_norm;
extern "C" Vec3& CONTRACT(_ZN4Vec39normalizeEv)(Vec3* v) { vc_check(eqv(*v, g_swi), "the sampled direction is normalised"); n_norm++; *v = LS; return *v; }
extern "C" Vec3 CONTRACT(_ZNK12ShadingSpace10to_shadingERK4Vec3)(const ShadingSpace*, const Vec3& w) { Vec3 o; bool a = eqv(w, WO), b = eqv(w, WI); o.x = a ? SO.x : (b ? SI.x : vc_f32("o")); o.y = a ? SO.y : (b ? SI.y : vc_f32("o")); o.z = a ? SO.z : (b ? SI.z : vc_f32("o")); return o; }
extern "C" Vec3 CONTRACT(_ZNK12ShadingSpace8to_worldERK4Vec3)(const ShadingSpace*, const Vec3& s) { Vec3 o; bool a = eqv(s, LS); o.x = a ? LW.x : vc_f32("o"); o.y = a ? LW.y : vc_f32("o"); o.z = a ? LW.z : vc_f32("o"); return o; }
#endif
struct Scene1 { HitPoint h; ShadingSpace m; Vec3 wo, wi, so, si, ls, lw; };
static void set(Scene1* c)
{
    c->wo = any("wo"); c->wi = any("wi"); c->h.normal_h.x = vc_f32in("nx", -1, 1); c->h.normal_h.y = vc_f32in("ny", -1, 1); c->h.normal_h.z = vc_f32in("nz", -1, 1); g_h = &c->h; g_badhit = false;
#ifdef VC_NATIVE
    Vec3 n(c->h.normal_h.x, c->h.normal_h.y, c->h.normal_h.z), a = any("s"), s = cross(n, a); vc_assume(n.length() > 0.05f && s.length() > 0.01f); n.normalize(); s.normalize(); c->h.normal_h = Normal(n.x, n.y, n.z); c->h.dpdu = s; c->m = ShadingSpace(&c->h); c->so = c->m.to_shading(c->wo); c->si = c->m.to_shading(c->wi); 
#else
    c->so = SO = any("so"); c->si = SI = any("si"); WO = c->wo; WI = c->wi; bool q = eqv(WO, WI); vc_assume(IMPLIES(q, eqv(SO, SI))); n_norm = 0; LS = c->ls = any("ls"); LW = c->lw = any("lw");
#endif
    EO = c->so; EI = c->si; g_chosen = -1; g_asked = 0;
}
static float ndot(const Normal& n, const Vec3& v) { return v.x * n.x + v.y * n.y + v.z * n.z; }
static AnyBdf* bdf(char f, bool sample)
{
    AnyBdf* b = new AnyBdf(f); b->v = spec("v"); b->p = vc_f32in("p", 0, 10); if(sample) { b->sv = spec("sv"); b->sp = vc_f32in("sp", 0, 10); b->swi = any("swi"); if(vc_bool("none")) b->swi = Vec3(0, 0, 0); } return b;
}
static int g_mirror;
static char anyflags(bool split, int i) { bool m = vc_bool("mirror"); if(split) m = g_mirror < -1 ? vc_split(m) : g_mirror == i; return (char)((vc_bool("through") ? FLAG_BTDF : FLAG_BRDF) | (m ? FLAG_SPEC : 0)); }
struct Multi { MultiBSDF* m; AnyBdf* b[_MAX_BDF_]; AnyTexture* t[_MAX_BDF_]; int n; };
static void multi(Multi* k, int n, bool sample) { g_mirror = n <= 3 ? -2 : vc_pick("a mirror", 2) ? n - 2 : -1; k->m = new MultiBSDF(); k->n = n; for(int i = 0; i < n; i++) { k->b[i] = bdf(anyflags(sample, i), sample); k->b[i]->id = i; k->t[i] = new AnyTexture; k->t[i]->c = spec("c"); k->m->inherit_bdf(k->b[i], k->t[i]); } }
HARNESS(mix_value)
{
    Scene1 c; set(&c); Multi k; multi(&k, vc_pick("components", 6), false); bool ms = vc_bool("with mirrors"); float d = ndot(c.h.normal_h, c.wo) * ndot(c.h.normal_h, c.wi); vc_nat(ab(d) > 1e-4f); bool refl = d > 0;
    Spectrum s = ((Bsdf*)k.m)->value(&c.wo, &c.h, &c.wi, &c.m, ms), e; for(int q = 0; q < 3; q++) e.w[q] = 0;
    for(int i = 0; i < k.n; i++) { char f = k.b[i]->get_flags(); bool on = AND(refl ? (f & FLAG_BTDF) == 0 : (f & FLAG_BRDF) == 0, OR(ms, (f & FLAG_SPEC) == 0)); for(int q = 0; q < 3; q++) { float x = k.b[i]->v.w[q] * k.t[i]->c.w[q]; e.w[q] += on ? x : 0.f; } }
    vc_check(same(s, e), "the light scattered is the sum of the components of that side, each coloured by its texture"); vc_check(!g_badhit, "textures are looked up at the hit");
}
HARNESS(mix_pdf)
{
    Scene1 c; set(&c); Multi k; multi(&k, vc_pick("components", 6), false); bool ms = vc_bool("with mirrors"); float p = ((Bsdf*)k.m)->pdf(&c.wo, &c.h, &c.m, &c.wi, ms), e = 0; int n = 0;
    for(int i = 0; i < k.n; i++) { bool on = OR(ms, (k.b[i]->get_flags() & FLAG_SPEC) == 0); e += on ? k.b[i]->p : 0.f; n += on ? 1 : 0; }
    float fn = (float)n; vc_check(n > 1 ? vc_feqtol(p * fn, e, TOL) : vc_feqtol(p, e, TOL), "the density is the mean of the densities of the components that can be sampled");
}
static void mixed(int lo, int hi)
{
    Scene1 c; set(&c); Multi k; multi(&k, lo + vc_pick("components", hi - lo + 1), true); bool ms = vc_split(vc_bool("with mirrors")); float r0 = vc_f32in("r0", 0, 1), pdf = -1; g_r0 = vc_f32in("r1", 0, 1); g_r1 = vc_f32in("r2", 0, 1); if(!vc_symbolic() && vc_pick("end", 8) == 0) r0 = 1; Vec3 wi; bool spec = false; Vec3 keep = c.wo;
#ifndef VC_NATIVE
    EI = LS;
#endif
    Spectrum s = ((Bsdf*)k.m)->sample_value(r0, g_r0, g_r1, &c.wo, &c.h, &c.m, &wi, &pdf, ms, &spec); int n = 0, rank = 0;
    vc_check(eqv(keep, c.wo), "the outgoing direction is unchanged"); for(int i = 0; i < k.n; i++) { bool on = OR(ms, (k.b[i]->get_flags() & FLAG_SPEC) == 0); n += on ? 1 : 0; } if(vc_split(n == 0)) { vc_check(AND(g_asked == 0, AND(pdf == 0, black(s))), "nothing to sample gives nothing"); return; } vc_check(g_asked == 1, "exactly one component is sampled");
    n = 0; int chosen = -1; for(int i = 0; i < k.n; i++) { bool on = OR(ms, (k.b[i]->get_flags() & FLAG_SPEC) == 0); if(vc_split(g_chosen == i)) { vc_check(on, "a mirror is not sampled when excluded"); rank = n; chosen = i; } n += on ? 1 : 0; } if(chosen < 0) return;
    AnyBdf* b = k.b[chosen]; float fr = (float)rank, fn = (float)n; vc_check(AND(OR(vc_fletol(fr, r0 * fn, 1e-5f), rank == 0), OR(vc_fletol(r0 * fn, fr + 1, 1e-5f), rank == n - 1)), "components are chosen with equal probability");
    if(vc_split(AND(AND(b->swi.x == 0, b->swi.y == 0), b->swi.z == 0))) { vc_check(AND(pdf == 0, black(s)), "no direction gives nothing"); return; }
    Vec3 lw = vc_symbolic() ? c.lw : c.m.to_world(EI); vc_check(near3(wi, lw), "the sampled direction is brought back to the world");
    bool mirror = (b->get_flags() & FLAG_SPEC) != 0; vc_check(spec == mirror, "mirrors are reported"); if(vc_split(mirror)) { vc_check(same(s, mul(b->sv, k.t[chosen]->c)), "a mirror gives its own colour"); vc_check(vc_feqtol(pdf * fn, b->sp, TOL), "a mirror is chosen among the others"); return; }
    float d = ndot(c.h.normal_h, c.wo) * ndot(c.h.normal_h, lw); vc_nat(ab(d) > 1e-4f); bool refl = d > 0; Spectrum e; for(int q = 0; q < 3; q++) e.w[q] = 0; float ep = 0;
    for(int i = 0; i < k.n; i++) { char f = k.b[i]->get_flags(); bool on = AND(refl ? (f & FLAG_BTDF) == 0 : (f & FLAG_BRDF) == 0, (f & FLAG_SPEC) == 0); for(int q = 0; q < 3; q++) { float x = k.b[i]->v.w[q] * k.t[i]->c.w[q]; e.w[q] += on ? x : 0.f; } ep += on ? k.b[i]->p : 0.f; }
    vc_check(same(s, e), "the light is that of all components of that side for the sampled direction, each coloured by its texture"); vc_check(vc_feqtol(pdf * fn, ep, TOL), "the density is that of all components of that side, averaged over those that can be sampled"); vc_check(!g_badhit, "textures are looked up at the hit");
}
HARNESS(mix_sample) { mixed(0, 2); }
HARNESS(mix_sample3) { mixed(3, 3); }
HARNESS(mix_sample4) { mixed(4, 4); }
HARNESS(mix_sample5) { mixed(5, 5); }
HARNESS(mix_limit)
{
    MultiBSDF* m = new MultiBSDF(); AnyTexture d, t; g_dflt = &d; AnyBdf* b[7]; for(int i = 0; i < 7; i++) { b[i] = new AnyBdf(FLAG_BRDF); m->inherit_bdf(b[i], vc_split(vc_bool("textured")) ? &t : 0); vc_check(m->count == (i < _MAX_BDF_ ? i + 1 : _MAX_BDF_), "no more components than there is room for"); }
    for(int i = 0; i < _MAX_BDF_; i++) vc_check(AND(m->bdfs[i] == b[i], OR(m->diffuse[i] == &t, m->diffuse[i] == &d)), "components are kept in order, with the default texture when none is given");
}
HARNESS(mix_single)
{
    Scene1 c; set(&c); char fl = (char)(FLAG_BRDF | (vc_bool("mirror") ? FLAG_SPEC : 0)); AnyBdf* b = bdf(fl, true); AnyTexture t; t.c = spec("c"); AnyTexture dt; dt.c = spec("cd"); g_dflt = &dt; bool tex = vc_split(vc_bool("textured")); SingleBRDF* m = new SingleBRDF(b, tex ? &t : 0); Spectrum col = tex ? t.c : dt.c; bool ms = vc_bool("with mirrors"), mir = (fl & FLAG_SPEC) != 0; uint32_t op = vc_pick("op", 3);
    if(op == 0) { float d = ndot(c.h.normal_h, c.wo) * ndot(c.h.normal_h, c.wi); vc_nat(ab(d) > 1e-4f); Spectrum s = ((Bsdf*)m)->value(&c.wo, &c.h, &c.wi, &c.m, ms), e = mul(b->v, col); bool on = AND(d > 0, OR(ms, !mir)); for(int q = 0; q < 3; q++) e.w[q] = on ? e.w[q] : 0.f; vc_check(same(s, e), "light is scattered on the side of the viewer only, coloured by the texture"); }
    else if(op == 1) { float p = ((Bsdf*)m)->pdf(&c.wo, &c.h, &c.m, &c.wi, ms); vc_check(vc_feqtol(p, OR(ms, !mir) ? b->p : 0.f, TOL), "the density is that of the component"); }
    else { float pdf = -1; Vec3 wi; bool sp = !mir; g_r0 = vc_f32in("r1", 0, 1); g_r1 = vc_f32in("r2", 0, 1); vc_nat(b->swi.length() > 0.1f);
        Spectrum s = ((Bsdf*)m)->sample_value(vc_f32in("r0", 0, 1), g_r0, g_r1, &c.wo, &c.h, &c.m, &wi, &pdf, ms, &sp); vc_check(sp == mir, "mirrors are reported"); if(vc_split(AND(mir, !ms))) { vc_check(AND(pdf == 0, black(s)), "an excluded mirror gives nothing"); return; }
        Vec3 lw = c.lw; if(!vc_symbolic()) { if(b->swi.length() == 0) return; lw = c.m.to_world(EI); } vc_check(near3(wi, lw), "the sampled direction is brought back to the world"); vc_check(AND(vc_feqtol(pdf, b->sp, TOL), g_asked == 1), "the density is that of the component"); vc_check(same(s, mul(b->sv, col)), "the light is that of the component, coloured by the texture"); }
    vc_check(!g_badhit, "textures are looked up at the hit");
}
struct AnyBsdf : public Bsdf
{
    mutable int n; mutable const void *a, *b, *c, *d, *e, *f; mutable float r[3]; mutable bool ms; Spectrum v; float p; AnyBsdf() : n(0) {}
    Spectrum value(const Vec3* wo, const HitPoint* h, const Vec3* wi, const ShadingSpace* m, bool s) const override { n++; a = wo; b = h; c = wi; d = m; ms = s; return v; }
    Spectrum sample_value(float r0, float r1, float r2, const Vec3* wo, const HitPoint* h, const ShadingSpace* m, Vec3* wi, float* q, bool s, bool* o) const override { n++; r[0] = r0; r[1] = r1; r[2] = r2; a = wo; b = h; c = wi; d = m; ms = s; e = q; f = o; return v; }
    float pdf(const Vec3* wo, const HitPoint* h, const ShadingSpace* m, const Vec3* wi, bool s) const override { n++; a = wo; b = h; c = wi; d = m; ms = s; return p; }
    void gen_shading_matrix(const HitPoint* h, ShadingSpace* m, Normal* o) const override { n++; b = h; d = m; e = o; }
};
HARNESS(mix_dual)
{
    AnyBsdf* x = new AnyBsdf; AnyBsdf* y = new AnyBsdf; x->v = spec("v"); y->v = spec("v"); x->p = vc_f32in("p", 0, 9); y->p = vc_f32in("p", 0, 9); g_vis = vc_split(vc_bool("visible")); g_badhit = false; Vec3 wo, wi; HitPoint h; ShadingSpace m; float q; bool o; Normal nn; g_h = &h; DualBsdf* db = new DualBsdf(x, y, MaskBoolean()); Bsdf* k = db; AnyBsdf* u = g_vis ? x : y; AnyBsdf* w = g_vis ? y : x; bool ms = vc_bool("ms"); uint32_t op = vc_pick("op", 4);
    if(op == 0) { Spectrum s = k->value(&wo, &h, &wi, &m, ms); vc_check(same(s, u->v), "the material seen through the mask answers"); vc_check(ALL(u->a == &wo, u->b == &h, u->c == &wi, u->d == &m, u->ms == ms), "the question is passed on"); }
    if(op == 1) { float r0 = vc_f32in("r0", 0, 1), r1 = vc_f32in("r1", 0, 1), r2 = vc_f32in("r2", 0, 1); Spectrum s = k->sample_value(r0, r1, r2, &wo, &h, &m, &wi, &q, ms, &o); vc_check(same(s, u->v), "the material seen through the mask answers"); vc_check(ALL(u->a == &wo, u->b == &h, u->c == &wi, u->d == &m, u->ms == ms, u->e == &q, u->f == &o, u->r[0] == r0, u->r[1] == r1, u->r[2] == r2), "the question is passed on"); }
    if(op == 2) { float p = k->pdf(&wo, &h, &m, &wi, ms); vc_check(p == u->p, "the material seen through the mask answers"); vc_check(ALL(u->a == &wo, u->b == &h, u->c == &wi, u->d == &m, u->ms == ms), "the question is passed on"); }
    if(op == 3) { k->gen_shading_matrix(&h, &m, &nn); vc_check(ALL(u->b == &h, u->d == &m, u->e == &nn), "the shading frame is that of the material seen"); }
    vc_check(ALL(u->n == 1, w->n == 0, !g_badhit), "exactly one material is asked, at the hit");
}
