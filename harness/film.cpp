#include "vc.h"
#include "cameras/image_film.hpp"
#include "samplers/filter.hpp"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <stack>
#define TOL 2e-3f
static const uint32_t* g_out; static int g_ow, g_oh, g_writes; static uint32_t g_pix; static bool g_wret; static int64_t g_at;
extern "C" char img_write(const char*, const char*, int w, int h, const uint32_t* d) { g_writes++; g_ow = w; g_oh = h; g_out = d; g_pix = d[g_at]; return g_wret; }
extern "C" char img_supported(const char*) { return 1; }
/* one pixel of the film (gx,gy) is followed through the operation; what happens to every other pixel is arbitrary */
static int gx, gy, W, Hh, T0, T1, T2, T3; static Pixel g_cur, g_init; static uint32_t g_direct, g_def; static TodoPixel g_todo; static float g_cx, g_cy, g_w, g_r, g_g, g_b; static bool g_locked, g_other;
struct AnyFilter : public Filter
{
    AnyFilter(float x, float y) : Filter(x, y) {}
    float weight(float dx, float dy) const { if(!vc_symbolic()) return (dx * 3 + dy * 7 + 1) * 0.1f; bool here = AND(dx == gx - g_cx, dy == gy - g_cy); float o = vc_f32("weight"); return here ? g_w : o; }
};
static bool px(const Pixel& a, float x, float y, float z, float s) { return ALL(vc_feqtol(a.cie_x, x, TOL), vc_feqtol(a.cie_y, y, TOL), vc_feqtol(a.cie_z, z, TOL), vc_feqtol(a.samples, s, TOL)); }
#ifndef VC_NATIVE
static bool own(int x, int y) { return ALL(x >= T0, x < T1, y >= T2, y < T3); }
static Pixel arb() { Pixel p; p.cie_x = vc_f32("ax"); p.cie_y = vc_f32("ay"); p.cie_z = vc_f32("az"); p.samples = vc_f32("as"); return p; }
extern "C" Pixel CONTRACT(_ZNK7Array2DI5PixelE3getEii)(const Array2D<Pixel>*, int x, int y)
{
    vc_check(ALL(x >= 0, x < W, y >= 0, y < Hh), "only pixels of the image are read"); vc_check(OR(own(x, y), g_locked), "a pixel of another tile is only touched with the lock held"); Pixel p = arb(); bool h = AND(x == gx, y == gy); p.cie_x = h ? g_cur.cie_x : p.cie_x; p.cie_y = h ? g_cur.cie_y : p.cie_y; p.cie_z = h ? g_cur.cie_z : p.cie_z; p.samples = h ? g_cur.samples : p.samples; return p;
}
extern "C" void CONTRACT(_ZN7Array2DI5PixelE3setEiiS0_)(Array2D<Pixel>*, int x, int y, Pixel v)
{
    vc_check(ALL(x >= 0, x < W, y >= 0, y < Hh), "only pixels of the image are written"); vc_check(OR(own(x, y), g_locked), "a pixel of another tile is only touched with the lock held"); bool h = AND(x == gx, y == gy); g_cur.cie_x = h ? v.cie_x : g_cur.cie_x; g_cur.cie_y = h ? v.cie_y : g_cur.cie_y; g_cur.cie_z = h ? v.cie_z : g_cur.cie_z; g_cur.samples = h ? v.samples : g_cur.samples; g_direct = h ? g_direct + 1 : g_direct;
}
/* the stack of deferred pixels: entry i and the sums of the entries for the followed pixel below it */
struct Sum { float x, y, z, s; }; static TodoPixel* st; static Sum* sum; static uint64_t st_n, st_top;
extern "C" void CONTRACT(_ZNSt5stackI9TodoPixelSt5dequeIS0_SaIS0_EEE4pushERKS0_)(void*, const TodoPixel& t)
{
    vc_check(ALL(t.x >= 0, t.x < W, t.y >= 0, t.y < Hh), "only pixels of the image are deferred"); bool h = AND(t.x == gx, t.y == gy); g_todo.cie_x = h ? t.cie_x : g_todo.cie_x; g_todo.cie_y = h ? t.cie_y : g_todo.cie_y; g_todo.cie_z = h ? t.cie_z : g_todo.cie_z; g_todo.samples = h ? t.samples : g_todo.samples; g_def = h ? g_def + 1 : g_def;
}
extern "C" bool CONTRACT(_ZNKSt5stackI9TodoPixelSt5dequeIS0_SaIS0_EEE5emptyEv)(const void*) { return st_top == 0; }
static void entry(uint64_t i) { const TodoPixel& t = st[i]; vc_assume(ALL(t.x >= 0, t.x < W, t.y >= 0, t.y < Hh)); bool h = AND(t.x == gx, t.y == gy); vc_assume(ALL(sum[i + 1].x == sum[i].x + (h ? t.cie_x : 0), sum[i + 1].y == sum[i].y + (h ? t.cie_y : 0), sum[i + 1].z == sum[i].z + (h ? t.cie_z : 0), sum[i + 1].s == sum[i].s + (h ? t.samples : 0))); }
extern "C" TodoPixel& CONTRACT(_ZNSt5stackI9TodoPixelSt5dequeIS0_SaIS0_EEE3topEv)(void*) { vc_check(st_top > 0, "only an entry that exists is read"); entry(st_top - 1); return st[st_top - 1]; }
extern "C" void CONTRACT(_ZNSt5stackI9TodoPixelSt5dequeIS0_SaIS0_EEE3popEv)(void*) { vc_check(st_top > 0, "only an entry that exists is removed"); st_top--; }
static int g_locks, g_unlocks; static bool g_try;
extern "C" void CONTRACT(_ZNSt5mutex4lockEv)(void*) { vc_check(!g_locked, "the lock is not taken twice"); g_locked = true; g_locks++; }
extern "C" bool CONTRACT(_ZNSt5mutex8try_lockEv)(void*) { if(g_try) { g_locked = true; g_locks++; } return g_try; }
extern "C" void CONTRACT(_ZNSt5mutex6unlockEv)(void*) { vc_check(g_locked, "only a held lock is released"); g_locked = false; g_unlocks++; }
static void drained()
{
    vc_inv(st_top <= st_n, "entries are only removed"); vc_inv(g_locked, "the lock is held while deferred pixels are added"); 
    vc_inv(ALL(g_cur.cie_x + sum[st_top].x == g_init.cie_x + sum[st_n].x, g_cur.cie_y + sum[st_top].y == g_init.cie_y + sum[st_n].y, g_cur.cie_z + sum[st_top].z == g_init.cie_z + sum[st_n].z, g_cur.samples + sum[st_top].s == g_init.samples + sum[st_n].s), "what is added and what is left make up what was deferred"); vc_variant((int64_t)st_top);
}
extern "C" void vcloop__ZN9ImageFilm16add_pixel_forcedEP12ExecutorData__0() { drained(); }
extern "C" void vcloop__ZN9ImageFilm18add_pixel_deferredEP12ExecutorData__0() { drained(); }
static void hits(bool in, bool seen)
{
    bool a = AND(in, seen), o = own(gx, gy); vc_inv(AND(g_direct == (uint32_t)(AND(a, o) ? 1 : 0), g_def == (uint32_t)(AND(a, !o) ? 1 : 0)), "every covered pixel so far is updated or deferred exactly once");
    float k = AND(a, o) ? g_w : 0.f, q = AND(a, !o) ? g_w : 0.f;
    vc_inv(ALL(g_cur.cie_x == g_init.cie_x + g_r * k, g_cur.cie_y == g_init.cie_y + g_g * k, g_cur.cie_z == g_init.cie_z + g_b * k, g_cur.samples == g_init.samples + k), "a pixel accumulates the weighted colour and the weight");
    vc_inv(IMPLIES(AND(a, !o), ALL(g_todo.cie_x == g_r * q, g_todo.cie_y == g_g * q, g_todo.cie_z == g_b * q, g_todo.samples == q)), "a deferred pixel carries the weighted colour and the weight");
}
extern "C" void vcloop__ZN9ImageFilm9add_pixelEPK6Sample8ColorXYZP12ExecutorData__0(int y, int update_x0, int update_x1, int update_y0, int update_y1)
{
    vc_inv(ALL(update_x0 >= 0, update_x1 <= W, update_y0 >= 0, update_y1 <= Hh), "the covered pixels are clipped to the image"); vc_inv(ALL(y >= update_y0, OR(y <= update_y1, y == update_y0)), "the rows covered"); hits(ALL(gx >= update_x0, gx < update_x1, gy >= update_y0, gy < update_y1), gy < y); vc_variant((int64_t)update_y1 - y + 40000000);
}
extern "C" void vcloop__ZN9ImageFilm9add_pixelEPK6Sample8ColorXYZP12ExecutorData__1(int y, int x, int update_x0, int update_x1, int update_y0, int update_y1)
{
    vc_inv(ALL(y >= update_y0, y < update_y1, x >= update_x0, OR(x <= update_x1, x == update_x0)), "the columns covered"); hits(ALL(gx >= update_x0, gx < update_x1, gy >= update_y0, gy < update_y1), OR(gy < y, AND(gy == y, gx < x))); vc_variant((int64_t)update_x1 - x + 40000000);
}
static ColorRGB g_rgb; static int g_conv;
extern "C" ColorRGB CONTRACT(_ZNK8ColorXYZ7to_sRGBEv)(const ColorXYZ* c)
{
    float x = vc_f32("cr"), y = vc_f32("cg"), z = vc_f32("cb"); float s = g_cur.samples > 0 ? g_cur.samples : 1.f; bool h = ALL(c->r * s == g_cur.cie_x, c->g * s == g_cur.cie_y, c->b * s == g_cur.cie_z, g_cur.samples > 0); return ColorRGB(h ? g_rgb.r : x, h ? g_rgb.g : y, h ? g_rgb.b : z);
}
struct Row { uint64_t v; }; static Row* row;
static void rows(int64_t y) { vc_assume(ALL(row[0].v == 0, row[Hh].v == (uint64_t)W * (uint64_t)Hh, row[y].v <= row[Hh].v, row[y + 1].v == row[y].v + W, IMPLIES(y < gy, row[y].v + W <= row[gy].v), IMPLIES(y > gy, row[gy].v + W <= row[y].v), IMPLIES(y < Hh, row[y].v + W <= row[Hh].v))); }
static uint32_t g_want;
extern "C" void vcloop__ZN9ImageFilm10save_imageEv__0(int y, unsigned int i, uint32_t* rgb_buff)
{
    vc_inv(AND(y >= 0, y <= Hh), "the rows of the image"); rows(y); vc_inv((uint64_t)i == row[y].v, "pixels are laid out row by row"); vc_inv(IMPLIES(gy < y, rgb_buff[g_at] == g_want), "the pixel holds its colour"); vc_variant(Hh - y);
}
extern "C" void vcloop__ZN9ImageFilm10save_imageEv__1(int y, int x, unsigned int i, uint32_t* rgb_buff)
{
    vc_inv(ALL(y >= 0, y < Hh, x >= 0, x <= W), "the columns of the image"); rows(y); vc_inv((uint64_t)i == row[y].v + x, "pixels are laid out row by row"); vc_inv(IMPLIES(OR(gy < y, AND(gy == y, gx < x)), rgb_buff[g_at] == g_want), "the pixel holds its colour"); vc_variant(W - x);
}
#endif
static ImageFilm* film()
{
    W = (int)vc_u32in("w", 1, 65535); Hh = (int)vc_u32in("h", 1, 65535); if(!vc_symbolic()) { W = W % 60 + 1; Hh = Hh % 60 + 1; }
    gx = (int)vc_u32in("gx", 0, 65535); gy = (int)vc_u32in("gy", 0, 65535); if(!vc_symbolic()) { gx %= W; gy %= Hh; } vc_assume(AND(gx < W, gy < Hh));
    g_init.cie_x = vc_f32in("ix", 0, 100); g_init.cie_y = vc_f32in("iy", 0, 100); g_init.cie_z = vc_f32in("iz", 0, 100); g_init.samples = vc_f32in("is", 0, 100); g_cur = g_init; g_direct = g_def = 0; g_locked = false;
    ImageFilm* f = (ImageFilm*)malloc(sizeof(ImageFilm)); *(int*)&f->width = W; *(int*)&f->height = Hh;
    T0 = (int)vc_u32in("startx", 0, 65535); T1 = (int)vc_u32in("endx", 0, 65536); T2 = (int)vc_u32in("starty", 0, 65535); T3 = (int)vc_u32in("endy", 0, 65536); if(!vc_symbolic()) { T0 %= W; T1 = T0 + 1 + T1 % (W - T0); T2 %= Hh; T3 = T2 + 1 + T3 % (Hh - T2); } vc_assume(ALL(T0 < T1, T1 <= W, T2 < T3, T3 <= Hh));
#ifdef VC_NATIVE
    new (&f->buffer) Array2D<Pixel>((uint32_t)(W > Hh ? W : Hh)); f->buffer.zero_out(); f->buffer.set(gx, gy, g_init); new (&f->mtx) std::mutex();
#endif
    return f;
}
static void done(ImageFilm* f)
{
#ifdef VC_NATIVE
    f->buffer.~Array2D<Pixel>();
#endif
    free(f);
}
static ExecutorData* area()
{
#ifdef VC_NATIVE
    ExecutorData* e = new ExecutorData();
#else
    ExecutorData* e = (ExecutorData*)malloc(sizeof(ExecutorData));
#endif
    e->startx = T0; e->endx = T1; e->starty = T2; e->endy = T3; return e;
}
HARNESS(film_add)
{
    ImageFilm* f = film(); ExecutorData* e = area(); float rx = vc_f32in("rx", 0.25f, 64), ry = vc_f32in("ry", 0.25f, 64); AnyFilter fl(rx, ry); f->filter = &fl;
    Sample s; s.posx = vc_f32in("sx", 0, 65536); s.posy = vc_f32in("sy", 0, 65536); if(!vc_symbolic()) { s.posx = fmodf(s.posx, W); s.posy = fmodf(s.posy, Hh); } g_cx = s.posx - 0.5f; g_cy = s.posy - 0.5f;
    float r = vc_f32in("r", -50, 50), g = vc_f32in("g", -50, 50), b = vc_f32in("b", -50, 50); g_r = r < 0 ? 0 : r; g_g = g < 0 ? 0 : g; g_b = b < 0 ? 0 : b; g_w = vc_f32("w"); if(!vc_symbolic()) g_w = fl.weight(gx - g_cx, gy - g_cy);
    // well-conditioned natively: no pixel centre on the border of the filter
    if(!vc_symbolic()) { float q = fabsf(gx - g_cx) - rx, p = fabsf(gy - g_cy) - ry; vc_nat(fabsf(q) > 1e-3f && fabsf(p) > 1e-3f); }
    f->ImageFilm::add_pixel(&s, ColorXYZ(r, g, b), e);
#ifdef VC_NATIVE
    g_cur = f->buffer.get(gx, gy); g_direct = !px(g_cur, g_init.cie_x, g_init.cie_y, g_init.cie_z, g_init.samples); while(!e->deferred.empty()) { TodoPixel t = e->deferred.top(); e->deferred.pop(); vc_check(t.x >= 0 && t.x < W && t.y >= 0 && t.y < Hh, "only pixels of the image are deferred"); vc_check(!(t.x >= T0 && t.x < T1 && t.y >= T2 && t.y < T3), "pixels of the own tile are updated at once"); if(t.x == gx && t.y == gy) { g_def++; g_todo = t; } }
#endif
    float dx = gx - g_cx, dy = gy - g_cy; bool in = ALL(dx <= rx, -dx <= rx, dy <= ry, -dy <= ry), o = ALL(gx >= T0, gx < T1, gy >= T2, gy < T3);
    float k = AND(in, o) ? g_w : 0.f;
    vc_check(g_def == (uint32_t)(AND(in, !o) ? 1 : 0), "exactly the covered pixels of other tiles are deferred, once"); if(vc_symbolic()) vc_check(g_direct == (uint32_t)(AND(in, o) ? 1 : 0), "exactly the covered pixels of the own tile are updated, once");
    vc_check(px(g_cur, g_init.cie_x + g_r * k, g_init.cie_y + g_g * k, g_init.cie_z + g_b * k, g_init.samples + k), "a pixel accumulates the weighted colour and the weight");
    if(AND(in, !o)) vc_check(ALL(vc_feqtol(g_todo.cie_x, g_r * g_w, TOL), vc_feqtol(g_todo.cie_y, g_g * g_w, TOL), vc_feqtol(g_todo.cie_z, g_b * g_w, TOL), vc_feqtol(g_todo.samples, g_w, TOL)), "a deferred pixel carries the weighted colour and the weight");
#ifdef VC_NATIVE
    delete e;
#else
    free(e);
#endif
    done(f);
}
HARNESS(film_defer)
{
    ImageFilm* f = film(); ExecutorData* e = area(); bool forced = vc_split(vc_bool("forced")); float tx = 0, ty = 0, tz = 0, ts = 0; bool go = true;
#ifndef VC_NATIVE
    g_try = vc_split(vc_bool("free")); st_n = vc_u32in("pending", 0, 1u << 24); st_top = st_n; st = (TodoPixel*)malloc(((size_t)st_n + 1) * sizeof(TodoPixel)); sum = (Sum*)malloc(((size_t)st_n + 2) * sizeof(Sum)); vc_assume(ALL(sum[0].x == 0, sum[0].y == 0, sum[0].z == 0, sum[0].s == 0)); tx = sum[st_n].x; ty = sum[st_n].y; tz = sum[st_n].z; ts = sum[st_n].s; go = OR(forced, g_try);
#else
    uint32_t n = vc_u32in("pending", 0, 20); for(uint32_t i = 0; i < n; i++) { TodoPixel t; bool h = vc_u32("here") & 1; t.x = h ? gx : (int)(vc_u32("tx") % W); t.y = h ? gy : (int)(vc_u32("ty") % Hh); t.cie_x = vc_f32in("vx", 0, 9); t.cie_y = vc_f32in("vy", 0, 9); t.cie_z = vc_f32in("vz", 0, 9); t.samples = vc_f32in("vs", 0, 9); e->deferred.push(t); if(t.x == gx && t.y == gy) { tx += t.cie_x; ty += t.cie_y; tz += t.cie_z; ts += t.samples; } }
#endif
    if(forced) f->ImageFilm::add_pixel_forced(e); else f->ImageFilm::add_pixel_deferred(e);
#ifdef VC_NATIVE
    g_cur = f->buffer.get(gx, gy); vc_check(e->deferred.empty(), "every deferred pixel has been added"); bool fr = f->mtx.try_lock(); if(fr) f->mtx.unlock(); vc_check(fr, "the lock is released"); delete e;
#else
    vc_check(IMPLIES(go, st_top == 0), "every deferred pixel has been added"); vc_check(IMPLIES(!go, st_top == st_n), "nothing is lost while the film is busy"); vc_check(AND(!g_locked, g_locks == g_unlocks), "the lock is released"); free(e);
#endif
    float k = go ? 1.f : 0.f; vc_check(px(g_cur, g_init.cie_x + k * tx, g_init.cie_y + k * ty, g_init.cie_z + k * tz, g_init.samples + k * ts), "a pixel ends with the sum of what was deferred for it"); done(f);
}
HARNESS(film_save)
{
    ImageFilm* f = film(); g_writes = 0; g_wret = vc_bool("saved"); ColorRGB c; 
#ifndef VC_NATIVE
    vc_assume((uint64_t)W * Hh < (1ull << 31)); row = (Row*)malloc(((uint64_t)Hh + 2) * sizeof(Row)); rows(0); rows(gy); g_at = (int64_t)row[gy].v + gx; float x = vc_f32("r"), y = vc_f32("g"), z = vc_f32("b"); g_rgb = ColorRGB(x, y, z); c = g_rgb; T0 = 0; T1 = W; T2 = 0; T3 = Hh;
#else
    g_at = (int64_t)gy * W + gx; new (&f->output) File("./never-written.ppm"); c = g_init.samples > 0 ? ColorXYZ(g_init.cie_x / g_init.samples, g_init.cie_y / g_init.samples, g_init.cie_z / g_init.samples).to_sRGB() : ColorRGB(0.f, 0.f, 0.f);
#endif
    if(!(g_init.samples > 0)) c = ColorRGB(0.f, 0.f, 0.f);
    float q[3] = {c.r, c.g, c.b}; uint32_t want = 0xFF; for(int k = 0; k < 3; k++) { float v = q[k] < 0 ? 0 : q[k]; v = v * 255.f; if(v > 255.f) v = 255.f; want |= (uint32_t)v << (8 * (k + 1)); }
#ifndef VC_NATIVE
    g_want = want;
#endif
    bool r = f->save_image(); vc_check(AND(r == g_wret, g_writes == 1), "the image is written once and the outcome is reported"); vc_check(AND(g_ow == W, g_oh == Hh), "the image has the size of the film");
    bool near = g_pix == want; if(!vc_symbolic()) { near = (g_pix & 0xFF) == 0xFF; for(int k = 1; k < 4; k++) { int a = (g_pix >> (8 * k)) & 0xFF, b = (want >> (8 * k)) & 0xFF; near = near && a - b <= 1 && b - a <= 1; } }
    vc_check(near, "every pixel is the clamped sRGB colour of its weighted mean, opaque, and black where nothing was added");
#ifdef VC_NATIVE
    f->output.~File();
#endif
    done(f);
}
