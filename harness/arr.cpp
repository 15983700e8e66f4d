#include "vc.h"
#include "utility/array2D.hpp"
#include <cstring>
/* every square size up to 32768 per side (larger ones overflow the int offset of the code) */
static uint32_t vside()
{
    uint32_t k = vc_pick("log", 11); uint32_t s = vc_u32("side");   // rounded side 2^(k+5) (or one block)
    if(k == 0) vc_assume(s <= 32); else vc_assume(AND(s > (16u << k), s <= (32u << k)));
    if(!vc_symbolic()) vc_assume(s <= 600 || vc_replaying());
    return s;
}
struct XY { uint32_t x, y; };
static XY vxy(uint32_t side, const char* a, const char* b) { XY r = {vc_u32(a), vc_u32(b)}; vc_assume(AND(r.x < side, r.y < side)); return r; }
HARNESS(arr_getset)
{
    uint32_t side = vside(); vc_assume(side > 0);
    Array2D<float> a(side);
    XY p = vxy(side, "x", "y"), q = vxy(side, "x2", "y2"); float v = vc_f32("v"), w = vc_f32("w");
    a.set(q.x, q.y, w); a.set(p.x, p.y, v);
    vc_check(a.get(p.x, p.y) == v, "reading a cell returns the value last written to it");
    vc_check(IMPLIES(OR(p.x != q.x, p.y != q.y), a.get(q.x, q.y) == w), "writing a cell leaves every other cell unchanged");
    Array2D<float> b(a);
    vc_check(b.get(p.x, p.y) == v, "a copy has the same contents");
    float u = vc_f32("u"); b.set(p.x, p.y, u); vc_check(a.get(p.x, p.y) == v, "writing to a copy leaves the original unchanged");
    a.zero_out(); vc_check(AND(a.get(p.x, p.y) == 0, a.get(q.x, q.y) == 0), "clearing sets every cell to zero");
    vc_check(b.get(p.x, p.y) == u, "clearing the original leaves the copy unchanged");
}
HARNESS(arr_assign)
{
    uint32_t side = vside(); vc_assume(side > 0); uint32_t side2 = vc_pick("other", 2) ? 32 : 64;
    Array2D<uint32_t> a(side), b(side2);
    XY p = vxy(side, "x", "y"); uint32_t v = vc_u32("v"), u = vc_u32("u"); a.set(p.x, p.y, v);
    if(vc_pick("self", 2)) { Array2D<uint32_t>& r = a; a = r; vc_check(a.get(p.x, p.y) == v, "self-assignment keeps the contents"); }
    else { b = a; vc_check(b.get(p.x, p.y) == v, "assignment copies the contents"); b.set(p.x, p.y, u); vc_check(a.get(p.x, p.y) == v, "assigned array is independent of its source"); }
}
