// Tiles computed independently of spoc_tile
#pragma once
#include "geom.h"

namespace tiles
{
using namespace geom;
struct cell { size_t x, y; auto operator<=> (const cell &o) const { return y != o.y ? y <=> o.y : x <=> o.x; } bool operator== (const cell &) const = default; };

// Where an offset lies in steps of a size; false if rounding decides it, or it is too large to number
inline bool step (double v, double m, double size, size_t &out)
{
    if (!(size > 0)) { out = 0; return true; }
    const long double d = (long double) v - (long double) m;
    if ((long double) (v - m) != d) // the offset itself is rounded
    {
        const long double q = d / size;
        if (std::fabs (q - std::round (q)) < 1e-10L * std::max (1.0L, std::fabs (q))) return false;
    }
    const long double q = d / size;
    if (q > 2e9L) return false;
    const long double r = std::round (q);
    if (q != r && std::fabs (q - r) < 4e-15L * std::max (1.0L, q)) return false;
    out = size_t (q);
    return true;
}
// The cell of every point
inline bool cells (const Ps &v, double tx, double ty, std::vector<cell> &out)
{
    const P m = min_corner (v);
    out.clear ();
    for (const auto &p : v)
    {
        cell c;
        if (!step (p.x, m.x, tx, c.x) || !step (p.y, m.y, ty, c.y)) return false;
        out.push_back (c);
    }
    return true;
}
inline void gen_sizes (pbt::Source &s, const shape &sh, const Ps &v, double &tx, double &ty)
{
    const P lo = min_corner (v), hi = max_corner (v);
    tx = gen_res (s, sh, lo, hi);
    ty = s.chance (2, 3) ? tx : gen_res (s, sh, lo, hi);
    if (s.coin ()) // a few tiles
    {
        tx = (hi.x - lo.x) / double (s.range (1, 7)) * (0.7 + s.draw (7) / 10.0);
        ty = (hi.y - lo.y) / double (s.range (1, 7)) * (0.7 + s.draw (7) / 10.0);
        if (!(tx > 0)) tx = 1;
        if (!(ty > 0)) ty = 1;
    }
    const double floor_x = (hi.x - lo.x) / 1e9, floor_y = (hi.y - lo.y) / 1e9;
    if (tx < floor_x) tx = floor_x;
    if (ty < floor_y) ty = floor_y;
    if (s.chance (1, 10)) (s.coin () ? tx : ty) = s.coin () ? -1 : 0;
}
} // namespace tiles
