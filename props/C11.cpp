// C11: extents are the exact bounding boxes of points
#include "geom.h"
#include <array>
#include "spoc/extent.h"
using namespace geom;
namespace ex = spoc::extent;

static void check_ext (const ex::extent &e, const P &lo, const P &hi, const char *what)
{
    for (int k = 0; k < 3; ++k)
        CHECK_MSG (ax (e.minp, k) == ax (lo, k) && ax (e.maxp, k) == ax (hi, k),
            what << ": axis " << k << " is [" << ax (e.minp, k) << ", " << ax (e.maxp, k) << "], expected [" << ax (lo, k) << ", " << ax (hi, k) << "]");
}
static bool close (double a, double b) { return a == b || (std::isnan (a) && std::isnan (b)) || std::abs (a - b) <= 1e-14 * std::abs (b); }
static void check_measures (const ex::extent &e)
{
    const double dx = e.maxp.x - e.minp.x, dy = e.maxp.y - e.minp.y, dz = e.maxp.z - e.minp.z;
    CHECK_MSG (close (ex::get_area (e), dx * dy), "area " << ex::get_area (e) << ", expected " << dx * dy);
    const double v = dx * dy * dz, v2 = dx * (dy * dz), v3 = (dx * dz) * dy;
    const double got = ex::get_volume (e);
    const double tol = std::numeric_limits<double>::denorm_min () * 4;
    CHECK_MSG (close (got, v) || close (got, v2) || close (got, v3) || std::abs (got - v) <= tol, "volume " << got << ", expected " << v);
}

PROP (clouds, 500000, "at least two points, and the extreme coordinates do not all belong to one point")
{
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 50) ? 20000 : 3 + s.size ());
    Ps v = gen_points (s, n, sh);
    if (s.chance (1, 4))
    {
        auto b = s.sub ();
        for (auto &p : v) for (int k = 0; k < 3; ++k) if (b.chance (1, 3)) ax (p, k) = finite_double (b);
        s.label ("any finite doubles");
    }
    if (s.chance (1, 4)) { for (auto &p : v) p = mk (-std::abs (p.x) - 1, -std::abs (p.y) - 1, -std::abs (p.z) - 1); s.label ("all negative"); }
    const P lo = geom::min_corner (v), hi = geom::max_corner (v);
    NOTE (s, n << " points within " << str (lo) << " to " << str (hi));
    bool one = false;
    for (const auto &p : v) if (p.x == lo.x && p.y == lo.y && p.z == lo.z) one = true;
    if (!one) s.nontrivial ();
    const auto e = ex::get_extent (v);
    check_ext (e, lo, hi, "extent of points");
    for (const auto &p : v) CHECK_MSG (ex::all_less_equal (e.minp, p) && ex::all_less_equal (p, e.maxp), str (p) << " lies outside the extent");
    check_measures (e);
    // of records
    std::vector<rec> r (v.size ());
    for (size_t k = 0; k < v.size (); ++k) { r[k].x = v[k].x; r[k].y = v[k].y; r[k].z = v[k].z; }
    check_ext (ex::get_extent (to_prs (r)), lo, hi, "extent of records");
    // any order
    Ps w = v;
    auto b = s.sub ();
    for (size_t k = w.size (); k > 1; --k) std::swap (w[k - 1], w[b.below (k)]);
    check_ext (ex::get_extent (w), lo, hi, "extent of the points in another order");
    CHECK (ex::get_extent (w) == e);
    // any split
    const size_t cut = b.below (w.size () + 1);
    const Ps u1 (w.begin (), w.begin () + cut), u2 (w.begin () + cut, w.end ());
    if (!u1.empty () && !u2.empty ())
    {
        const auto a = ex::get_extent (u1), c = ex::get_extent (u2);
        check_ext (ex::get_total_extent (a, c), lo, hi, "total extent");
        check_ext (ex::get_total_extent (c, a), lo, hi, "total extent, the other way round");
        check_ext (ex::get_total_extent (e, a), lo, hi, "total extent with a part");
        check_measures (a);
        s.label ("split");
    }
}
PBT_MAIN
