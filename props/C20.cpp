// C20: centers are means, and cropping keeps exactly the points inside
#include "geom.h"
#include "spoc/extent.h"
#include "spoc/utils.h"
using namespace geom;
namespace ut = spoc::utils;

PROP (center, 150000, "at least two different locations")
{
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 60) ? 5000 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    const P lo = geom::min_corner (v), hi = geom::max_corner (v);
    NOTE (s, n << " points, " << sh.name << " in " << str (lo) << " to " << str (hi));
    if (!(lo == hi)) s.nontrivial ();
    const P c = ut::get_center (v);
    const auto cr = ut::get_center (to_prs (records_at (s, v, 1)));
    for (int k = 0; k < 3; ++k)
    {
        long double sum = 0, abs = 0;
        for (const auto &p : v) { sum += ax (p, k); abs += std::abs (ax (p, k)); }
        const double want = double (sum / n), tol = 2.3e-16 * (double (n) + 4) * double (abs / n);
        CHECK_MSG (std::abs (ax (c, k) - want) <= tol, "center is " << str (c) << ", axis " << k << " should be " << want);
        CHECK_MSG (ax (c, k) >= ax (lo, k) - tol && ax (c, k) <= ax (hi, k) + tol, "center " << str (c) << " lies outside the extent");
        const double r = k == 0 ? cr.x : k == 1 ? cr.y : cr.z;
        CHECK_MSG (std::abs (r - want) <= tol, "center of records, axis " << k << ", is " << r << ", should be " << want);
    }
}

PROP (crop, 200000, "some points are kept, some are not, and one is on the boundary")
{
    shape sh;
    const uint64_t n = s.rare (40) ? s.range (66000, 140000) : s.range (0, s.chance (1, 60) ? 3000 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    auto b = s.sub ();
    spoc::extent::extent e;
    const unsigned mode = n > 65536 && s.coin () ? 5 : s.draw (6);
    P lo, hi;
    if (n) { lo = geom::min_corner (v); hi = geom::max_corner (v); }
    for (int k = 0; k < 3; ++k)
    {
        double x = ax (lo, k) + (b.unit () * 1.4 - 0.2) * (ax (hi, k) - ax (lo, k)), y = ax (lo, k) + (b.unit () * 1.4 - 0.2) * (ax (hi, k) - ax (lo, k));
        if (n && mode >= 1) { if (b.chance (2, 3)) x = ax (v[b.below (n)], k); if (b.chance (2, 3)) y = ax (v[b.below (n)], k); }  // faces through points
        if (mode == 2 && b.chance (1, 3)) y = x;                     // flat
        if (mode != 3 && x > y) std::swap (x, y);                     // 3: possibly inverted
        if (mode == 4 && b.chance (1, 2)) { x = -1e300; y = 1e300; }
        ax (e.minp, k) = x;
        ax (e.maxp, k) = y;
    }
    if (n && mode == 5)
    {
        // the extent of all but the last or the first points
        uint64_t m = s.coin () ? 1 + b.below (n) : n - std::min<uint64_t> (n - 1, b.below (3));
        if (n > 65536 && s.coin ()) m = 65536;
        const Ps w = s.coin () ? Ps (v.begin (), v.begin () + m) : Ps (v.end () - m, v.end ());
        e.minp = geom::min_corner (w);
        e.maxp = geom::max_corner (w);
    }
    NOTE (s, n << " points, " << sh.name << ", cropped to " << str (e.minp) << " to " << str (e.maxp));
    s.label ("extent " + std::to_string (mode));
    const auto r = records_at (s, v, s.draw (3));
    std::vector<rec> want;
    bool on = false;
    for (size_t k = 0; k < n; ++k)
    {
        bool in = true, edge = false;
        for (int a = 0; a < 3; ++a)
        {
            if (!(ax (v[k], a) >= ax (e.minp, a) && ax (v[k], a) <= ax (e.maxp, a))) in = false;
            if (ax (v[k], a) == ax (e.minp, a) || ax (v[k], a) == ax (e.maxp, a)) edge = true;
        }
        if (in) want.push_back (r[k]);
        if (in && edge) on = true;
    }
    if (on && want.size () < n) s.nontrivial ();
    const auto g = ut::crop (to_prs (r), e);
    check_same_records (from_prs (g), want, "cropped records");
    check_same_records (from_prs (ut::crop (g, e)), want, "records cropped twice");
    const auto p = ut::crop (v, e);
    CHECK_MSG (p.size () == want.size (), p.size () << " points kept, expected " << want.size ());
    for (size_t k = 0; k < p.size (); ++k) CHECK (geom::same_bits (p[k], mk (want[k].x, want[k].y, want[k].z)));
    if (n)
    {
        const auto all = ut::crop (to_prs (r), spoc::extent::get_extent (v));
        check_same_records (from_prs (all), r, "records cropped to their own extent");
        const spoc::extent::extent far { mk (hi.x + 1 + std::abs (hi.x), lo.y, lo.z), mk (hi.x + 2 + 2 * std::abs (hi.x), hi.y, hi.z) };
        CHECK (ut::crop (v, far).empty ());
    }
}
PBT_MAIN
