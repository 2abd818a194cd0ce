// C13: voxel indexes are the integer part of (p - min) / resolution, and groupings partition
#include <array>
#include "geom.h"
#include <deque>
#include "spoc/voxel.h"
using namespace geom;
namespace vx = spoc::voxel;

static vox of (const vx::voxel_index &v) { return vox { v.i, v.j, v.k }; }
static std::string str (const vox &v) { return "(" + std::to_string (v[0]) + ", " + std::to_string (v[1]) + ", " + std::to_string (v[2]) + ")"; }

static void check_groups (const std::vector<vx::voxel_index> &ids)
{
    std::map<vox, std::vector<size_t>> want;
    for (size_t k = 0; k < ids.size (); ++k) want[of (ids[k])].push_back (k);
    const auto set = vx::get_voxel_index_set (ids);
    const auto map = vx::get_voxel_index_map (ids);
    CHECK_MSG (set.size () == want.size (), "the voxel set has " << set.size () << " entries for " << want.size () << " distinct indexes");
    CHECK_MSG (map.size () == want.size (), "the voxel map has " << map.size () << " entries for " << want.size () << " distinct indexes");
    for (const auto &w : want)
    {
        const vx::voxel_index v (w.first[0], w.first[1], w.first[2]);
        CHECK_MSG (set.count (v) == 1, "the voxel set lacks " << str (w.first));
        const auto it = map.find (v);
        CHECK_MSG (it != map.end (), "the voxel map lacks " << str (w.first));
        CHECK_MSG (it->second == w.second, "voxel " << str (w.first) << " has " << it->second.size () << " positions (first " << (it->second.empty () ? 0 : it->second[0]) << "), expected " << w.second.size () << " (first " << w.second[0] << ")");
    }
}

PROP (indexes, 200000, "at least two points in at least two voxels")
{
    shape sh;
    const uint64_t n = s.rare (8) ? s.range (70000, 140000) : s.range (1, s.chance (1, 60) ? 5000 : 3 + s.size ());
    Ps v = gen_points (s, n, sh);
    P lo = geom::min_corner (v), hi = geom::max_corner (v);
    const double res = gen_res (s, sh, lo, hi);
    auto b = s.sub ();
    NOTE (s, n << " points, " << sh.name << " in " << geom::str (lo) << " to " << geom::str (hi) << ", resolution " << res);
    // a corner at or below the points
    P m = lo;
    if (s.coin ()) { for (int k = 0; k < 3; ++k) if (b.chance (2, 3)) ax (m, k) -= sh.unit * (b.chance (1, 2) ? double (b.below (4)) : b.unit () * 10); s.label ("corner below the points"); }
    bool two = false, wide = false;
    const auto rs = to_prs (records_at (s, v, 1));
    const spoc::extent::extent e { m, hi };
    const auto a = vx::get_voxel_indexes (v, e, res);
    const auto ar = vx::get_voxel_indexes (rs, e, res);
    const auto own = vx::get_voxel_indexes (v, res);
    const auto ownr = vx::get_voxel_indexes (rs, res);
    CHECK (a.size () == n && ar.size () == n && own.size () == n && ownr.size () == n);
    for (size_t k = 0; k < n; ++k)
    {
        const vox w = geom::voxel_of (v[k], m, res), wo = geom::voxel_of (v[k], lo, res);
        if (of (a[k]) != of (a[0])) two = true;
        if (w[0] >> 32 || w[1] >> 32) wide = true;
        CHECK_MSG (of (a[k]) == w, "point " << geom::str (v[k]) << " with corner " << geom::str (m) << " and resolution " << res << " has index " << str (of (a[k])) << ", expected " << str (w));
        CHECK_MSG (of (ar[k]) == w, "record at " << geom::str (v[k]) << " has index " << str (of (ar[k])) << ", expected " << str (w));
        CHECK_MSG (of (own[k]) == wo, "point " << geom::str (v[k]) << " in its own extent has index " << str (of (own[k])) << ", expected " << str (wo));
        CHECK (of (ownr[k]) == wo);
        const auto one = vx::get_voxel_index (v[k], m, res);
        CHECK (of (one) == w);
        const auto oner = vx::get_voxel_index (rs[k], m, res);
        CHECK (of (oner) == w);
    }
    s.label_if (wide, "index beyond 32 bits");
    if (two) s.nontrivial ();
    // subsets, with repetitions and of several integer types
    std::vector<size_t> sub;
    const uint64_t ns = b.chance (1, 4) ? b.below (4) : b.chance (1, 4) ? b.below (n / 100 + 2) : b.chance (1, 6) ? n : b.below (n + 3);
    for (uint64_t k = 0; k < ns; ++k) sub.push_back (b.below (n));
    const auto c = vx::get_voxel_indexes (v, sub, res);
    const std::vector<int> subi (sub.begin (), sub.end ());
    const auto ci = vx::get_voxel_indexes (rs, subi, res);
    CHECK (c.size () == ns && ci.size () == ns);
    for (size_t k = 0; k < ns; ++k)
    {
        CHECK_MSG (of (c[k]) == geom::voxel_of (v[sub[k]], lo, res), "entry " << k << " of a subset has index " << str (of (c[k])) << ", expected " << str (geom::voxel_of (v[sub[k]], lo, res)));
        CHECK (of (ci[k]) == of (c[k]));
    }
    check_groups (a);
    check_groups (c);
}

PROP (groups, 600000, "at least two distinct indexes, some of them occurring more than once")
{
    auto b = s.sub ();
    const uint64_t n = s.range (0, 4 + s.size ());
    const unsigned mode = s.draw (4);
    std::vector<vx::voxel_index> v (n);
    std::set<vox> d;
    for (auto &x : v)
    {
        auto g = [&] () -> size_t {
            switch (mode)
            {
                case 0: return b.below (4);
                case 1: return b.below (3) << (16 * b.below (4));   // collide under shifts by 16
                case 2: return (b.chance (1, 2) ? 0 : size_t (1) << 32) + b.below (2);
                default: return b.chance (1, 2) ? b.next () : ~size_t (0) - b.below (2);
            }
        };
        x = vx::voxel_index (g (), g (), g ());
        if (mode == 3 && b.chance (1, 2)) x = v[b.below (n)];
        d.insert (of (x));
    }
    NOTE (s, n << " indexes, " << d.size () << " distinct, mode " << mode);
    if (d.size () >= 2 && d.size () < n) s.nontrivial ();
    s.label ("mode " + std::to_string (mode));
    check_groups (v);
    for (size_t k = 0; k + 1 < v.size () && k < 20; ++k)
    {
        CHECK ((v[k] == v[k + 1]) == (of (v[k]) == of (v[k + 1])));
        CHECK (v[k] == v[k]);
    }
    const vx::voxel_index z;
    CHECK (z.i == 0 && z.j == 0 && z.k == 0);
}
PBT_MAIN
