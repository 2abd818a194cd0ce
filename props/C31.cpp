// C31: tiling partitions the points into axis-aligned tiles
#include "tilejob.h"
#include "tile.h"
using namespace geom;
using namespace tiles;
namespace ta = spoc::tile_app;

static std::vector<size_t> indexes (const Ps &v, double tx, double ty) { return ta::get_tile_indexes (v, spoc::extent::get_extent (v), tx, ty); }

// A tile index for every point; two points share one exactly when they share a cell; row by row
static void check_indexes (const std::vector<size_t> &ix, const std::vector<cell> &c)
{
    CHECK_MSG (ix.size () == c.size (), ix.size () << " tile indexes for " << c.size () << " points");
    std::map<cell, size_t> of;
    for (size_t k = 0; k < c.size (); ++k)
    {
        const auto it = of.emplace (c[k], ix[k]);
        CHECK_MSG (it.first->second == ix[k], "point " << k << " has tile " << ix[k] << ", but another point in column " << c[k].x << ", row " << c[k].y << " has tile " << it.first->second);
    }
    const std::pair<const cell, size_t> *last = nullptr;
    for (const auto &q : of) // row by row, and by column in each row
    {
        CHECK_MSG (!last || last->second < q.second, "the tile in column " << q.first.x << ", row " << q.first.y << " has number " << q.second
            << ", but the one in column " << last->first.x << ", row " << last->first.y << " has number " << last->second);
        last = &q;
    }
    // the first cell is tile 0 and numbers in the first row are columns
    for (const auto &q : of) if (q.first.y == 0) CHECK_MSG (q.second == q.first.x, "column " << q.first.x << " of the first row has number " << q.second);
}
static void check_map (const std::vector<size_t> &ix)
{
    const auto m = ta::get_tile_map (ix);
    std::vector<char> seen (ix.size (), 0);
    for (const auto &t : m)
    {
        CHECK_MSG (!t.second.empty (), "tile " << t.first << " is empty");
        for (size_t k = 0; k < t.second.size (); ++k)
        {
            const size_t i = t.second[k];
            CHECK_MSG (i < ix.size () && !seen[i], "tile " << t.first << " lists point " << i << " of " << ix.size () << ", or it is listed twice");
            seen[i] = 1;
            CHECK_MSG (ix[i] == t.first, "point " << i << " of tile " << ix[i] << " is listed in tile " << t.first);
            CHECK_MSG (k == 0 || t.second[k - 1] < i, "the points of tile " << t.first << " are not in input order");
        }
    }
    CHECK_MSG (std::count (seen.begin (), seen.end (), 1) == int64_t (ix.size ()), "a point is in no tile");
}

PROP (sizes, 500000, "at least two tiles, one of them with several points")
{
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 60) ? 3000 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    double tx, ty;
    gen_sizes (s, sh, v, tx, ty);
    NOTE (s, n << " points, " << sh.name << ", tiles of " << tx << " x " << ty);
    std::vector<cell> c;
    if (!cells (v, tx, ty, c)) return s.discard ();
    const std::set<cell> occ (c.begin (), c.end ());
    if (occ.size () >= 2 && occ.size () < n) s.nontrivial ();
    s.label_if (tx <= 0 || ty <= 0, "one axis not divided");
    const auto ix = indexes (v, tx, ty);
    check_indexes (ix, c);
    check_map (ix);
    // records, in any order, have the same tiles
    auto b = s.sub ();
    const auto r = to_prs (records_at (s, v, s.draw (2)));
    const auto e = spoc::extent::get_extent (v);
    CHECK_MSG (ta::get_tile_indexes (r, e, tx, ty) == ix, "records have other tiles than their points");
    std::vector<size_t> o (n);
    for (size_t k = 0; k < n; ++k) o[k] = k;
    for (size_t k = n; k > 1; --k) std::swap (o[k - 1], o[b.below (k)]);
    Ps w;
    for (auto k : o) w.push_back (v[k]);
    const auto iw = indexes (w, tx, ty);
    for (size_t k = 0; k < n; ++k) CHECK_MSG (iw[k] == ix[o[k]], "the tile of " << str (w[k]) << " depends on the order of the points");
}

PROP (counts, 400000, "at least two tiles, one of them with several points")
{
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 60) ? 3000 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    const unsigned N = s.coin () ? s.range (1, 5) : s.range (1, 60);
    const P lo = geom::min_corner (v), hi = geom::max_corner (v);
    const double side = std::max (hi.x - lo.x, hi.y - lo.y);
    NOTE (s, n << " points, " << sh.name << ", " << hi.x - lo.x << " x " << hi.y - lo.y << ", " << N << " tiles");
    if (side > 1e7) return s.discard ();
    const auto e = spoc::extent::get_extent (v);
    const double ts = ta::get_tile_size (e, N);
    CHECK_MSG (ts >= side / N * (1 - 1e-15) && ts <= (side + 1e-6) / N * (1 + 1e-15), "the tile size for " << N << " tiles is " << ts << " but the longer side is " << side);
    std::vector<cell> c;
    if (!cells (v, ts, ts, c)) return s.discard ();
    size_t mx = 0, my = 0;
    for (const auto &q : c) { mx = std::max (mx, q.x); my = std::max (my, q.y); }
    CHECK_MSG (mx < N && my < N, "there are " << mx + 1 << " x " << my + 1 << " tiles, but " << N << " were asked for");
    if (side > 1e-4 * N) CHECK_MSG (std::max (mx, my) == N - 1, "the longer side has " << std::max (mx, my) + 1 << " tiles, but " << N << " were asked for");
    const std::set<cell> occ (c.begin (), c.end ());
    if (occ.size () >= 2 && occ.size () < n) s.nontrivial ();
    const auto ix = indexes (v, ts, ts);
    check_indexes (ix, c);
    check_map (ix);
    CHECK_MSG (std::set<size_t> (ix.begin (), ix.end ()).size () <= size_t (N) * N, "more than " << N << "^2 tiles");
}

// The files that spoc_tile writes are the tiles
PROP (program, 1200, "at least two tiles, one of them with several points")
{
    tilejob::job j;
    if (!tilejob::gen (s, j, false)) return s.discard ();
    const auto dir = cli::fresh_dir ("tiles");
    const auto r = tilejob::run (j, dir, {});
    CHECK_MSG (r.ok (), "spoc_tile failed: " << r.text ());
    std::vector<char> seen (j.c.r.size (), 0);
    for (const auto &f : cli::ls (dir))
    {
        const auto w = j.want.find (f);
        CHECK_MSG (w != j.want.end (), "'" << f << "' is no tile");
        for (const auto &q : decode_all (cli::get (dir + "/" + f), f).r)
        {
            CHECK_MSG (q.p < seen.size () && !seen[q.p]++, "record " << q.p << " of tile '" << f << "' is no point, or is in two tiles");
            CHECK_MSG (std::any_of (w->second.r.begin (), w->second.r.end (), [&] (const rec &o) { return o.p == q.p; }), "point " << q.p << " at " << str (mk (q.x, q.y, q.z)) << " is in tile '" << f << "'");
        }
    }
    for (size_t k = 0; k < seen.size (); ++k) CHECK_MSG (seen[k], "point " << k << " is in no tile");
}
PBT_MAIN
