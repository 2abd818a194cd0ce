// C14: subsampling keeps exactly one point per occupied voxel
#include "geom.h"
#include "cli.h"
#include "spoc/subsampling.h"
#include "filter.h"
using namespace geom;
namespace ss = spoc::subsampling;

// Check a selection; returns the number of voxels
static size_t check_selection (const std::vector<size_t> &g, const Ps &v, double res, uint64_t seed, const std::string &what)
{
    std::map<vox, std::vector<size_t>> cells;
    if (!v.empty ())
    {
        const P lo = geom::min_corner (v);
        for (size_t k = 0; k < v.size (); ++k) cells[geom::voxel_of (v[k], lo, res)].push_back (k);
        std::set<vox> seen;
        for (size_t k = 0; k < g.size (); ++k)
        {
            CHECK_MSG (g[k] < v.size (), what << ": index " << g[k] << " of " << v.size () << " points");
            const auto id = geom::voxel_of (v[g[k]], lo, res);
            CHECK_MSG (seen.insert (id).second, what << ": point " << g[k] << " shares its voxel with a point selected before");
            if (seed == 0)
            {
                CHECK_MSG (cells[id][0] == g[k], what << ": point " << g[k] << " was selected, but point " << cells[id][0] << " comes first in its voxel");
                CHECK_MSG (k == 0 || g[k - 1] < g[k], what << ": index " << g[k] << " follows " << g[k - 1]);
            }
        }
    }
    CHECK_MSG (g.size () == cells.size (), what << ": " << g.size () << " points selected, but " << cells.size () << " voxels are occupied");
    return cells.size ();
}

static uint64_t gen_seed (pbt::Source &s) { return s.coin () ? 0 : s.coin () ? s.range (1, 5) : s.u64 () >> s.draw (40); }

PROP (library, 120000, "at least two occupied voxels, one of them with several points")
{
    shape sh;
    const uint64_t n = s.chance (1, 30) ? 0 : s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 80) ? 4000 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    const double res = n ? gen_res (s, sh, geom::min_corner (v), geom::max_corner (v)) : 1;
    const uint64_t seed = gen_seed (s);
    NOTE (s, n << " points, " << sh.name << ", resolution " << res << ", seed " << seed);
    s.label_if (seed, "random order");
    const auto g = ss::get_subsample_indexes (v, res, seed);
    const size_t cells = check_selection (g, v, res, seed, "subsampling points");
    if (cells >= 2 && cells < n) s.nontrivial ();
    CHECK_MSG (ss::get_subsample_indexes (v, res, seed) == g, "a second call with the same seed selects other points");
    // records, as points and as a file
    const auto r = records_at (s, v, s.draw (3));
    const auto prs = to_prs (r);
    CHECK (ss::get_subsample_indexes (prs, res, seed) == g);
    std::vector<rec> want;
    for (auto i : g) want.push_back (r[i]);
    check_same_records (from_prs (ss::subsample_points (prs, res, seed)), want, "subsampled records");
    const auto sp = ss::subsample_points (v, res, seed);
    CHECK (sp.size () == g.size ());
    for (size_t k = 0; k < g.size (); ++k) CHECK_MSG (geom::same_bits (sp[k], v[g[k]]), "a subsampled point is " << str (sp[k]) << ", expected " << str (v[g[k]]));
    cloud c;
    c.wkt = "W"; c.compressed = s.coin (); c.r = r;
    const auto f = spoc::filter_app::subsample_file (to_file (c), res, seed);
    c.r = want;
    check_same (from_file (f), c, "subsampled file");
}

PROP (grids, 100000, "a regular grid of at least 4 points, in shuffled order")
{
    // spacing and corner with few bits, so that the grid is exact
    static const double sp[] = { 1, 0.5, 0.25, 2, 3, 5, 1024, 0.0078125, 0.375 };
    const double d = sp[s.draw (9)];
    const uint64_t nx = s.range (1, 8), ny = s.range (1, 8), nz = s.range (1, 4);
    auto b = s.sub ();
    const P o = mk (d * (int64_t (b.below (2000)) - 1000), 0.5 * (int64_t (b.below (2000)) - 1000), double (b.below (1 << 20)));
    Ps v;
    for (uint64_t i = 0; i < nx; ++i) for (uint64_t j = 0; j < ny; ++j) for (uint64_t k = 0; k < nz; ++k) v.push_back (mk (o.x + i * d, o.y + j * d, o.z + k * d));
    for (size_t k = v.size (); k > 1; --k) std::swap (v[k - 1], v[b.below (k)]);
    const uint64_t seed = gen_seed (s);
    NOTE (s, nx << "x" << ny << "x" << nz << " grid of spacing " << d << " at " << str (o) << ", seed " << seed);
    if (v.size () >= 4) s.nontrivial ();
    const auto g = ss::get_subsample_indexes (v, d, seed);
    CHECK_MSG (g.size () == v.size (), g.size () << " of " << v.size () << " grid points kept");
    check_selection (g, v, d, seed, "subsampling a grid");
    // twice the spacing: every 2x2x2 block has one
    const auto h = ss::get_subsample_indexes (v, 2 * d, seed);
    CHECK_MSG (h.size () == ((nx + 1) / 2) * ((ny + 1) / 2) * ((nz + 1) / 2), h.size () << " points kept at twice the spacing");
    // again: nothing changes when the corner stays, i.e. the first points of all rows are kept
    Ps w;
    for (auto i : g) w.push_back (v[i]);
    CHECK (ss::get_subsample_indexes (w, d, 0).size () == w.size ());
}

// Seeds other than 0 choose at random: no point is always passed over
PROP (choices, 2000, "every case: several points in one voxel, 400 seeds")
{
    auto b = s.sub ();
    const P o = mk (double (b.below (1000)), -double (b.below (1000)), double (b.below (100)));
    const size_t m = s.range (2, 8);
    Ps v;
    std::vector<size_t> in;
    v.push_back (o);
    in.push_back (0);
    while (in.size () < m)
    {
        const P p = b.chance (1, 2) ? mk (o.x + b.unit () * 0.9, o.y + b.unit () * 0.9, o.z + b.unit () * 0.9) : mk (o.x + 2 + double (b.below (5)), o.y, o.z);
        if (p.x < o.x + 1) in.push_back (v.size ());
        v.push_back (p);
    }
    NOTE (s, v.size () << " points, " << m << " of them in one voxel");
    s.nontrivial ();
    std::set<size_t> seen;
    for (unsigned k = 0; k < 400; ++k)
    {
        const uint64_t seed = 1 + b.below (2147483646);
        for (auto i : ss::get_subsample_indexes (v, 1, seed)) seen.insert (i);
    }
    for (auto i : in) CHECK_MSG (seen.count (i), "point " << i << ", one of " << m << " in its voxel, is not selected with any of 400 seeds");
}

PROP (tool, 4000, "at least two occupied voxels, one of them with several records")
{
    shape sh;
    const uint64_t n = s.range (1, 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (3));
    // the resolution as it appears on the command line
    const double res0 = gen_res (s, sh, geom::min_corner (v), geom::max_corner (v));
    char t[64];
    snprintf (t, sizeof t, s.coin () ? "%.17g" : "%.3g", res0);
    const double res = strtod (t, nullptr);
    const uint64_t seed = s.coin () ? 0 : s.range (1, 1000000);
    std::vector<std::string> a { "spoc_filter", s.coin () ? "--subsample=" + std::string (t) : "-s" + std::string (t) };
    if (seed || s.coin ()) a.push_back ((s.coin () ? "--random-seed=" : "-a") + std::to_string (seed));
    if (s.coin ()) std::swap (a[1], a.back ());
    NOTE (s, n << " points, " << sh.name << ": " << cli::shell_text (a));
    const auto in = encode (c);
    const auto out = cli::run_cloud (a, in);
    CHECK (out.wkt == c.wkt && out.compressed == c.compressed);
    // find the selection: the point IDs number the records
    std::vector<size_t> g;
    for (const auto &r : out.r)
    {
        CHECK_MSG (r.p < n && same (r, c.r[r.p]), "an output record is not an input record: " << r);
        g.push_back (r.p);
    }
    const size_t cells = check_selection (g, v, res, seed, "spoc_filter --subsample");
    if (cells >= 2 && cells < n) s.nontrivial ();
    if (s.chance (1, 4)) { const auto again = cli::run_cloud (a, in); check_same (again, out, "a second run"); }
}
PBT_MAIN
