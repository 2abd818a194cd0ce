// C30: upsampling assigns classifications voxel by voxel
#include "geom.h"
#include "cli.h"
#include "tool.h"
using namespace geom;
namespace ta = spoc::tool_app;

struct setup
{
    cloud lo, hi;
    double res;
    std::vector<rec> want;
    size_t assigned = 0;
};
static setup gen (pbt::Source &s, uint64_t max)
{
    setup q;
    shape sh;
    const uint64_t n = s.range (1, max);
    const auto v = gen_points (s, n, sh);
    const P m = geom::min_corner (v), M = geom::max_corner (v);
    q.res = gen_res (s, sh, m, M);
    auto b = s.sub ();
    Ps w;
    for (uint64_t k = b.below (n + 3); k; --k)
    {
        P p = v[b.below (n)];
        if (b.chance (1, 2)) for (int a = 0; a < 3; ++a) ax (p, a) = std::min (ax (M, a), std::max (ax (m, a), ax (p, a) + (b.unit () - 0.5) * q.res));
        if (b.chance (1, 6)) p = mk (m.x + b.unit () * (M.x - m.x), m.y + b.unit () * (M.y - m.y), m.z + b.unit () * (M.z - m.z));
        for (int a = 0; a < 3; ++a) ax (p, a) = std::min (ax (M, a), std::max (ax (m, a), ax (p, a)));
        w.push_back (p);
    }
    q.hi.r = records_at (s, v, s.draw (3));
    q.lo.r = records_at (s, w, s.draw (3));
    q.hi.wkt = gen_text_wkt (s);
    q.lo.wkt = "L";
    q.hi.compressed = s.coin ();
    q.lo.compressed = s.coin ();
    std::map<vox, uint32_t> last;
    std::map<vox, size_t> count;
    for (const auto &r : q.lo.r) { const auto id = geom::voxel_of (mk (r.x, r.y, r.z), m, q.res); last[id] = r.c; ++count[id]; }
    q.want = q.hi.r;
    size_t hit = 0;
    for (auto &r : q.want)
    {
        const auto id = geom::voxel_of (mk (r.x, r.y, r.z), m, q.res);
        const auto it = last.find (id);
        if (it == last.end ()) continue;
        r.c = it->second;
        q.assigned += count[id];
        ++hit;
    }
    NOTE (s, n << " points, " << sh.name << " in " << str (m) << " to " << str (M) << "; " << w.size () << " low-resolution points, resolution " << q.res);
    if (hit && hit < n) s.nontrivial ();
    s.label_if (q.assigned > hit, "several low-resolution points in a voxel");
    return q;
}
// "<assigned> of <total> upsampled ..."
static void check_log (const std::string &log, const setup &q)
{
    const std::string w = std::to_string (q.assigned) + " of " + std::to_string (q.hi.r.size ()) + " ";
    bool found = false;
    std::istringstream i (log);
    std::string l;
    while (std::getline (i, l)) if (l.compare (0, w.size (), w) == 0) found = true;
    CHECK_MSG (found, "the log does not say that " << w << "were assigned: " << log);
}

PROP (library, 100000, "some but not all records are in a voxel with low-resolution records")
{
    const auto q = gen (s, s.rare (3) ? 12000 : 3 + s.size ());
    std::ostringstream log, quiet;
    auto w = q.hi;
    w.r = q.want;
    check_same (from_file (ta::upsample_classifications (to_file (q.lo), to_file (q.hi), q.res, true, log)), w, "upsample_classifications");
    check_log (log.str (), q);
    check_same (from_file (ta::upsample_classifications (to_file (q.lo), to_file (q.hi), q.res, false, quiet)), w, "upsample_classifications, quietly");
    CHECK_MSG (quiet.str ().empty (), "something was logged though verbose is off: " << quiet.str ());
}

PROP (own_subsample, 60000, "a voxel with records of different classes")
{
    // a subsample has the minimum corner's voxels: every record gets the class of its voxel's representative
    shape sh;
    cloud c;
    const auto v = gen_points (s, s.range (1, 3 + s.size ()), sh);
    const P m = geom::min_corner (v);
    const double res = gen_res (s, sh, m, geom::max_corner (v));
    const uint64_t seed = s.coin () ? 0 : s.range (1, 1000);
    c.r = records_at (s, v, 1);
    auto b = s.sub ();
    for (auto &r : c.r) r.c = b.below (5);
    NOTE (s, v.size () << " points, " << sh.name << ", resolution " << res << ", seed " << seed);
    const auto f = to_file (c);
    auto l = f.clone_empty ();
    l.set_point_records (spoc::subsampling::subsample_points (f.get_point_records (), res, seed));
    std::ostringstream log;
    const auto g = from_file (ta::upsample_classifications (l, f, res, true, log));
    std::map<vox, std::set<uint32_t>> before, after;
    CHECK (g.r.size () == c.r.size ());
    for (size_t k = 0; k < v.size (); ++k) { const auto id = geom::voxel_of (v[k], m, res); before[id].insert (c.r[k].c); after[id].insert (g.r[k].c); }
    std::map<vox, uint32_t> rep;
    for (const auto &p : l.get_point_records ()) rep[geom::voxel_of (mk (p.x, p.y, p.z), m, res)] = p.c;
    for (const auto &a : after)
    {
        CHECK_MSG (a.second.size () == 1, "a voxel has " << a.second.size () << " classes after upsampling");
        CHECK_MSG (rep.count (a.first) && *a.second.begin () == rep[a.first], "a voxel has class " << *a.second.begin () << " after upsampling, but its representative has " << rep[a.first]);
        if (before[a.first].size () > 1) s.nontrivial ();
    }
    const std::string w = std::to_string (v.size ()) + " of " + std::to_string (v.size ()) + " ";
    CHECK_MSG (log.str ().compare (0, w.size (), w) == 0, "not every record was assigned: " << log.str ());
}

PROP (tool, 2500, "some but not all records are in a voxel with low-resolution records")
{
    auto q = gen (s, 3 + s.size ());
    const auto hi = cli::path ("hi.spoc");
    cli::put (hi, encode (q.hi));
    char t[64];
    snprintf (t, sizeof t, "%.17g", q.res);
    std::vector<std::string> a { "spoc_tool", "--upsample-classifications=" + hi, "--resolution=" + std::string (t) };
    const bool v = s.coin ();
    if (v) a.push_back (s.coin () ? "-v" : "--verbose");
    if (s.coin ()) std::swap (a[1], a[2]);
    NOTE (s, " " << cli::shell_text (a));
    const auto r = cli::run (a, encode (q.lo));
    CHECK_MSG (r.ok (), cli::shell_text (a) << ": " << r.text ());
    auto w = q.hi;
    w.r = q.want;
    check_same (decode_all (r.out, "the output"), w, cli::shell_text (a));
    if (v) check_log (r.err, q);
    CHECK_MSG (cli::get (hi) == encode (q.hi), "the high-resolution file was changed");
}
PBT_MAIN
