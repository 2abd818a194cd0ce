// C15: unique-location filtering keeps exactly one point per location
#include "geom.h"
#include "cli.h"
#include "spoc/subsampling.h"
#include "filter.h"
using namespace geom;
namespace ss = spoc::subsampling;

// Locations where several are equal, or almost equal
static Ps gen_locations (pbt::Source &s, uint64_t n)
{
    const unsigned kind = s.draw (5);
    s.label ("kind " + std::to_string (kind));
    auto b = s.sub ();
    Ps v (n);
    static const double near[] = { 0.0, -0.0, 1, std::nextafter (1.0, 2.0), std::nextafter (1.0, 0.0), 5e-324, -5e-324, 4200000.125, std::nextafter (4200000.125, 1e9) };
    for (auto &p : v)
        switch (kind)
        {
            case 0: p = mk (double (b.below (3)), double (b.below (3)), double (b.below (3))); break;
            case 1: p = mk (near[b.below (9)], near[b.below (4)], near[b.below (3)]); break;
            case 2: p = mk (finite_double (b), finite_double (b), finite_double (b)); break;
            case 3: { const double d = double (b.below (4)); p = mk (b.chance (1, 2) ? d : -d, d * (b.chance (1, 2) ? 1 : -1), b.chance (1, 3) ? d : 0.0); break; } // permutations and signs
            default: p = mk (coord (b), coord (b), coord (b));
        }
    for (size_t k = 1; k < n; ++k)
        if (b.chance (1, 3))
        {
            v[k] = v[b.below (k)];
            if (b.chance (1, 4)) std::swap (v[k].x, v[k].y);
            if (b.chance (1, 6)) std::swap (v[k].z, v[k].y);
            for (int a = 0; a < 3; ++a) if (ax (v[k], a) == 0 && b.chance (1, 2)) ax (v[k], a) = -ax (v[k], a);
        }
    return v;
}
struct less_num
{
    bool operator() (const P &a, const P &b) const { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.z < b.z; }
};
static size_t check_selection (const std::vector<size_t> &g, const Ps &v, uint64_t seed, const std::string &what)
{
    std::map<P, size_t, less_num> first;
    for (size_t k = 0; k < v.size (); ++k) first.insert ({ v[k], k });
    std::set<P, less_num> seen;
    for (size_t k = 0; k < g.size (); ++k)
    {
        CHECK_MSG (g[k] < v.size (), what << ": index " << g[k] << " of " << v.size ());
        CHECK_MSG (seen.insert (v[g[k]]).second, what << ": the location " << str (v[g[k]]) << " is kept twice");
        if (seed == 0)
        {
            CHECK_MSG (first[v[g[k]]] == g[k], what << ": point " << g[k] << " was kept, but point " << first[v[g[k]]] << " is the first at " << str (v[g[k]]));
            CHECK_MSG (k == 0 || g[k - 1] < g[k], what << ": index " << g[k] << " follows " << g[k - 1]);
        }
    }
    CHECK_MSG (g.size () == first.size (), what << ": " << g.size () << " points kept of " << first.size () << " locations");
    return first.size ();
}

PROP (library, 150000, "at least two locations, one of them occurring more than once")
{
    const uint64_t n = s.chance (1, 30) ? 0 : s.rare (4) ? s.range (70000, 140000) : s.range (1, s.chance (1, 80) ? 4000 : 3 + s.size ());
    const Ps v = gen_locations (s, n);
    const uint64_t seed = s.coin () ? 0 : s.coin () ? s.range (1, 5) : s.u64 () >> s.draw (40);
    NOTE (s, n << " points, e.g. " << (n ? str (v.back ()) : "none") << ", seed " << seed);
    const auto g = ss::get_unique_xyz_indexes (v, seed);
    const size_t d = check_selection (g, v, seed, "unique points");
    if (d >= 2 && d < n) s.nontrivial ();
    CHECK_MSG (ss::get_unique_xyz_indexes (v, seed) == g, "a second call with the same seed selects other points");
    cloud c;
    c.compressed = s.coin ();
    c.wkt = "W";
    c.r = records_at (s, v, s.draw (3));
    CHECK (ss::get_unique_xyz_indexes (to_prs (c.r), seed) == g);
    const auto f = spoc::filter_app::unique_xyz (to_file (c), seed);
    cloud w = c;
    w.r.clear ();
    for (auto i : g) w.r.push_back (c.r[i]);
    check_same (from_file (f), w, "unique file");
    check_same (from_file (spoc::filter_app::unique_xyz (f, 0)), w, "unique file, filtered again");
    // again in any order: the same records
    auto again = from_file (spoc::filter_app::unique_xyz (f, seed + 1)).r, first = w.r;
    auto by_id = [] (const rec &a, const rec &b) { return a.p < b.p; };
    std::sort (again.begin (), again.end (), by_id);
    std::sort (first.begin (), first.end (), by_id);
    check_same_records (again, first, "unique file, filtered again in another order");
}

// Seeds other than 0 choose at random: no point is always passed over
PROP (choices, 2000, "every case: several points in one location, 400 seeds")
{
    auto b = s.sub ();
    const P o = mk (double (b.below (1000)), -double (b.below (1000)), double (b.below (100)));
    const size_t m = s.range (2, 8);
    Ps v;
    std::vector<size_t> in;
    while (in.size () < m)
    {
        const P p = b.chance (1, 2) ? o : mk (o.x + 2 + double (b.below (5)), o.y, o.z);
        if (p.x < o.x + 1) in.push_back (v.size ());
        v.push_back (p);
    }
    NOTE (s, v.size () << " points, " << m << " of them in one location");
    s.nontrivial ();
    std::set<size_t> seen;
    for (unsigned k = 0; k < 400; ++k)
    {
        const uint64_t seed = 1 + b.below (2147483646);
        for (auto i : ss::get_unique_xyz_indexes (v, seed)) seen.insert (i);
    }
    for (auto i : in) CHECK_MSG (seen.count (i), "point " << i << ", one of " << m << " in its location, is not selected with any of 400 seeds");
}

PROP (tool, 4000, "at least two locations, one of them occurring more than once")
{
    const uint64_t n = s.range (1, 3 + s.size ());
    const Ps v = gen_locations (s, n);
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (3));
    const uint64_t seed = s.coin () ? 0 : s.range (1, 1000000);
    std::vector<std::string> a { "spoc_filter", s.coin () ? "--unique-xyz" : "-u" };
    if (seed || s.coin ()) a.push_back ((s.coin () ? "--random-seed=" : "-a") + std::to_string (seed));
    if (s.coin ()) std::swap (a[1], a.back ());
    NOTE (s, n << " points: " << cli::shell_text (a));
    const auto in = encode (c);
    const auto out = cli::run_cloud (a, in);
    CHECK (out.wkt == c.wkt && out.compressed == c.compressed);
    std::vector<size_t> g;
    for (const auto &r : out.r)
    {
        CHECK_MSG (r.p < n && same (r, c.r[r.p]), "an output record is not an input record: " << r);
        g.push_back (r.p);
    }
    const size_t d = check_selection (g, v, seed, "spoc_filter --unique-xyz");
    if (d >= 2 && d < n) s.nontrivial ();
    if (s.chance (1, 4)) check_same (cli::run_cloud (a, in), out, "a second run");
    if (s.chance (1, 4)) check_same (cli::run_cloud ({ "spoc_filter", "-u" }, encode (out)), out, "filtering the output again");
}
PBT_MAIN
