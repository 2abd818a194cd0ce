// C16: radius search finds exactly the neighbors within the radius
#include "geom.h"
#include <mutex>
#include "spoc/radius_search.h"
using namespace geom;
namespace rsx = spoc::radius_search;

struct query
{
    Ps v;
    shape sh;
    double radius;
    double tol;
    long near_ties = 0;
};
static query gen_query (pbt::Source &s)
{
    query q;
    const uint64_t n = s.chance (1, 40) ? 0 : s.range (1, s.chance (1, 60) ? 600 : 3 + s.size () / 2);
    q.v = gen_points (s, n, q.sh);
    static const double m[] = { 1, 1, 2, 0.5, 1.5, 3, 10, 0.01, 1e-7, 1e5 };
    q.radius = q.sh.unit * m[s.draw (10)];
    if (s.chance (1, 4)) q.radius = q.sh.unit * (0.1 + s.draw (1000) / 250.0);
    double scale = 0;
    for (const auto &p : q.v) for (int k = 0; k < 3; ++k) scale = std::max (scale, std::abs (ax (p, k)));
    if (scale / q.radius > 1e13) q.radius = scale / 1e13;
    // where rounding may decide either way; none for exact lattices
    const bool exact = q.sh.exact && q.radius >= q.sh.unit / 4 && q.radius * 1024 == std::floor (q.radius * 1024);
    q.tol = exact ? 0 : 1e-14 * q.radius + 1e-14 * scale;
    s.label_if (exact, "exact: ties count as neighbors");
    NOTE (s, n << " points, " << q.sh.name << ", radius " << q.radius << ", e.g. " << (n ? str (q.v.back ()) : "none"));
    return q;
}
// -1 no, 0 undecided, 1 yes
static int within (const query &q, const P &a, const P &b)
{
    const long double dx = (long double) a.x - b.x, dy = (long double) a.y - b.y, dz = (long double) a.z - b.z;
    const long double d = sqrtl (dx * dx + dy * dy + dz * dz);
    if (q.tol == 0) return d <= q.radius ? 1 : -1;
    // A distance is computed to a few units in the last place. Which voxel a point is in also depends on how far
    // it is from the corner of the grid, so that a neighbor may be missed within a rounding error of that.
    return d <= q.radius - q.tol ? 1 : d > q.radius * (1 + 1e-14L) ? -1 : 0;
}
struct collector
{
    std::mutex m;
    std::map<size_t, std::vector<std::vector<size_t>>> got;
    void operator() (size_t i, const std::vector<size_t> &v) { std::lock_guard<std::mutex> l (m); got[i].push_back (v); }
};
static void check_result (query &q, const collector &c, const std::vector<size_t> &pi, const std::vector<size_t> &ni, const std::string &what, pbt::Source &s)
{
    CHECK_MSG (c.got.size () == pi.size (), what << ": the operation was called for " << c.got.size () << " of " << pi.size () << " queries");
    bool some = false, other = false;
    for (size_t i = 0; i < pi.size (); ++i)
    {
        const auto it = c.got.find (i);
        CHECK_MSG (it != c.got.end () && it->second.size () == 1, what << ": the operation was called " << (it == c.got.end () ? 0 : it->second.size ()) << " times for query " << i);
        auto g = it->second[0];
        std::sort (g.begin (), g.end ());
        CHECK_MSG (std::adjacent_find (g.begin (), g.end ()) == g.end (), what << ": query " << i << " has a neighbor twice");
        CHECK_MSG (g.empty () || g.back () < ni.size (), what << ": query " << i << " has neighbor " << g.back () << " of " << ni.size ());
        for (size_t j = 0; j < ni.size (); ++j)
        {
            const bool has = std::binary_search (g.begin (), g.end (), j);
            const int w = within (q, q.v[pi[i]], q.v[ni[j]]);
            CHECK_MSG (!(has && w < 0), what << ": query " << str (q.v[pi[i]]) << " has " << str (q.v[ni[j]]) << " as a neighbor, which is farther than " << q.radius);
            CHECK_MSG (!(!has && w > 0), what << ": query " << str (q.v[pi[i]]) << " lacks the neighbor " << str (q.v[ni[j]]) << " within " << q.radius);
            if (pi[i] == ni[j]) CHECK_MSG (has, what << ": the point itself is missing");
            if (w > 0 && pi[i] != ni[j]) some = true;
            if (w < 0) other = true;
        }
    }
    if (some && other) s.nontrivial ();
}
static std::vector<size_t> iota (size_t n) { std::vector<size_t> v (n); for (size_t k = 0; k < n; ++k) v[k] = k; return v; }
// A subset in any order, with repetitions now and then
static std::vector<size_t> subset (pbt::Bulk &b, size_t n)
{
    std::vector<size_t> v;
    if (!n) return v;
    const auto kind = b.below (5);
    if (kind == 0) return iota (n);
    const size_t m = kind == 1 ? b.below (3) : b.below (n + 1);
    for (size_t k = 0; k < m; ++k) v.push_back (b.below (n));
    if (kind < 4) { std::sort (v.begin (), v.end ()); v.erase (std::unique (v.begin (), v.end ()), v.end ()); }
    return v;
}

PROP (search, 250000, "some query has a neighbor other than itself, and some candidate is too far away")
{
    auto q = gen_query (s);
    const size_t n = q.v.size ();
    auto b = s.sub ();
    const auto pi = subset (b, n), ni = subset (b, n);
    const auto all = iota (n);
    const size_t limit = s.coin () ? n : s.coin () ? size_t (-1) : n + s.draw (50);
    const auto prs = to_prs (records_at (s, q.v, 0));
    switch (s.draw (6))
    {
        case 0: { collector c; rsx::radius_search (q.v, pi, ni, q.radius, std::ref (c), std::max (limit, ni.size ())); check_result (q, c, pi, ni, "radius_search", s); s.label ("radius_search"); break; }
        case 1: { collector c; rsx::radius_search (prs, pi, ni, q.radius, std::ref (c), std::max (limit, ni.size ())); check_result (q, c, pi, ni, "radius_search over records", s); s.label ("radius_search over records"); break; }
        case 2: { collector c; rsx::radius_search_indexes (q.v, pi, q.radius, std::ref (c), std::max (limit, pi.size ())); check_result (q, c, pi, pi, "radius_search_indexes", s); s.label ("radius_search_indexes"); break; }
        case 3: { collector c; rsx::radius_search_all_neighbors (q.v, pi, q.radius, std::ref (c), limit); check_result (q, c, pi, all, "radius_search_all_neighbors", s); s.label ("radius_search_all_neighbors"); break; }
        case 4: { collector c; rsx::radius_search_all (q.v, q.radius, std::ref (c), limit); check_result (q, c, all, all, "radius_search_all", s); s.label ("radius_search_all"); break; }
        default:
        {
            // the default limit is 32
            const auto g = rsx::radius_search_get_neighbors (q.v, q.radius);
            CHECK (g.size () == n);
            if (n <= 32)
            {
                collector c;
                for (size_t i = 0; i < n; ++i) c (i, g[i]);
                check_result (q, c, all, all, "radius_search_get_neighbors", s);
                s.label ("radius_search_get_neighbors");
            }
            collector c;
            rsx::radius_search_all (prs, q.radius, std::ref (c), limit);
            check_result (q, c, all, all, "radius_search_all over records", s);
        }
    }
}

// Two points at a chosen distance in a cloud far from the origin, at every alignment to the voxel grid
PROP (pairs, 200000, "a pair whose distance is within 1% of the radius")
{
    auto b = s.sub ();
    query q;
    q.radius = std::pow (10.0, s.coin () ? double (s.draw (9)) - 4 : double (s.draw (31)) - 15) * (1 + b.unit ());
    const double off = s.pick ({ 0.0, 1.0, -1e3, 1e6 }) * q.radius;
    const P o = mk (off + b.unit () * q.radius * 10, -off + b.unit () * q.radius * 10, b.unit () * q.radius * 10);
    // Close to the radius, down to almost the precision of the coordinates
    const unsigned near = s.draw (16);
    const double f = near == 0 ? b.unit () * 2 : 1 + std::pow (10.0, -2.0 - (near < 8 ? 0 : near - 8) * 1.5) * (2 * b.unit () - 1);
    double u = b.unit () * 2 - 1, t = b.unit () * 2 * M_PI, w = std::sqrt (1 - u * u);
    if (s.chance (1, 3)) { u = b.chance (1, 2) ? 1 : -1; w = 0; }
    const P d = mk (q.radius * f * w * cos (t), q.radius * f * w * sin (t), q.radius * f * u);
    q.v = { o, o + d };
    if (s.coin ()) { q.v.push_back (mk (o.x - q.radius * b.unit () * 100, o.y - q.radius * b.unit () * 100, o.z - q.radius * b.unit () * 100)); s.label ("grid shifted"); }
    q.tol = 1e-14 * q.radius + 1e-14 * std::max ({ std::abs (o.x), std::abs (o.y), std::abs (o.z), q.radius * 100 });
    NOTE (s, str (o) << " and " << str (q.v[1]) << ", radius " << q.radius << ", distance/radius " << f);
    if (std::abs (f - 1) < 0.01) s.nontrivial ();
    const bool nt = s.nontrivial_;
    collector c;
    rsx::radius_search_all (q.v, q.radius, std::ref (c), 100);
    const auto all = iota (q.v.size ());
    check_result (q, c, all, all, "radius_search_all", s);
    s.nontrivial_ = nt;
}

// Many candidates per query: thousands of points within a few radii
PROP (crowded, 250, "some query has more than 500 neighbors")
{
    auto b = s.sub ();
    query q;
    const size_t n = s.chance (1, 12) ? s.range (66000, 140000) : s.range (500, s.chance (1, 8) ? 20000 : 3000);
    q.radius = std::pow (10.0, double (s.draw (7)) - 3);
    const P o = mk (s.pick ({ 0.0, 1e3, -1e5 }) * q.radius, s.pick ({ 0.0, -1e3, 1e5 }) * q.radius, 0);
    const double spread = s.pick ({ 0.5, 1.0, 2.0, 5.0 });
    const bool flat = s.coin ();
    for (size_t k = 0; k < n; ++k) q.v.push_back (o + mk (b.unit () * spread * q.radius, b.unit () * spread * q.radius, flat ? 0 : b.unit () * spread * q.radius));
    double scale = 0;
    for (const auto &p : q.v) for (int k = 0; k < 3; ++k) scale = std::max (scale, std::abs (ax (p, k)));
    q.tol = 1e-14 * q.radius + 1e-14 * scale;
    NOTE (s, n << " points within " << spread << " radii of " << q.radius);
    std::vector<size_t> pi;
    for (unsigned k = 0; k < 5; ++k) pi.push_back (b.below (n));
    std::sort (pi.begin (), pi.end ());
    pi.erase (std::unique (pi.begin (), pi.end ()), pi.end ());
    const auto all = iota (n);
    const size_t limit = s.coin () ? n : size_t (-1);
    const unsigned how = s.draw (n > 3000 ? 2 : 4);
    collector c;
    switch (how)
    {
        case 0: rsx::radius_search_all_neighbors (q.v, pi, q.radius, std::ref (c), limit); break;
        case 1: rsx::radius_search (q.v, pi, all, q.radius, std::ref (c), limit); break;
        case 2: rsx::radius_search_indexes (q.v, all, q.radius, std::ref (c), limit); break;
        default: rsx::radius_search_all (q.v, q.radius, std::ref (c), limit);
    }
    const bool many = !c.got.empty () && std::any_of (c.got.begin (), c.got.end (), [] (const auto &g) { return !g.second.empty () && g.second[0].size () > 500; });
    check_result (q, c, how < 2 ? pi : all, all, how == 0 ? "radius_search_all_neighbors" : how == 1 ? "radius_search" : how == 2 ? "radius_search_indexes" : "radius_search_all", s);
    s.nontrivial_ = false;
    if (many) s.nontrivial ();
}

// Clouds of many points, where every neighbor is known beforehand
PROP (many_points, 40, "more than 65536 points")
{
    const size_t n = s.range (1000, s.chance (1, 2) ? 200000 : 20000);
    const auto l = gen_line (s, n);
    NOTE (s, n << " points along a line from " << str (l.v[l.who[0]]) << " to " << str (l.v[l.who[n - 1]]) << ", radius 1.5");
    if (n > 65536) s.nontrivial ();
    auto b = s.sub ();
    const unsigned how = s.draw (5);
    std::vector<size_t> pi = iota (n), ni = iota (n);
    // a subset: most of them, some or a few
    auto thin = [&] (std::vector<size_t> &x) { const unsigned of = b.chance (1, 3) ? 1000 : b.chance (1, 2) ? 10 : 0; std::vector<size_t> y; for (auto i : x) if (of ? b.chance (1, of) : b.chance (2, 3)) y.push_back (i); x = y; };
    if (how == 1 || how == 3) thin (pi);
    if (how == 3) thin (ni);
    std::vector<std::vector<size_t>> got (pi.size ());
    auto op = [&] (size_t i, const std::vector<size_t> &x) { if (i < got.size ()) got[i] = x; };
    switch (how)
    {
        case 0: got = rsx::radius_search_get_neighbors (l.v, 1.5); break;
        case 1: rsx::radius_search_all_neighbors (l.v, pi, 1.5, op, 8); break;
        case 2: rsx::radius_search_all (l.v, 1.5, op, 8); break;
        case 3: rsx::radius_search (l.v, pi, ni, 1.5, op, 8); break;
        default: thin (pi); ni = pi; got.assign (pi.size (), {}); rsx::radius_search_indexes (l.v, pi, 1.5, op, 8);
    }
    CHECK (got.size () == pi.size ());
    // position in the list of neighbors, if there
    std::vector<size_t> in (n, size_t (-1));
    for (size_t k = 0; k < ni.size (); ++k) in[ni[k]] = k;
    for (size_t q = 0; q < pi.size (); ++q)
    {
        const size_t a = l.at[pi[q]];
        std::vector<size_t> want;
        for (size_t t = a ? a - 1 : 0; t <= a + 1 && t < n; ++t) if (in[l.who[t]] != size_t (-1)) want.push_back (in[l.who[t]]);
        std::sort (want.begin (), want.end ());
        auto g = got[q];
        std::sort (g.begin (), g.end ());
        CHECK_MSG (g == want, "query " << q << " of " << pi.size () << " has " << g.size () << " neighbors (first " << (g.empty () ? size_t (0) : g[0]) << "), expected " << want.size () << " (first " << (want.empty () ? size_t (0) : want[0]) << ")");
    }
}
PBT_MAIN
