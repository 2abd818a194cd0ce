// C17: a neighbor limit yields min(limit, available) distinct true neighbors
#include "geom.h"
#include <mutex>
#include "spoc/radius_search.h"
using namespace geom;
namespace rsx = spoc::radius_search;
using result = std::vector<std::vector<size_t>>;

PROP (limits, 120000, "the limit is positive and cuts the neighbors of some query but not of every query")
{
    shape sh;
    const uint64_t n = s.range (1, s.chance (1, 60) ? 600 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    static const double m[] = { 1, 1.01, 2.01, 0.51, 1.51, 3, 10, 0.01 };
    double radius = sh.unit * m[s.draw (8)];
    double scale = 0;
    for (const auto &p : v) for (int k = 0; k < 3; ++k) scale = std::max (scale, std::abs (ax (p, k)));
    if (scale / radius > 1e13) radius = scale / 1e13;
    const double tol = 1e-14 * radius + 1e-14 * scale, above = radius * (1 + 1e-14);
    size_t limit = s.pick ({ 0, 1, 2, 3, 5, 8, 31, 32, 33, 100 });
    switch (s.draw (6))
    {
        case 0: limit = s.draw (n + 3); break;
        // as good as none, whatever the width of the type that holds it
        case 1: limit = s.pick ({ 255ul, 256ul, 257ul, 65535ul, 65536ul, 65537ul, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 1, 1ul << 63, ~0ul }); break;
    }
    auto b = s.sub ();
    std::vector<size_t> pi, ni;
    const bool subsets = s.coin ();
    for (size_t k = 0; k < n; ++k) { if (!subsets || b.chance (1, 2)) pi.push_back (k); if (!subsets || b.chance (2, 3)) ni.push_back (k); }
    NOTE (s, n << " points, " << sh.name << ", radius " << radius << ", limit " << limit << (subsets ? ", subsets" : ""));
    s.label (limit > 500 ? "limit above 500" : limit > 100 ? "limit above 100" : limit > 33 ? "limit above 33" : "limit " + std::to_string (limit));
    auto once = [&] (int how) {
        result g (pi.size ());
        std::vector<std::atomic<int>> calls (pi.size ());
        auto op = [&] (size_t i, const std::vector<size_t> &x) { if (i < g.size ()) { g[i] = x; ++calls[i]; } else abort (); };
        if (how == 0) rsx::radius_search (v, pi, ni, radius, op, limit);
        else if (how == 1) rsx::radius_search_all (v, radius, op, limit);
        else if (how == 2) rsx::radius_search_indexes (v, pi, radius, op, limit);
        else rsx::radius_search_all_neighbors (v, pi, radius, op, limit);
        for (auto &c : calls) CHECK_MSG (c == 1, "the operation was called " << c << " times for a query");
        return g;
    };
    int how = 0;
    if (!subsets) how = s.draw (4);
    const auto g = once (how);
    bool cut = false, whole = false;
    for (size_t i = 0; i < pi.size (); ++i)
    {
        size_t sure = 0, maybe = 0;
        auto dist = [&] (size_t j) { const long double x = (long double) v[pi[i]].x - v[j].x, y = (long double) v[pi[i]].y - v[j].y, z = (long double) v[pi[i]].z - v[j].z; return double (sqrtl (x * x + y * y + z * z)); };
        for (auto j : ni) { const double d = dist (j); sure += d <= radius - tol; maybe += d <= above; }
        const auto &x = g[i];
        CHECK_MSG (x.size () <= limit, "query " << i << " has " << x.size () << " neighbors with the limit " << limit);
        CHECK_MSG (x.size () >= std::min (limit, sure) && x.size () <= std::min (limit, maybe), "query " << i << " has " << x.size () << " neighbors, limit " << limit << ", " << sure << " points within the radius");
        std::set<size_t> u (x.begin (), x.end ());
        CHECK_MSG (u.size () == x.size (), "query " << i << " has a neighbor twice");
        for (auto j : x)
        {
            CHECK_MSG (j < ni.size (), "query " << i << " has neighbor " << j << " of " << ni.size ());
            CHECK_MSG (dist (ni[j]) <= above, "query " << i << " has a neighbor " << dist (ni[j]) << " away, radius " << radius);
        }
        if (limit < sure) cut = true; else whole = true;
    }
    if (limit && cut && whole) s.nontrivial ();
    CHECK_MSG (once (how) == g, "a second call gives other neighbors");
    // the convenience form has a limit of 32
    if (s.chance (1, 4))
    {
        const auto h = rsx::radius_search_get_neighbors (v, radius);
        CHECK (h.size () == n);
        for (size_t i = 0; i < n; ++i)
        {
            size_t sure = 0, maybe = 0;
            for (size_t j = 0; j < n; ++j) { const double d = spoc::point::distance (v[i], v[j]); sure += d <= radius - tol; maybe += d <= above; }
            CHECK_MSG (h[i].size () >= std::min<size_t> (32, sure) && h[i].size () <= std::min<size_t> (32, maybe), "radius_search_get_neighbors gives " << h[i].size () << " of " << sure << " neighbors");
        }
        s.label ("radius_search_get_neighbors");
    }
}

// Thousands of candidates in the surroundings of a query, of which all, some or hardly any are near enough
PROP (crowded, 200, "more than 1000 candidates within two radii, and the limit cuts the neighbors of some query or one has less than 1% of the candidates as neighbors")
{
    auto b = s.sub ();
    const size_t n = s.chance (1, 12) ? s.range (66000, 140000) : s.range (1000, s.chance (1, 6) ? 40000 : 6000);
    const double radius = std::pow (10.0, double (s.draw (7)) - 3);
    const P o = mk (s.pick ({ 0.0, 1e3, -1e5 }) * radius, s.pick ({ 0.0, -1e3, 1e5 }) * radius, 0);
    const size_t near = std::min<size_t> (n, s.pick<size_t> ({ 1, 2, 7, 40, 300, n / 2, std::min<size_t> (n, 65537), n }));
    Ps v;
    std::vector<size_t> pi, ni;
    const auto ball = [&] (double lo, double hi)
    {
        const double u = b.unit () * 2 - 1, t = b.unit () * 2 * M_PI, w = std::sqrt (1 - u * u), f = (lo + (hi - lo) * b.unit ()) * radius;
        return o + mk (f * w * std::cos (t), f * w * std::sin (t), f * u);
    };
    // those near are so for any two of them, the others for none of them
    for (size_t k = 0; k < n; ++k) v.push_back (k < near ? ball (0, 0.2) : ball (1.3, 1.75));
    for (size_t k = n; k > 1; --k) std::swap (v[k - 1], v[b.below (k)]);
    for (size_t k = 0; k < n; ++k) if (spoc::point::distance (v[k], o) < radius * 0.5) pi.push_back (k);
    if (pi.size () > 4) pi.resize (4);
    for (size_t k = 0; k < n; ++k) ni.push_back (k);
    const size_t limit = s.chance (1, 3) ? near + s.draw (3) - std::min<size_t> (near, 1) : s.pick<size_t> ({ 1, 2, 5, 32, 255, 256, 1000, 1ul << 40 });
    NOTE (s, n << " points, " << near << " of them together, the others around them; radius " << radius << ", limit " << limit);
    if (limit < near || near < n / 100) s.nontrivial ();
    const auto once = [&] {
        result g (pi.size ());
        auto op = [&] (size_t i, const std::vector<size_t> &x) { if (i < g.size ()) g[i] = x; else abort (); };
        rsx::radius_search_all_neighbors (v, pi, radius, op, limit);
        return g;
    };
    const auto g = once ();
    for (size_t i = 0; i < pi.size (); ++i)
    {
        CHECK_MSG (g[i].size () == std::min (limit, near), "query " << i << " has " << g[i].size () << " neighbors, limit " << limit << ", " << near << " points within the radius");
        const std::set<size_t> u (g[i].begin (), g[i].end ());
        CHECK_MSG (u.size () == g[i].size (), "query " << i << " has a neighbor twice");
        for (auto j : g[i]) CHECK_MSG (j < n && spoc::point::distance (v[j], o) < radius * 0.5, "query " << i << " has a neighbor beyond the radius");
    }
    CHECK_MSG (once () == g, "a second call gives other neighbors");
}

// Clouds of many points, where every neighbor is known beforehand
PROP (many_points, 40, "more than 65536 points")
{
    const size_t n = s.range (1000, s.chance (1, 2) ? 200000 : 20000);
    const auto l = gen_line (s, n);
    const size_t limit = s.draw (4);
    NOTE (s, n << " points along a line, radius 1.5, limit " << limit);
    if (n > 65536) s.nontrivial ();
    result g (n);
    auto op = [&] (size_t i, const std::vector<size_t> &x) { if (i < g.size ()) g[i] = x; };
    rsx::radius_search_all (l.v, 1.5, op, limit);
    for (size_t q = 0; q < n; ++q)
    {
        const size_t a = l.at[q], there = 1 + (a > 0) + (a + 1 < n);
        CHECK_MSG (g[q].size () == std::min (limit, there), "query " << q << " has " << g[q].size () << " neighbors, limit " << limit << ", " << there << " points within the radius");
        for (size_t k = 0; k < g[q].size (); ++k)
        {
            CHECK_MSG (g[q][k] < n && l.at[g[q][k]] + 1 >= a && l.at[g[q][k]] <= a + 1, "query " << q << " has neighbor " << g[q][k] << ", which is not within the radius");
            for (size_t j = 0; j < k; ++j) CHECK_MSG (g[q][j] != g[q][k], "query " << q << " has a neighbor twice");
        }
    }
}
PBT_MAIN
