// C12: rescaling to integers and restoring is accurate and monotone
#include "geom.h"
#include <array>
#include "spoc/extent.h"
using namespace geom;
namespace ex = spoc::extent;
static const double EPS = 2.220446049250313e-16;

static double gen_side (pbt::Bulk &b)
{
    switch (b.below (6))
    {
        case 0: return 1;
        case 1: return 1 + b.below (1000);
        case 2: return b.unit () + 1e-9;
        case 3: return std::pow (10.0, b.unit () * 40 - 20);
        case 4: return std::ldexp (1.0 + b.unit (), int (b.below (1600)) - 800);
        default: return 0.001 * (1 + b.below (100000));
    }
}
static double gen_min (pbt::Bulk &b, double side)
{
    switch (b.below (5))
    {
        case 0: return 0;
        case 1: return -side / 2;
        case 2: return side * (b.unit () - 0.5) * 100;
        case 3: return coord (b);
        default: return -side;
    }
}

PROP (rescale, 2000000, "at least three points strictly inside an extent whose corner is not the origin")
{
    auto b = s.sub ();
    ex::extent e;
    for (int k = 0; k < 3; ++k)
    {
        double side = gen_side (b), m = gen_min (b, side);
        while (!(m + side > m) || !((m + side) - m > 0)) side *= 1e6;
        ax (e.minp, k) = m;
        ax (e.maxp, k) = m + side;
    }
    const P sz = e.maxp - e.minp;
    const uint64_t n = s.range (0, 4 + s.size () / 2);
    Ps v { e.minp, e.maxp };
    for (uint64_t j = 0; j < n; ++j)
    {
        P p;
        for (int k = 0; k < 3; ++k)
        {
            const double m = ax (e.minp, k), M = ax (e.maxp, k);
            double t = m + b.unit () * (M - m);
            if (b.chance (1, 6)) t = m;
            if (b.chance (1, 6)) t = M;
            if (b.chance (1, 8)) t = std::nextafter (m, M);
            if (b.chance (1, 8)) t = std::nextafter (M, m);
            if (b.chance (1, 8) && v.size () > 2) t = std::nextafter (ax (v.back (), k), M);
            ax (p, k) = std::min (M, std::max (m, t));
        }
        v.push_back (p);
    }
    NOTE (s, v.size () << " points in " << str (e.minp) << " to " << str (e.maxp) << ", e.g. " << str (v.back ()));
    if (n >= 3 && !(e.minp == P ())) s.nontrivial ();
    const auto q = ex::rescale (v, e);
    CHECK (q.size () == v.size ());
    const auto back = ex::restore (q, e);
    CHECK (back.size () == v.size ());
    const uint64_t TOP = uint64_t (1) << 62;
    CHECK (ex::max_value == 0x1p62);
    CHECK_MSG (q[0].x == 0 && q[0].y == 0 && q[0].z == 0, "the minimum corner is rescaled to " << q[0].x << " " << q[0].y << " " << q[0].z);
    for (size_t j = 0; j < v.size (); ++j)
        for (int k = 0; k < 3; ++k)
        {
            const double p = ax (v[j], k), m = ax (e.minp, k), S = ax (sz, k), M = ax (e.maxp, k);
            const uint64_t g = k == 0 ? q[j].x : k == 1 ? q[j].y : q[j].z;
            const double slack = 0x1p62 * 8 * EPS;
            CHECK_MSG (double (g) <= 0x1p62 + slack, "coordinate " << p << " of [" << m << ", " << M << "] is rescaled to " << g);
            if (p == M) CHECK_MSG (std::abs (double (g) - 0x1p62) <= slack, "the maximum " << p << " is rescaled to " << g << ", expected " << TOP);
            const long double want = ((long double) (p - m)) / S * 0x1p62L;
            CHECK_MSG (fabsl (want - (long double) g) <= slack * (double (want) / 0x1p62) + 2, "coordinate " << p << " of [" << m << ", " << M << "] is rescaled to " << g << ", expected " << double (want));
            const double r = ax (back[j], k);
            const double tol = 8 * EPS * (S + std::abs (p) + std::abs (m)) + S * 0x1p-61 + std::numeric_limits<double>::denorm_min ();
            CHECK_MSG (std::abs (r - p) <= tol, "coordinate " << p << " of [" << m << ", " << M << "] is restored as " << r << ", " << std::abs (r - p) << " away, tolerance " << tol);
            // one by one
            const auto g1 = ex::rescale (v[j], sz, e.minp);
            CHECK (g1.x == q[j].x && g1.y == q[j].y && g1.z == q[j].z);
            CHECK (geom::same_bits (ex::restore (g1, sz, e.minp), back[j]));
        }
    // order
    for (int k = 0; k < 3; ++k)
    {
        std::vector<std::pair<double, uint64_t>> o;
        for (size_t j = 0; j < v.size (); ++j) o.push_back ({ ax (v[j], k), k == 0 ? q[j].x : k == 1 ? q[j].y : q[j].z });
        std::sort (o.begin (), o.end ());
        for (size_t j = 1; j < o.size (); ++j)
        {
            CHECK_MSG (o[j - 1].second <= o[j].second, "order not preserved: " << o[j - 1].first << " -> " << o[j - 1].second << ", " << o[j].first << " -> " << o[j].second);
            if (o[j].first - o[j - 1].first > ax (sz, k) * 1e-14 + 4 * EPS * (std::abs (o[j].first) + std::abs (ax (e.minp, k))))
                CHECK_MSG (o[j - 1].second < o[j].second, "distinct coordinates merged: " << o[j - 1].first << " and " << o[j].first);
        }
    }
}
PBT_MAIN
