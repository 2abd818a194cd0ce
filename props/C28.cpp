// C28: recentering and subtracting the minimum are exact common shifts
#include "geom.h"
#include "cli.h"
#include "tool.h"
using namespace geom;
namespace ta = spoc::tool_app;

static double co (const rec &r, int k) { return k == 0 ? r.x : k == 1 ? r.y : r.z; }
static cloud gen (pbt::Source &s, uint64_t max)
{
    cloud c;
    shape sh;
    const uint64_t n = s.chance (1, 25) ? 0 : s.range (max >= 100000 ? max / 2 : 1, max);
    const auto v = gen_points (s, n, sh);
    c.r = records_at (s, v, s.draw (4));
    c.wkt = gen_text_wkt (s);
    c.compressed = s.coin ();
    NOTE (s, n << " points, " << sh.name << ", e.g. " << (n ? str (v.back ()) : "none"));
    return c;
}
static void check (const cloud &g, const cloud &c, bool mean, bool z, const std::string &what, pbt::Source &s)
{
    CHECK_MSG (g.wkt == c.wkt && g.compressed == c.compressed, what << ": WKT or flag changed");
    CHECK_MSG (g.r.size () == c.r.size (), what << ": " << g.r.size () << " of " << c.r.size () << " records");
    const size_t n = c.r.size ();
    auto w = g;
    for (int a = 0; a < 3; ++a)
    {
        long double sum = 0, abs = 0, after = 0;
        double lo = INFINITY, nlo = INFINITY;
        for (size_t k = 0; k < n; ++k) { sum += co (c.r[k], a); abs += std::abs (co (c.r[k], a)); lo = std::min (lo, co (c.r[k], a)); nlo = std::min (nlo, co (g.r[k], a)); after += co (g.r[k], a); }
        const double want = n ? mean ? double (sum / n) : lo : 0, avg = n ? double (abs / n) : 0;
        const double tol = mean ? 2.3e-16 * (n + 4) * avg : 0;
        if (a == 2 && !z) { for (size_t k = 0; k < n; ++k) CHECK_MSG (bits (co (g.r[k], a)) == bits (co (c.r[k], a)), what << ": z of record " << k << " changed from " << co (c.r[k], a) << " to " << co (g.r[k], a)); continue; }
        for (size_t k = 0; k < n; ++k)
        {
            const double x = co (c.r[k], a), y = co (g.r[k], a);
            CHECK_MSG (std::abs (y - (x - want)) <= tol + 2.3e-16 * std::abs (y), what << ": " << "xyz"[a] << " of record " << k << " moved from " << x << " to " << y << ", but the " << (mean ? "mean" : "minimum") << " is " << want);
            if (x != y) s.nontrivial ();
            (a == 0 ? w.r[k].x : a == 1 ? w.r[k].y : w.r[k].z) = x;
        }
        if (n && !mean) CHECK_MSG (nlo == 0, what << ": the minimum of " << "xyz"[a] << " is " << nlo);
        if (n && mean) CHECK_MSG (std::abs (double (after / n)) <= 2 * tol + 4e-16 * avg, what << ": the mean of " << "xyz"[a] << " is " << double (after / n));
    }
    if (!z) for (size_t k = 0; k < n; ++k) w.r[k].z = c.r[k].z;
    check_same_records (w.r, c.r, what + " (other fields)");
    if (n) CHECK (g.extras () == c.extras ());
}

PROP (library, 200000, "some coordinate changes")
{
    const auto c = gen (s, s.rare (4) ? 140000 : 3 + s.size ());
    const auto f = to_file (c);
    const bool z = s.coin ();
    check (from_file (ta::recenter (f, z)), c, true, z, z ? "recenter xyz" : "recenter xy", s);
    check (from_file (ta::subtract_min (f, z)), c, false, z, z ? "subtract_min xyz" : "subtract_min xy", s);
    const auto m = ta::subtract_min (f, z);
    check_same (from_file (ta::subtract_min (m, z)), from_file (m), "subtract_min twice");
    check_same (from_file (f), c, "the input");
    s.label (z ? "xyz" : "xy");
    s.label_if (c.r.empty (), "empty");
}

PROP (tool, 4000, "some coordinate changes")
{
    const auto c = gen (s, 3 + s.size ());
    const unsigned k = s.draw (4);
    static const char *names[] = { "--recenter-xy", "--recenter-xyz", "--subtract-min-xy", "--subtract-min-xyz" };
    NOTE (s, " " << names[k]);
    s.label (names[k]);
    check (cli::run_cloud ({ "spoc_tool", names[k] }, encode (c)), c, k < 2, k % 2 == 1, names[k], s);
}
PBT_MAIN
