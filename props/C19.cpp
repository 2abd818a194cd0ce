// C19: quantizing truncates every coordinate toward zero to the precision grid
#include "geom.h"
#include "cli.h"
#include "spoc/utils.h"
#include "transform.h"
#include "transform_cmd.h"
using namespace geom;
static const double EPS = 2.220446049250313e-16;

static double gen_precision (pbt::Source &s)
{
    switch (s.draw (6))
    {
        case 0: return 1;
        case 1: return s.pick ({ 0.5, 0.25, 2.0, 0.125, 8.0, 0x1p-30 });
        case 2: return s.pick ({ 0.1, 0.01, 0.001, 1e-6, 10.0, 1000.0 });
        case 3: return s.pick ({ 1e-9, 1e-12, 1e9, 0.3, 7.0 });
        case 4: return double (s.range (1, 5000)) / 1000;
        default: { auto b = s.sub (); return std::pow (10.0, b.unit () * 18 - 9); }
    }
}
static double gen_value (pbt::Bulk &b, double p)
{
    switch (b.below (7))
    {
        case 0: return coord (b);
        case 1: return p * (int64_t (b.below (2001)) - 1000);
        case 2: return p * ((int64_t (b.below (2001)) - 1000) + b.unit ());
        case 3: return (b.chance (1, 2) ? -1 : 1) * p * b.unit ();                      // less than one step
        case 4: return std::nextafter (p * (int64_t (b.below (201)) - 100), b.chance (1, 2) ? 1e308 : -1e308);
        case 5: return (b.chance (1, 2) ? -1 : 1) * p * std::pow (10.0, b.unit () * 18);  // many steps: more than fit an int
        default: return (b.unit () - 0.5) * 1e8;
    }
}
// The value is acceptable: the grid point toward zero, or its neighbor when the quotient is at a grid point within rounding
static void check_value (double got, double v, double p, const std::string &what)
{
    const long double q = (long double) v / p, k = truncl (q), n = roundl (q);
    const double tol = 4 * EPS * std::abs (v);
    bool ok = std::abs (got - double (k * p)) <= tol;
    if (!ok && fabsl (q - n) <= 4 * EPS * fabsl (q))
        ok = std::abs (got - double (n * p)) <= tol || std::abs (got - double ((n - (n > 0 ? 1 : -1)) * p)) <= tol;
    CHECK_MSG (ok, what << ": " << v << " with precision " << p << " becomes " << got << ", expected " << double (k * p));
    CHECK_MSG (std::abs (got - v) < p * (1 + 4 * EPS) + tol, what << ": " << v << " with precision " << p << " becomes " << got << ", a whole step away");
    CHECK_MSG (std::abs (got) <= std::abs (v) + tol, what << ": " << v << " with precision " << p << " becomes " << got << ", away from zero");
    CHECK_MSG (got == 0 || (got > 0) == (v > 0), what << ": " << v << " with precision " << p << " becomes " << got << ", with the other sign");
}
static std::vector<rec> gen (pbt::Source &s, uint64_t n, double p)
{
    Ps v (n);
    auto b = s.sub ();
    for (auto &q : v) q = mk (gen_value (b, p), gen_value (b, p), gen_value (b, p));
    return records_at (s, v, s.draw (3));
}
static void check_records (const std::vector<rec> &g, const std::vector<rec> &r, double p, const std::string &what)
{
    CHECK_MSG (g.size () == r.size (), what << ": " << g.size () << " of " << r.size () << " records");
    for (size_t k = 0; k < r.size (); ++k)
    {
        check_value (g[k].x, r[k].x, p, what);
        check_value (g[k].y, r[k].y, p, what);
        check_value (g[k].z, r[k].z, p, what);
        rec w = g[k];
        w.x = r[k].x; w.y = r[k].y; w.z = r[k].z;
        CHECK_MSG (same (w, r[k]), what << ": other fields changed, from " << r[k] << " to " << g[k]);
    }
}
static bool moves (const std::vector<rec> &r, double p)
{
    bool big = false;
    for (const auto &q : r) if (std::abs (std::fmod (q.x, p)) > 0.01 * p) big = true;
    return big && !r.empty ();
}

PROP (library, 250000, "a coordinate moves by more than a hundredth of a step")
{
    const double p = gen_precision (s);
    const auto r = gen (s, s.rare (4) ? s.range (70000, 140000) : s.range (0, s.chance (1, 100) ? 2000 : 3 + s.size () / 2), p);
    NOTE (s, "precision " << p << ", " << r.size () << " records, e.g. " << (r.empty () ? rec () : r.back ()));
    if (moves (r, p)) s.nontrivial ();
    for (const auto &q : r) s.label_if (std::abs (q.x / p) > 2147483648.0, "quotient beyond 32 bits");
    auto prs = to_prs (r);
    spoc::utils::quantize (prs, p);
    const auto g = from_prs (prs);
    check_records (g, r, p, "quantize");
    Ps v;
    for (const auto &q : r) v.push_back (mk (q.x, q.y, q.z));
    spoc::utils::quantize (v, p);
    for (size_t k = 0; k < v.size (); ++k) { check_value (v[k].x, r[k].x, p, "quantize points"); check_value (v[k].y, r[k].y, p, "quantize points"); check_value (v[k].z, r[k].z, p, "quantize points"); }
    // again
    auto again = prs;
    spoc::utils::quantize (again, p);
    for (size_t k = 0; k < g.size (); ++k)
        for (auto d : { std::make_pair (again[k].x, g[k].x), std::make_pair (again[k].y, g[k].y), std::make_pair (again[k].z, g[k].z) })
            CHECK_MSG (std::abs (d.first - d.second) <= p * (1 + 1e-9) + 4 * EPS * std::abs (d.second), "quantizing again moves " << d.second << " to " << d.first);
    // the transform command
    cloud c;
    c.wkt = "W";
    c.r = r;
    std::istringstream is (encode (c));
    std::ostringstream os;
    char t[64];
    snprintf (t, sizeof t, "%.17g", p);
    std::vector<spoc::transform_cmd::command> cmds { { "quantize-xyz", t } };
    spoc::transform_app::apply (is, os, cmds, 0);
    const auto o = decode_all (os.str (), "the output of quantize-xyz");
    CHECK (o.wkt == c.wkt && !o.compressed && o.extras () == c.extras ());
    check_records (o.r, r, p, "quantize-xyz");
}

PROP (powers_of_two, 150000, "a coordinate moves")
{
    // everything is exact here
    const double p = std::ldexp (1.0, int (s.range (0, 40)) - 30);
    auto b = s.sub ();
    const uint64_t n = s.range (1, 20);
    Ps v (n);
    bool moved = false;
    std::vector<std::array<double, 3>> want (n);
    for (size_t k = 0; k < n; ++k)
        for (int a = 0; a < 3; ++a)
        {
            const int64_t q = int64_t (b.next () >> (14 + b.below (49)));
            const double f = b.below (16) / 16.0, sg = b.chance (1, 2) ? 1 : -1;
            const double frac = double (q) < 0x1p48 ? f : 0;
            ax (v[k], a) = sg * (double (q) + frac) * p;
            want[k][a] = sg * double (q) * p;
            moved |= frac != 0;
        }
    NOTE (s, "precision " << p << ", " << n << " points, e.g. " << str (v.back ()));
    if (moved) s.nontrivial ();
    auto g = v;
    spoc::utils::quantize (g, p);
    for (size_t k = 0; k < n; ++k) for (int a = 0; a < 3; ++a) CHECK_MSG (ax (g[k], a) == want[k][a], ax (v[k], a) << " with precision " << p << " becomes " << ax (g[k], a) << ", expected " << want[k][a]);
    auto h = g;
    spoc::utils::quantize (h, p);
    for (size_t k = 0; k < n; ++k) CHECK (h[k] == g[k]);
}

PROP (tool, 3000, "a coordinate moves by more than a hundredth of a step")
{
    const double p0 = gen_precision (s);
    char t[64];
    snprintf (t, sizeof t, s.coin () ? "%.17g" : "%g", p0);
    const double p = strtod (t, nullptr);
    cloud c;
    c.r = gen (s, s.range (0, 3 + s.size () / 4), p);
    c.wkt = gen_text_wkt (s);
    NOTE (s, "--quantize-xyz=" << t << ", " << c.r.size () << " records, e.g. " << (c.r.empty () ? rec () : c.r.back ()));
    if (moves (c.r, p)) s.nontrivial ();
    const auto o = cli::run_cloud ({ "spoc_transform", std::string ("--quantize-xyz=") + t }, encode (c));
    CHECK (o.wkt == c.wkt && !o.compressed && o.extras () == c.extras ());
    check_records (o.r, c.r, p, "spoc_transform --quantize-xyz");
}
PBT_MAIN
