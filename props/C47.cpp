// C47: the bundled generators give reproducible data within their stated bounds
#include "geom.h"
#include "spoc/asprs.h"
#include "spoc/test_utils.h"
#include <sys/stat.h>
using namespace geom;
namespace tu = spoc::test_utils;
using spoc::point_record::point_records;

// Another seed, next to the first one or anywhere; the engine takes seeds modulo 2^31 - 1
static int other_seed (pbt::Source &s, int seed)
{
    const int t = s.coin () ? seed + 1 + int (s.draw (50)) : s.coin () ? seed + (int (1 + s.draw (1000)) << 16) : int (s.range (1, 2147483646));
    return t == seed ? seed + 1 : t;
}

// The probability of a false alarm of each statistical bound is below 1e-9
static void check_mean (double sum, size_t n, double mean, double sd, const std::string &what)
{
    if (n < 200) return;
    CHECK_MSG (std::abs (sum / n - mean) <= 6.5 * sd / std::sqrt (double (n)), what << " has the mean " << sum / n << " over " << n << ", expected about " << mean);
}

PROP (uniform_cloud, 60000, "at least ten points in a volume")
{
    const size_t n = s.rare (6) ? s.range (60000, 150000) : s.range (0, s.chance (1, 30) ? 3000 : 40);
    auto b = s.sub ();
    auto side = [&] { return b.chance (1, 5) ? 0.0 : b.chance (1, 4) ? double (b.below (100)) : b.unit () * std::pow (10, double (b.below (12)) - 4); };
    const double e[3] = { side (), side (), side () };
    const int seed = s.coin () ? 123 : int (s.range (1, 1000000000));
    NOTE (s, n << " points within " << e[0] << " x " << e[1] << " x " << e[2] << ", seed " << seed);
    const auto v = tu::get_noisy_point_cloud<Ps> (n, e[0], e[1], e[2], seed);
    const auto r = tu::get_noisy_point_cloud<point_records> (n, e[0], e[1], e[2], seed);
    CHECK (v.size () == n && r.size () == n);
    double sum[3] = { 0, 0, 0 };
    for (size_t k = 0; k < n; ++k)
    {
        for (int a = 0; a < 3; ++a)
        {
            const double x = ax (v[k], a);
            CHECK_MSG (x >= 0 && x <= e[a], "point " << k << " is " << str (v[k]) << ", outside of " << e[0] << " x " << e[1] << " x " << e[2]);
            sum[a] += x;
        }
        CHECK_MSG (r[k].x == v[k].x && r[k].y == v[k].y && r[k].z == v[k].z, "the records of a seed lie elsewhere than its points");
        CHECK (r[k].c == 0 && r[k].p == 0 && r[k].i == 0 && r[k].r == 0 && r[k].g == 0 && r[k].b == 0 && r[k].extra.empty ());
    }
    for (int a = 0; a < 3; ++a) check_mean (sum[a], n, e[a] / 2, e[a] / std::sqrt (12.0), std::string ("coordinate ") + "xyz"[a]);
    CHECK_MSG (tu::get_noisy_point_cloud<Ps> (n, e[0], e[1], e[2], seed) == v, "the same seed gives other points");
    if (seed == 123) CHECK (tu::get_noisy_point_cloud<Ps> (n, e[0], e[1], e[2]) == v);
    if (n >= 2 && e[0] > 0)
    {
        CHECK_MSG (tu::get_noisy_point_cloud<Ps> (n, e[0], e[1], e[2], other_seed (s, seed)) != v, "another seed gives the same points");
        std::set<double> x;
        for (const auto &p : v) x.insert (p.x / e[0]);
        CHECK_MSG (x.size () * 10 >= n * 9, "only " << x.size () << " different values among " << n);
    }
    if (n >= 10 && e[0] > 0 && e[1] > 0 && e[2] > 0) s.nontrivial ();
}

PROP (gaussian_cloud, 30000, "at least ten points that are apart")
{
    const size_t n = s.rare (6) ? s.range (60000, 150000) : s.range (0, s.chance (1, 30) ? 3000 : 40);
    auto b = s.sub ();
    const double radius = b.chance (1, 5) ? 0.0 : b.unit () * 100, sd = b.chance (1, 5) ? 0.0 : b.unit () * 100;
    const int seed = s.coin () ? 123 : int (s.range (1, 1000000000));
    NOTE (s, n << " points with radius " << radius << " and deviation " << sd << ", seed " << seed);
    const auto v = tu::get_noisy_gaussian_point_cloud<Ps> (n, radius, sd, seed);
    CHECK (v.size () == n);
    double m[3] = { 0, 0, 0 }, q = 0;
    for (const auto &p : v)
    {
        // sqrt (-2 ln (2^-53)) = 8.57; a normal variable exceeds 9 deviations with a probability of 2e-19
        CHECK_MSG (std::hypot (p.x, p.y) <= 9 * radius && std::abs (p.z) <= 9 * sd, "the point " << str (p) << " is far out");
        m[0] += p.x; m[1] += p.y; m[2] += p.z;
        q += p.z * p.z;
    }
    check_mean (m[0], n, 0, radius, "x");
    check_mean (m[1], n, 0, radius, "y");
    check_mean (m[2], n, 0, sd, "z");
    check_mean (q, n, sd * sd, 1.6 * sd * sd, "the squared z"); // the fourth moment of a normal variable is 3, and some room for small n
    CHECK_MSG (tu::get_noisy_gaussian_point_cloud<Ps> (n, radius, sd, seed) == v, "the same seed gives other points");
    if (n >= 2 && radius > 0) CHECK (tu::get_noisy_gaussian_point_cloud<Ps> (n, radius, sd, other_seed (s, seed)) != v);
    if (n >= 10 && radius > 0 && sd > 0) s.nontrivial ();
}

PROP (scales, 60000, "at least ten points over a range of exponents")
{
    const size_t n = s.rare (4) ? s.range (60000, 150000) : s.range (0, s.chance (1, 30) ? 3000 : 40);
    const int lo = -int (s.draw (300)) + 20, hi = lo + int (s.draw (300));
    NOTE (s, n << " points with exponents " << lo << " to " << hi);
    const auto v = tu::generate_points (n, lo, hi);
    CHECK (v.size () == n);
    size_t neg = 0;
    int top = lo - 1000;
    for (const auto &p : v)
        for (int a = 0; a < 3; ++a)
        {
            const double x = ax (p, a);
            CHECK_MSG (std::abs (x) <= std::ldexp (1, hi), "the coordinate " << x << " exceeds 2^" << hi);
            if (x < 0) ++neg;
            if (x != 0) top = std::max (top, std::ilogb (x));
        }
    check_mean (double (neg), 3 * n, 0.5, 0.5, "the share of negative coordinates");
    // with this many draws, some have nearly the largest exponent
    if (n >= 3000) CHECK_MSG (top >= hi - 3 - (hi - lo) / 20, "the largest coordinate is about 2^" << top << ", exponents go up to " << hi);
    CHECK (tu::generate_points (n, lo, hi) == v);
    const auto d = tu::generate_points (std::min<size_t> (n, 50));
    for (const auto &p : d) for (int a = 0; a < 3; ++a) CHECK (std::isfinite (ax (p, a)) && std::isfinite (ax (p, a) * ax (p, a)));
    if (n >= 10 && hi > lo) s.nontrivial ();
}

PROP (records, 60000, "at least ten records with extra fields")
{
    const size_t n = s.rare (6) ? s.range (60000, 100000) : s.range (0, s.chance (1, 30) ? 2000 : 40);
    const size_t extras = s.chance (1, 30) && n < 3000 ? s.range (0, 255) : s.draw (6);
    const bool rgb = s.coin (), compressed = s.coin ();
    const size_t seed = s.coin () ? 123 : s.range (1, 1000000000); // 0 is the same as 1 to the engine
    NOTE (s, n << " records with " << extras << " extra fields, " << (rgb ? "" : "no ") << "colours, seed " << seed);
    const auto v = tu::generate_random_point_records (n, extras, rgb, seed);
    CHECK (v.size () == n);
    double m[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 0 };
    for (const auto &p : v)
    {
        const double d[] = { p.x, p.y, p.z };
        for (int k = 0; k < 3; ++k) { CHECK_MSG (std::abs (d[k]) <= 1, "the coordinate " << d[k] << " lies outside of -1 to 1"); m[k] += d[k]; }
        const uint64_t f[] = { p.c, p.p, p.i, p.r, p.g, p.b };
        for (int k = 0; k < 6; ++k)
        {
            if (k >= 3 && !rgb) CHECK_MSG (f[k] == 0, "a colour is " << f[k] << " without colours");
            else CHECK_MSG (f[k] <= 32768, "field " << "cpirgb"[k] << " is " << f[k]);
            m[3 + k] += f[k];
        }
        CHECK (p.extra.size () == extras);
        for (auto x : p.extra) CHECK_MSG (x <= 32768, "an extra field is " << x);
    }
    for (int k = 0; k < 3; ++k) check_mean (m[k], n, 0, 0.58, std::string ("coordinate ") + "xyz"[k]);
    for (int k = 3; k < (rgb ? 9 : 6); ++k) check_mean (m[k], n, 16384, 9460, std::string ("field ") + "cpirgb"[k - 3]);
    const auto f = tu::generate_random_spoc_file (n, extras, compressed, rgb, seed);
    CHECK (f.get_wkt () == "WKT" && f.get_compressed () == compressed && f.get_header ().extra_fields == (n ? extras : 0) && f.get_header ().total_points == n);
    CHECK_MSG (f.get_point_records () == v, "a random file of a seed has other records than the seed gives");
    if (rgb && seed == 123) CHECK (tu::generate_random_point_records (n, extras) == v);
    if (n >= 2) CHECK_MSG (tu::generate_random_point_records (n, extras, rgb, other_seed (s, int (seed))) != v, "another seed gives the same records");
    if (n >= 10 && extras) s.nontrivial ();
}

PROP (file_names, 20000, "all")
{
    const size_t n = s.range (8, 60);
    NOTE (s, n << " characters");
    s.nontrivial ();
    const auto a = tu::generate_tmp_filename (n), b = tu::generate_tmp_filename (n);
    const auto dir = std::filesystem::temp_directory_path ();
    for (const auto &f : { a, b })
    {
        const std::filesystem::path p (f);
        const auto name = p.filename ().string ();
        CHECK_MSG (p.parent_path () == dir || p.parent_path () / "" == dir, f << " is not in " << dir);
        CHECK_MSG (name.size () == n && std::all_of (name.begin (), name.end (), [] (char c) { return c >= 'a' && c <= 'z'; }), "'" << name << "' is not " << n << " letters");
    }
}

PROP (class_names, 2000, "all")
{
    const auto m = spoc::asprs::get_asprs_class_map ();
    const unsigned c = s.draw (256);
    NOTE (s, "class " << c);
    s.nontrivial ();
    static const std::map<unsigned, std::string> names = { { 0, "unclassified" }, { 1, "unknown" }, { 2, "ground" }, { 3, "low_veg" }, { 4, "med_veg" }, { 5, "high_veg" }, { 6, "building" }, { 7, "low_noise" }, { 9, "water" }, { 10, "rail" }, { 11, "road" }, { 13, "wire_guard" }, { 14, "wire_conductor" }, { 15, "transmission_tower" }, { 16, "wire_connector" }, { 17, "bridge_deck" }, { 18, "high_noise" }, { 19, "overhead_structure" }, { 20, "ignored" }, { 21, "snow" }, { 22, "exclusion" } };
    const auto want = names.count (c) ? names.at (c) : c < 64 ? "reserved" : "user_defined";
    CHECK_MSG (m.size () == 256 && m.count (c) && m.at (c) == want, "class " << c << " is named '" << (m.count (c) ? m.at (c) : "") << "', expected '" << want << "'");
}

PBT_MAIN
