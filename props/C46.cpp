// C46: values print all they hold, and the approximate comparison honours its precision
#include "geom.h"
#include <cmath>
#include <iomanip>
using namespace geom;
namespace pt = spoc::point;

template <typename T> static T read_text (const std::string &t)
{
    if constexpr (std::is_floating_point_v<T>) return std::is_same_v<T, float> ? strtof (t.c_str (), nullptr) : T (strtod (t.c_str (), nullptr));
    else return T (std::is_signed_v<T> ? strtoll (t.c_str (), nullptr, 10) : strtoull (t.c_str (), nullptr, 10));
}
static std::vector<std::string> words (const std::string &t, char sep)
{
    std::vector<std::string> v;
    std::string w;
    for (char c : t + sep) if (c == sep) { v.push_back (w); w.clear (); } else w += c;
    return v;
}
static bool same (double a, double b) { return a == b ? std::signbit (a) == std::signbit (b) : std::isnan (a) && std::isnan (b); }
static double any_value (pbt::Bulk &b)
{
    switch (b.below (6))
    {
        case 0: return double (int64_t (b.below (2001)) - 1000);
        case 1: return (int64_t (b.below (2000001)) - 1000000) / 1000.0;
        case 2: return from_bits (b.next ());
        case 3: return b.below (3) == 0 ? -0.0 : b.below (2) ? std::numeric_limits<double>::infinity () : std::numeric_limits<double>::max ();
        default: return (b.unit () - 0.5) * std::pow (10, double (b.below (20)) - 8);
    }
}

// ---- records ----
PROP (records, 150000, "a record whose fields all differ from one another")
{
    auto b = s.sub ();
    const unsigned extras = s.chance (1, 20) ? s.range (0, 255) : s.range (0, 5);
    rec r;
    r.x = any_value (b); r.y = any_value (b); r.z = any_value (b);
    r.c = any_int<uint32_t> (b); r.p = any_int<uint32_t> (b); r.i = any_int<uint16_t> (b); r.r = any_int<uint16_t> (b); r.g = any_int<uint16_t> (b); r.b = any_int<uint16_t> (b);
    for (unsigned k = 0; k < extras; ++k) r.e.push_back (any_int<uint64_t> (b));
    const unsigned digits = s.pick<unsigned> ({ 17, 6, 3, 1 });
    NOTE (s, str (mk (r.x, r.y, r.z)) << " and " << extras << " extra fields at " << digits << " digits");
    std::ostringstream o, plain;
    o << std::setprecision (digits) << to_pr (r);
    CHECK_MSG (o.good () && o.precision () == int (digits), "printing a record changes the stream");
    const auto t = o.str ();
    // tabs come before every field
    const auto w = words (t, '\t');
    CHECK_MSG (w.size () == 10 + extras && w[0].empty (), "'" << t << "' has " << w.size () - 1 << " fields, expected " << 9 + extras);
    const double xyz[] = { r.x, r.y, r.z };
    for (int k = 0; k < 3; ++k)
    {
        std::ostringstream q;
        q << std::setprecision (digits) << xyz[k];
        CHECK_MSG (w[1 + k] == q.str (), "coordinate " << k << " prints as '" << w[1 + k] << "', expected '" << q.str () << "'");
        if (digits == 17) CHECK_MSG (same (read_text<double> (w[1 + k]), xyz[k]), "'" << w[1 + k] << "' does not read back");
    }
    const uint64_t n[] = { r.c, r.p, r.i, r.r, r.g, r.b };
    for (int k = 0; k < 6; ++k) CHECK_MSG (w[4 + k] == std::to_string (n[k]), "field " << "cpirgb"[k] << " prints as '" << w[4 + k] << "', expected " << n[k]);
    for (unsigned k = 0; k < extras; ++k) CHECK_MSG (w[10 + k] == std::to_string (r.e[k]), "extra field " << k << " prints as '" << w[10 + k] << "', expected " << r.e[k]);
    if (std::set<std::string> (w.begin (), w.end ()).size () == w.size ()) s.nontrivial ();
}

// ---- what a constructor is given ----
PROP (constructed, 60000, "fields that all differ from one another")
{
    auto b = s.sub ();
    rec r;
    r.x = any_value (b); r.y = any_value (b); r.z = any_value (b);
    r.c = any_int<uint32_t> (b); r.p = any_int<uint32_t> (b); r.i = any_int<uint16_t> (b); r.r = any_int<uint16_t> (b); r.g = any_int<uint16_t> (b); r.b = any_int<uint16_t> (b);
    const unsigned extras = s.chance (1, 20) ? s.range (0, 255) : s.range (0, 5), kind = s.draw (7);
    for (unsigned k = 0; k < extras; ++k) r.e.push_back (any_int<uint64_t> (b));
    using pr = spoc::point_record::point_record;
    auto compare = [&] (const pr &q, unsigned fields, const std::vector<uint64_t> &e, const char *what) {
        CHECK_MSG (same (q.x, fields ? r.x : 0.0) && same (q.y, fields ? r.y : 0.0) && same (q.z, fields ? r.z : 0.0), what << ": coordinates " << str (mk (q.x, q.y, q.z)) << ", given " << str (mk (r.x, r.y, r.z)));
        CHECK_MSG (q.c == (fields > 1 ? r.c : 0), what << ": class " << q.c << ", given " << r.c);
        const bool all = fields > 2;
        CHECK_MSG (q.p == (all ? r.p : 0) && q.i == (all ? r.i : 0) && q.r == (all ? r.r : 0) && q.g == (all ? r.g : 0) && q.b == (all ? r.b : 0), what << ": " << q << ", given " << r);
        CHECK_MSG (q.extra == e, what << ": other extra fields");
    };
    NOTE (s, "constructor " << kind << ": " << r);
    switch (kind)
    {
        case 0: compare (pr (), 0, {}, "no fields"); break;
        case 1: compare (pr (r.x, r.y, r.z), 1, {}, "a place"); break;
        case 2: compare (pr (r.x, r.y, r.z, r.c), 2, {}, "a place and a class"); break;
        case 3: compare (pr (size_t (extras)), 0, std::vector<uint64_t> (extras), "a number of extra fields"); break;
        case 4: compare (pr (r.x, r.y, r.z, r.c, r.p, r.i, r.r, r.g, r.b), 3, {}, "nine fields"); break;
        case 5: compare (pr (r.x, r.y, r.z, r.c, r.p, r.i, r.r, r.g, r.b, r.e), 3, r.e, "all fields"); break;
        default:
        {
            const std::string wkt (s.chance (1, 10) ? s.range (0, 65535) : s.range (0, 20), 'w');
            const uint64_t n = s.coin () ? s.draw (20) : any_int<uint64_t> (b);
            const bool z = s.coin ();
            const uint8_t ma = uint8_t (b.next ()), mi = uint8_t (b.next ());
            const spoc::header::header h (wkt, uint8_t (extras), n, z), g (ma, mi, wkt, uint8_t (extras), n, z), d (wkt, uint8_t (extras), n), e;
            CHECK (h.wkt == wkt && h.extra_fields == extras && h.total_points == n && h.compressed == z && std::string (h.signature) == "SPOC");
            CHECK (g.wkt == wkt && g.extra_fields == extras && g.total_points == n && g.compressed == z && g.major_version == ma && g.minor_version == mi && std::string (g.signature) == "SPOC");
            CHECK (h.major_version == 0 && h.minor_version == 1 && !d.compressed && d.wkt == wkt && d.total_points == n && d.extra_fields == extras);
            CHECK (e.wkt.empty () && e.extra_fields == 0 && e.total_points == 0 && !e.compressed && e.major_version == 0 && e.minor_version == 1 && std::string (e.signature) == "SPOC");
        }
    }
    if (r.x != r.y && r.y != r.z && r.c != r.p && r.i != r.r && r.r != r.g && r.g != r.b) s.nontrivial ();
}

// ---- points ----
template <typename T, typename G> static void check_point (const G &gen, unsigned digits)
{
    const pt::point<T> p { gen (), gen (), gen () };
    std::ostringstream o;
    o << std::setprecision (digits) << p << "|" << p;
    const auto t = o.str ();
    const auto w = words (t.substr (0, t.find ('|')), ' ');
    CHECK_MSG (w.size () == 4 && w[0].empty (), "'" << t << "' is not three numbers");
    const T v[] = { p.x, p.y, p.z };
    for (int k = 0; k < 3; ++k)
    {
        const T x = read_text<T> (w[1 + k]);
        CHECK_MSG (x == v[k] || (x != x && v[k] != v[k]), "'" << t << "': coordinate " << k << " reads back as " << x << ", it was " << std::setprecision (17) << v[k]);
    }
    CHECK (t.substr (t.find ('|') + 1) == t.substr (0, t.find ('|')));
}
PROP (points, 60000, "all")
{
    auto b = s.sub ();
    const unsigned kind = s.draw (4);
    NOTE (s, "kind " << kind);
    s.nontrivial ();
    switch (kind)
    {
        case 0: check_point<double> ([&] { return any_value (b); }, 17); break;
        case 1: check_point<float> ([&] { return float ((b.unit () - 0.5) * std::pow (10, double (b.below (20)) - 8)); }, 9); break;
        case 2: check_point<int64_t> ([&] { return int64_t (any_int<uint64_t> (b)); }, 6); break;
        default: check_point<int> ([&] { return int (any_int<uint32_t> (b)); }, 6);
    }
}

// ---- headers ----
PROP (headers, 40000, "a WKT and at least one extra field")
{
    spoc::header::header h;
    auto b = s.sub ();
    std::string wkt (s.chance (1, 30) ? s.range (0, 65535) : s.range (0, 60), 0);
    for (auto &c : wkt) c = char (b.chance (1, 30) ? b.next () : 32 + b.below (95));
    const unsigned extras = s.draw (256);
    const uint64_t total = s.u64 ();
    const bool compressed = s.coin ();
    h = spoc::header::header (wkt, extras, total, compressed);
    NOTE (s, wkt.size () << " bytes of WKT, " << extras << " extra fields, " << total << " points");
    std::ostringstream o;
    o << h;
    std::ostringstream want;
    want << "SPOC\n" << int (spoc::MAJOR_VERSION) << '.' << int (spoc::MINOR_VERSION) << '\n' << wkt << "\nextra_fields " << extras << "\ntotal_points " << total << "\ncompressed " << (compressed ? "true" : "false") << '\n';
    CHECK_MSG (o.str () == want.str (), "the header prints as '" << o.str ().substr (0, 300) << "', expected '" << want.str ().substr (0, 300) << "'");
    if (!wkt.empty () && extras) s.nontrivial ();
}

// ---- approximate comparison ----
PROP (about_equal, 300000, "values that differ by between a hundredth and a hundred units of the precision")
{
    auto b = s.sub ();
    const unsigned digits = s.draw (13);
    const double unit = std::pow (10, -double (digits));
    // apart by some units
    auto apart = [&] { return b.chance (1, 4) ? 0.0 : (b.unit () - 0.5) * 2 * (b.chance (1, 2) ? 1.2 : b.chance (1, 2) ? 60.0 : 0.3); };
    auto place = [&] { return b.chance (1, 4) ? 0.0 : (b.unit () - 0.5) * (b.chance (1, 2) ? 10 : std::pow (10, 3 + double (b.below (8)))); };
    const size_t n = s.range (0, 6);
    Ps u (n), v (n);
    bool all = true, sharp = true;
    NOTE (s, n << " points at " << digits << " digits");
    for (size_t k = 0; k < n; ++k)
    {
        bool one = true;
        for (int a = 0; a < 3; ++a)
        {
            ax (u[k], a) = place ();
            ax (v[k], a) = ax (u[k], a) + apart () * unit;
            const double d = std::abs (ax (u[k], a) - ax (v[k], a)) / unit;
            if (d > 0.01 && d < 100) s.nontrivial ();
            const bool near = d < 0.5;
            if (std::abs (d - 0.5) < 1e-6) { sharp = false; continue; }
            CHECK_MSG (pt::about_equal (ax (u[k], a), ax (v[k], a), digits) == near, ax (u[k], a) << " and " << ax (v[k], a) << ", " << d << " units apart, compare as " << (near ? "different" : "equal") << " at " << digits << " digits");
            one = one && near;
        }
        if (sharp) CHECK_MSG (pt::about_equal (u[k], v[k], digits) == one, str (u[k]) << " and " << str (v[k]) << " compare as " << (one ? "different" : "equal") << " at " << digits << " digits");
        all = all && one;
    }
    if (sharp)
    {
        CHECK_MSG (pt::about_equal (u, v, digits) == all, n << " points compare as " << (all ? "different" : "equal") << " at " << digits << " digits");
        CHECK (pt::about_equal (v, u, digits) == all);
        if (digits == 12) CHECK (pt::about_equal (u, v) == all);
    }
    CHECK (pt::about_equal (u, u, digits));
}

PBT_MAIN
