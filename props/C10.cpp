// C10: point and record values: equality, hashing, ordering and encoding agree
#include "lib.h"
#include "spoc/affine.h"
#include "spoc/extent.h"
#include "spoc/point.h"
#include "spoc/subsampling.h"
#include "spoc/voxel.h"
using namespace lib;
namespace pt = spoc::point;
using P = pt::point<double>;

// Numbers from a small set, so that equal coordinates are common
static double gen_coord (pbt::Source &s)
{
    static const double v[] = { 0.0, -0.0, 1, -1, 0.5, 1e300, -1e300, 5e-324, -5e-324, INFINITY, -INFINITY, 1.0000000000000002, 0.1, 0.30000000000000004, 0.3, 4200000.125 };
    if (s.chance (1, 4)) { auto b = s.sub (); return finite_double (b); }
    return v[s.draw (16)];
}
static P gen_point (pbt::Source &s) { P p; p.x = gen_coord (s); p.y = gen_coord (s); p.z = gen_coord (s); return p; }
static bool num_eq (const P &a, const P &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static int lex (const P &a, const P &b)
{
    if (a.x != b.x) return a.x < b.x ? -1 : 1;
    if (a.y != b.y) return a.y < b.y ? -1 : 1;
    if (a.z != b.z) return a.z < b.z ? -1 : 1;
    return 0;
}
static bool near_or_both_nan (double a, double b)
{
    if (std::isnan (a) && std::isnan (b)) return true;
    return a == b || std::abs (a - b) <= 1e-12 * std::max (std::abs (a), std::abs (b));
}

PROP (points, 600000, "three points over a small set of coordinates, at least two of which differ in some coordinate")
{
    P a = gen_point (s), b = s.chance (1, 3) ? a : gen_point (s), c = gen_point (s);
    // often only one coordinate apart
    if (s.coin ()) { b = a; switch (s.draw (3)) { case 0: b.x = gen_coord (s); break; case 1: b.y = gen_coord (s); break; default: b.z = gen_coord (s); } }
    NOTE (s, a << " |" << b << " |" << c);
    if (!num_eq (a, b)) s.nontrivial ();
    CHECK ((a == b) == num_eq (a, b));
    CHECK ((a != b) == !num_eq (a, b));
    CHECK (a == a && !(a != a));
    CHECK ((b == a) == (a == b));
    const pt::point_hash<double> h;
    if (num_eq (a, b)) { CHECK_MSG (h (a) == h (b), "equal points hash differently: " << a << " and " << b); s.label ("equal"); }
    CHECK (h (a) == h (P (a)));
    const int l = lex (a, b);
    CHECK_MSG ((a < b) == (l < 0), "(" << a << ") < (" << b << ") is " << (a < b));
    CHECK_MSG ((b < a) == (l > 0), "(" << b << ") < (" << a << ") is " << (b < a));
    CHECK (!(a < a));
    if (a < b && b < c) CHECK (a < c);
    // arithmetic
    const P sum = a + b, dif = a - b;
    CHECK (near_or_both_nan (sum.x, a.x + b.x) && near_or_both_nan (sum.y, a.y + b.y) && near_or_both_nan (sum.z, a.z + b.z));
    CHECK (near_or_both_nan (dif.x, a.x - b.x) && near_or_both_nan (dif.y, a.y - b.y) && near_or_both_nan (dif.z, a.z - b.z));
    P t = a; t += b; CHECK (near_or_both_nan (t.x, sum.x) && near_or_both_nan (t.y, sum.y) && near_or_both_nan (t.z, sum.z));
    t = a; t -= b; CHECK (near_or_both_nan (t.x, dif.x) && near_or_both_nan (t.y, dif.y) && near_or_both_nan (t.z, dif.z));
    const double d = pt::distance (a, b);
    auto tame = [] (const P &p) { for (double v : { p.x, p.y, p.z }) if (!(std::abs (v) < 1e100) || (v != 0 && std::abs (v) < 1e-100)) return false; return true; };
    if (tame (a) && tame (b) && tame (dif))
    {
        const long double e = sqrtl ((long double) dif.x * dif.x + (long double) dif.y * dif.y + (long double) dif.z * dif.z);
        CHECK_MSG (std::abs (d - double (e)) <= 1e-13 * double (e), "distance of (" << a << ") and (" << b << ") is " << d << ", expected " << double (e));
        CHECK (pt::distance (b, a) == d);
        s.label ("distance");
    }
    // encoding keeps the bits
    const auto same_p = [] (const P &u, const P &v) { return bits (u.x) == bits (v.x) && bits (u.y) == bits (v.y) && bits (u.z) == bits (v.z); };
    const auto eb = pt::encode_point (a);
    sink o; o.f64 (a.x); o.f64 (a.y); o.f64 (a.z);
    CHECK (std::string (eb.begin (), eb.end ()) == o.s);
    CHECK (same_p (pt::decode_point (eb), a));
    const std::vector<P> v { a, b, c, a };
    const auto back = pt::decode_points<double> (pt::encode_points (v));
    CHECK (back.size () == 4);
    for (size_t k = 0; k < 4; ++k) CHECK (same_p (back[k], v[k]));
    const spoc::extent::extent x { a, b };
    const auto y = spoc::extent::decode_extent (spoc::extent::encode_extent (x));
    CHECK (same_p (y.minp, a) && same_p (y.maxp, b));
    CHECK ((x == spoc::extent::extent { a, b }) && ((x == spoc::extent::extent { a, c }) == num_eq (b, c)) && ((x == spoc::extent::extent { c, b }) == num_eq (a, c)));
}

PROP (bit_patterns, 100000, "points of arbitrary bit patterns, including NaN payloads, are encoded and decoded")
{
    auto b = s.sub ();
    std::vector<P> v (s.range (1, 20));
    for (auto &p : v) { p.x = any_double (b); p.y = any_double (b); p.z = any_double (b); }
    NOTE (s, v.size () << " points");
    s.nontrivial ();
    const auto w = pt::decode_points<double> (pt::encode_points (v));
    CHECK (w.size () == v.size ());
    for (size_t k = 0; k < v.size (); ++k)
    {
        CHECK (bits (w[k].x) == bits (v[k].x) && bits (w[k].y) == bits (v[k].y) && bits (w[k].z) == bits (v[k].z));
        const auto q = pt::decode_point (pt::encode_point (v[k]));
        CHECK (bits (q.x) == bits (v[k].x) && bits (q.y) == bits (v[k].y) && bits (q.z) == bits (v[k].z));
    }
}

PROP (records, 400000, "two records that are equal, equal but for the sign of a zero, or differ in exactly one field")
{
    const unsigned e = s.draw (5);
    gen_opts o;
    o.kind = FINITE;
    rec a = gen_records (s, 1, e, o)[0];
    rec b = a;
    bool equal = true;
    const unsigned f = s.draw (9 + e + 3);
    auto other = [&] (auto v) { decltype (v) w = v ^ (decltype (v) (1) << s.draw (8 * sizeof v)); return w; };
    auto other_d = [&] (double v) { const double w = s.coin () ? std::nextafter (v, s.coin () ? INFINITY : -INFINITY) : v + 1; return w == v ? v / 2 : w; };
    switch (f)
    {
        case 0: b.x = other_d (a.x); equal = a.x == b.x; break;
        case 1: b.y = other_d (a.y); equal = a.y == b.y; break;
        case 2: b.z = other_d (a.z); equal = a.z == b.z; break;
        case 3: b.c = other (a.c); equal = false; break;
        case 4: b.p = other (a.p); equal = false; break;
        case 5: b.i = other (a.i); equal = false; break;
        case 6: b.r = other (a.r); equal = false; break;
        case 7: b.g = other (a.g); equal = false; break;
        case 8: b.b = other (a.b); equal = false; break;
        default:
            if (f < 9 + e) { b.e[f - 9] = other (a.e[f - 9]); equal = false; }
            else if (f == 9 + e) { b.e.push_back (0); equal = false; s.label ("extra count"); }
            else if (f == 10 + e) { a.x = 0.0; b.x = -0.0; a.z = -0.0; b.z = 0.0; s.label ("zero signs"); }
    }
    NOTE (s, a << ' ' << b);
    s.label (equal ? "equal" : "one field differs");
    if (!equal) s.nontrivial ();
    const auto p = to_pr (a), q = to_pr (b);
    CHECK_MSG ((p == q) == equal, "== of " << a << " and " << b << " is " << (p == q));
    CHECK_MSG ((p != q) == !equal, "!= of " << a << " and " << b << " is " << (p != q));
    CHECK ((q == p) == equal);
    const spoc::point_record::point_record_hash h;
    if (equal) CHECK_MSG (h (p) == h (q), "equal records hash differently: " << a << " and " << b);
    CHECK (h (p) == h (to_pr (a)));
    std::unordered_set<spoc::point_record::point_record, spoc::point_record::point_record_hash> set;
    set.insert (p); set.insert (q); set.insert (to_pr (a)); set.insert (to_pr (b));
    CHECK_MSG (set.size () == (equal ? 1u : 2u), "a set of " << a << " and " << b << " has " << set.size () << " entries");
}

PROP (sets, 30000, "a hashed set of points over a small grid has one entry per distinct point; sorting puts points in lexicographic order")
{
    auto b = s.sub ();
    const bool big = s.rare (20); // more points than 16 bits count, most of them distinct
    const size_t n = big ? s.range (66000, 200000) : s.range (0, 300);
    const unsigned side = big ? s.range (200, 1000) : s.range (1, 8);
    std::vector<P> v (n);
    for (auto &p : v) { p.x = double (b.below (side)) - 2; p.y = double (b.below (side)) * 0.25; p.z = b.chance (1, 2) ? 0.0 : -0.0; if (b.chance (1, 3)) p.x = -0.0; }
    NOTE (s, n << " points, side " << side);
    std::unordered_set<P, pt::point_hash<double>> set (v.begin (), v.end ());
    std::set<std::array<double, 3>> want;
    for (const auto &p : v) want.insert ({ p.x + 0.0, p.y + 0.0, p.z + 0.0 });
    if (want.size () < n) s.nontrivial ();
    CHECK_MSG (set.size () == want.size (), "the hashed set has " << set.size () << " entries, " << want.size () << " distinct points");
    std::sort (v.begin (), v.end ());
    for (size_t k = 1; k < n; ++k) CHECK (lex (v[k - 1], v[k]) <= 0);
}

// ---- headers ----
PROP (headers, 60000, "two headers that are equal or differ in exactly one field")
{
    namespace hd = spoc::header;
    const std::string wkt = s.coin () ? gen_text_wkt (s) : gen_wkt (s, s.chance (1, 30));
    const uint64_t total = s.coin () ? s.draw (100) : s.u64 ();
    const unsigned extras = s.draw (256), major = s.coin () ? 0 : s.draw (256), minor = s.coin () ? 1 : s.draw (256);
    const bool compressed = s.coin ();
    const hd::header a (major, minor, wkt, extras, total, compressed);
    hd::header b (a);
    const unsigned what = s.draw (9);
    bool valid = true;
    switch (what)
    {
        case 1: { auto &c = b.signature[s.draw (4)]; c = char (c ^ (1 + s.draw (255))); valid = false; break; }
        case 2: b.major_version ^= 1 + s.draw (255); break;
        case 3: b.minor_version ^= 1 + s.draw (255); break;
        case 4: b.wkt = wkt.empty () || s.coin () ? wkt + std::string (1, char (s.draw (256))) : wkt.substr (0, wkt.size () - 1); break;
        case 5: if (wkt.empty ()) b.wkt = "x"; else { auto &c = b.wkt[s.draw (wkt.size ())]; c = char (c ^ (1 + s.draw (255))); } break;
        case 6: b.extra_fields ^= 1 + s.draw (255); break;
        case 7: b.total_points ^= uint64_t (1) << s.draw (64); break;
        case 8: b.compressed = !b.compressed; break;
        default: break;
    }
    NOTE (s, "headers with a WKT of " << wkt.size () << " bytes, " << extras << " extra fields, " << total << " points; difference " << what);
    s.label ("difference " + std::to_string (what));
    s.nontrivial ();
    using pp = std::pair<const hd::header *, const hd::header *>;
    for (auto q : { pp (&a, &b), pp (&b, &a) })
    {
        CHECK_MSG ((*q.first == *q.second) == (what == 0), "== is " << (*q.first == *q.second) << " for headers with difference " << what);
        CHECK_MSG ((*q.first != *q.second) == (what != 0), "!= is " << (*q.first != *q.second) << " for headers with difference " << what);
    }
    CHECK (a == a && !(a != a) && a.is_valid () && a.check_signature ());
    CHECK_MSG (b.check_signature () == valid, "check_signature is " << b.check_signature () << " for difference " << what);
    if (b.wkt.size () <= 65535) CHECK_MSG (b.is_valid () == valid, "is_valid is " << b.is_valid () << " for difference " << what);
}

PBT_MAIN
