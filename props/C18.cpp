// C18: translations, scalings and rotations do what they say to every point
#include "geom.h"
#include "spoc/affine.h"
#include "transform.h"
using namespace geom;
namespace af = spoc::affine;

static double gen_arg (pbt::Source &s)
{
    switch (s.draw (6))
    {
        case 0: return 0;
        case 1: return double (s.irange (-5, 5));
        case 2: return s.irange (-1000, 1000) * 0.125;
        case 3: { auto b = s.sub (); return coord (b); }
        case 4: { auto b = s.sub (); return finite_double (b); }
        default: return s.pick ({ 1.0, -1.0, 1e-9, 1e300, -1e-300, 0.1 });
    }
}
static double gen_angle (pbt::Source &s)
{
    switch (s.draw (6))
    {
        case 0: return s.pick ({ 0.0, 90.0, -90.0, 180.0, -180.0, 270.0, 360.0, -360.0, 720.0, 45.0, 30.0, 60.0 });
        case 1: return double (s.irange (-720, 720));
        case 2: return s.irange (-3600, 3600) * 0.1;
        case 3: { auto b = s.sub (); return (b.unit () - 0.5) * 2e4; }
        case 4: return s.pick ({ 1e-9, -1e-6, 0.001, 1.0 });
        default: { auto b = s.sub (); return b.unit () * 360; }
    }
}
static std::vector<rec> gen (pbt::Source &s)
{
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (0, s.chance (1, 60) ? 3000 : 3 + s.size ());
    auto v = gen_points (s, n, sh);
    if (s.chance (1, 4)) { auto b = s.sub (); for (auto &p : v) p = mk (finite_double (b), finite_double (b), finite_double (b)); s.label ("any finite"); }
    return records_at (s, v, s.draw (3));
}
static Ps points_of (const std::vector<rec> &r) { Ps v; for (const auto &q : r) v.push_back (mk (q.x, q.y, q.z)); return v; }

PROP (add_scale, 150000, "at least two records and an argument that changes something")
{
    const auto r = gen (s);
    const unsigned op = s.draw (7);
    double a = gen_arg (s), a2 = gen_arg (s), a3 = gen_arg (s);
    // the offset may be one of the records themselves
    size_t own = SIZE_MAX;
    if (op == 3 && !r.empty () && s.chance (1, 3))
    {
        const auto &q = r[own = s.draw (r.size ())];
        if (std::isnan (q.x) || std::isnan (q.y) || std::isnan (q.z)) own = SIZE_MAX;
        else { a = q.x; a2 = q.y; a3 = q.z; s.label ("offset in place"); }
    }
    static const char *names[] = { "add_x", "add_y", "add_z", "add", "scale_x", "scale_y", "scale_z" };
    NOTE (s, names[op] << " " << a << (op == 3 ? " ..." : "") << " on " << r.size () << " records, e.g. " << (r.empty () ? rec () : r.back ()));
    s.label (names[op]);
    if (r.size () >= 2 && a != 0 && a != 1) s.nontrivial ();
    auto want = r;
    for (auto &q : want)
        switch (op)
        {
            case 0: q.x = q.x + a; break;
            case 1: q.y = q.y + a; break;
            case 2: q.z = q.z + a; break;
            case 3: q.x = q.x + a; q.y = q.y + a2; q.z = q.z + a3; break;
            case 4: q.x = q.x * a; break;
            case 5: q.y = q.y * a; break;
            default: q.z = q.z * a;
        }
    auto apply = [&] (auto &c)
    {
        switch (op)
        {
            case 0: af::add_x (c, a); break;
            case 1: af::add_y (c, a); break;
            case 2: af::add_z (c, a); break;
            case 3: if (own != SIZE_MAX) { af::add (c, c[own]); break; } else { typename std::remove_reference_t<decltype (c)>::value_type v; v.x = a; v.y = a2; v.z = a3; af::add (c, v); break; }
            case 4: af::scale_x (c, a); break;
            case 5: af::scale_y (c, a); break;
            default: af::scale_z (c, a);
        }
    };
    auto prs = to_prs (r);
    apply (prs);
    check_same_records (from_prs (prs), want, names[op]);
    auto v = points_of (r);
    apply (v);
    const auto w = points_of (want);
    CHECK (v.size () == w.size ());
    for (size_t k = 0; k < v.size (); ++k) CHECK_MSG (geom::same_bits (v[k], w[k]), names[op] << ": point " << k << " is " << str (v[k]) << ", expected " << str (w[k]));
}

template<typename T> static void rot (T &c, int axis, double deg)
{
    if (axis == 0) af::rotate_x (c, deg);
    else if (axis == 1) af::rotate_y (c, deg);
    else af::rotate_z (c, deg);
}
static void check_near (const Ps &got, const Ps &want, double rel, const Ps &scale, int axis, const std::string &what)
{
    CHECK (got.size () == want.size ());
    for (size_t k = 0; k < got.size (); ++k)
    {
        const double n = std::abs (scale[k].x) + std::abs (scale[k].y) + std::abs (scale[k].z);
        for (int j = 0; j < 3; ++j)
        {
            if (j == axis) CHECK_MSG (bits (ax (got[k], j)) == bits (ax (scale[k], j)), what << ": the coordinate along the axis changed, from " << str (scale[k]) << " to " << str (got[k]));
            else CHECK_MSG (std::abs (ax (got[k], j) - ax (want[k], j)) <= rel * n + 1e-320, what << ": " << str (scale[k]) << " becomes " << str (got[k]) << ", expected " << str (want[k]));
        }
    }
}

PROP (rotations, 150000, "at least two points off the axis and an angle that is not a multiple of 360")
{
    auto r = gen (s);
    // keep the products from overflowing or vanishing
    for (auto &q : r) for (double *d : { &q.x, &q.y, &q.z }) { if (std::abs (*d) > 1e290) *d = std::copysign (1e290, *d); if (*d != 0 && std::abs (*d) < 1e-290) *d = 0; }
    const int axis = s.draw (3);
    const double deg = gen_angle (s), deg2 = gen_angle (s);
    NOTE (s, "rotate about " << "xyz"[axis] << " by " << deg << " on " << r.size () << " records, e.g. " << (r.empty () ? rec () : r.back ()));
    s.label (std::string ("rotate about ") + "xyz"[axis]);
    if (r.size () >= 2 && std::fmod (deg, 360) != 0) s.nontrivial ();
    const Ps v = points_of (r);
    // first and second axis of the plane
    const int i = axis == 0 ? 1 : 0, j = axis == 2 ? 1 : 2;
    auto turned = [&] (const Ps &p, double d)
    {
        const long double t = d * acosl (-1.0L) / 180.0L, c = cosl (t), n = sinl (t);
        Ps w = p;
        for (size_t k = 0; k < w.size (); ++k)
        {
            ax (w[k], i) = double (ax (p[k], i) * c - ax (p[k], j) * n);
            ax (w[k], j) = double (ax (p[k], i) * n + ax (p[k], j) * c);
        }
        return w;
    };
    const double rel = 4e-15 + 1e-15 * (std::abs (deg) + std::abs (deg2)) * 0.02;
    Ps a = v;
    rot (a, axis, deg);
    check_near (a, turned (v, deg), rel, v, axis, "rotation");
    // distances from the origin and between neighbors
    for (size_t k = 0; k < v.size (); ++k)
    {
        auto len = [] (const P &p) { return double (hypotl (hypotl (p.x, p.y), p.z)); };
        CHECK_MSG (std::abs (len (a[k]) - len (v[k])) <= 4 * rel * len (v[k]) + 1e-320, "length changed from " << len (v[k]) << " to " << len (a[k]));
        if (k)
        {
            const double d0 = len (v[k] - v[k - 1]), d1 = len (a[k] - a[k - 1]);
            CHECK_MSG (std::abs (d0 - d1) <= 8 * rel * (len (v[k]) + len (v[k - 1])) + 1e-320, "distance changed from " << d0 << " to " << d1);
        }
    }
    Ps back = a;
    rot (back, axis, -deg);
    check_near (back, v, 4 * rel, v, axis, "rotating back");
    Ps sum = a;
    rot (sum, axis, deg2);
    check_near (sum, turned (v, deg + deg2), 4 * rel, v, axis, "rotating twice");
    Ps full = v;
    rot (full, axis, 360.0 * s.irange (-2, 2));
    check_near (full, v, 1e-14, v, axis, "full turns");
    // records
    auto prs = to_prs (r);
    rot (prs, axis, deg);
    const auto g = from_prs (prs);
    CHECK (g.size () == r.size ());
    check_near (points_of (g), a, 4e-15, v, axis, "rotating records");
    auto w = g;
    for (size_t k = 0; k < w.size (); ++k) { w[k].x = r[k].x; w[k].y = r[k].y; w[k].z = r[k].z; }
    check_same_records (w, r, "the other fields of rotated records");
}

struct command { std::string name, params; };

// The same as commands of spoc_transform
PROP (commands, 60000, "at least two records and an argument that changes something")
{
    auto r = gen (s);
    if (r.size () > 70000) r.resize (70000);
    const int axis = int (s.draw (3));
    const unsigned op = unsigned (s.draw (3));
    const std::string A (1, "xyz"[axis]);
    const double d = op == 2 ? gen_angle (s) : gen_arg (s);
    if (d != 0 && std::abs (d) < 2.3e-308) s.discard ();
    char t[64];
    snprintf (t, sizeof t, "%.17g", d);
    const command c { (op == 0 ? "add-" : op == 1 ? "scale-" : "rotate-") + A, t };
    NOTE (s, "--" << c.name << "=" << c.params << " on " << r.size () << " records, e.g. " << (r.empty () ? rec () : r.back ()));
    s.label (c.name);
    if (op == 2) for (auto &q : r) for (double *e : { &q.x, &q.y, &q.z }) { if (std::abs (*e) > 1e290) *e = std::copysign (1e290, *e); if (*e != 0 && std::abs (*e) < 1e-290) *e = 0; }
    if (r.size () >= 2 && d != 0 && (op != 1 || d != 1) && (op != 2 || std::fmod (d, 360) != 0)) s.nontrivial ();
    cloud f;
    f.wkt = "w";
    f.r = r;
    std::istringstream i (encode (f));
    std::ostringstream o;
    spoc::transform_app::apply (i, o, std::vector<command> { c }, 0);
    const auto got = decode_all (o.str (), "the output");
    CHECK_MSG (got.r.size () == r.size (), got.r.size () << " records, expected " << r.size ());
    auto rest = got.r;
    for (size_t k = 0; k < r.size (); ++k) { rest[k].x = r[k].x; rest[k].y = r[k].y; rest[k].z = r[k].z; }
    check_same_records (rest, r, "the other fields");
    const long double a = d * acosl (-1.0L) / 180.0L, cs = cosl (a), sn = sinl (a);
    const int u = axis == 0 ? 1 : 0, w = axis == 2 ? 1 : 2;
    const double rel = 4e-15 + 1e-15 * std::abs (d) * 0.02;
    for (size_t k = 0; k < r.size (); ++k)
    {
        const P p = mk (r[k].x, r[k].y, r[k].z), q = mk (got.r[k].x, got.r[k].y, got.r[k].z);
        P e = p;
        if (op == 0) ax (e, axis) = ax (p, axis) + d;
        if (op == 1) ax (e, axis) = ax (p, axis) * d;
        if (op < 2) { CHECK_MSG (geom::same_bits (q, e), "record " << k << " at " << str (p) << " goes to " << str (q) << ", expected " << str (e)); continue; }
        ax (e, u) = double (ax (p, u) * cs - ax (p, w) * sn);
        ax (e, w) = double (ax (p, u) * sn + ax (p, w) * cs);
        const double n = std::abs (p.x) + std::abs (p.y) + std::abs (p.z);
        for (int j = 0; j < 3; ++j)
            CHECK_MSG (j == axis ? bits (ax (q, j)) == bits (ax (p, j)) : std::abs (ax (q, j) - ax (e, j)) <= rel * n + 1e-320, "record " << k << " at " << str (p) << " goes to " << str (q) << ", expected " << str (e));
    }
}
PBT_MAIN
