// C34: spoc_diff reports a difference exactly when there is one
#include "lib.h"
#include "cli.h"
#include "diff.h"
using namespace lib;

// A pair of files that are equal, or differ in one chosen place (or two)
static std::string change (pbt::Source &s, cloud &c)
{
    auto b = s.sub ();
    const unsigned kind = s.draw (16);
    if (c.r.empty () && kind != 0 && kind < 13) { rec r; for (unsigned k = b.below (3); k; --k) r.e.push_back (k); c.r.push_back (r); return "a record in an empty file"; }
    rec *r = c.r.empty () ? nullptr : &c.r[b.chance (1, 3) ? c.r.size () - 1 : b.chance (1, 2) ? 0 : b.below (c.r.size ())];
    const auto bump = [&] (auto &v) { using T = std::decay_t<decltype (v)>; v ^= T (1) << b.below (8 * sizeof (T)); };
    const auto nudge = [&] (double &v)
    {
        const double o = v;
        v = b.chance (1, 2) ? std::nextafter (v, b.chance (1, 2) ? 1e300 : -1e300) : v + 1;
        if (v == o) v = o > 0 ? 0 : 1;
        if (std::isnan (v)) v = 1;
    };
    switch (kind)
    {
        case 0: return "nothing";
        case 1: nudge (r->x); return "x";
        case 2: nudge (r->y); return "y";
        case 3: nudge (r->z); return "z";
        case 4: bump (r->c); return "c";
        case 5: bump (r->p); return "p";
        case 6: bump (r->i); return "i";
        case 7: bump (r->r); return "r";
        case 8: bump (r->g); return "g";
        case 9: bump (r->b); return "b";
        case 10:
        {
            if (r->e.empty ()) { for (auto &q : c.r) q.e.push_back (0); return "an additional extra field of zeros"; }
            const size_t k = b.chance (1, 3) ? r->e.size () - 1 : b.below (r->e.size ());
            bump (r->e[k]);
            return "e" + std::to_string (k);
        }
        case 11:
            if (b.chance (1, 2)) { c.r.pop_back (); return "the last record is missing"; }
            c.r.push_back (c.r.back ());
            return "the last record is repeated";
        case 12:
        {
            if (b.chance (1, 2) && c.extras () < 255) { for (auto &q : c.r) q.e.push_back (b.chance (1, 2) ? 0 : 7); return "an additional extra field"; }
            std::swap (c.r[0], *r);
            return "two records are swapped";
        }
        case 13: c.compressed = !c.compressed; return "the compressed flag";
        case 14:
            if (c.wkt.empty () || (b.chance (1, 2) && c.wkt.size () < 65535)) c.wkt += "x";
            else if (b.chance (1, 2)) c.wkt[b.below (c.wkt.size ())] ^= 1;
            else c.wkt.pop_back ();
            return "the WKT";
        default:
        {
            // equal numbers in other bits
            size_t n = 0;
            for (auto &q : c.r) for (double *v : { &q.x, &q.y, &q.z }) if (*v == 0) { *v = -*v; ++n; }
            if (!n && r) { r->x = 0; }
            return n ? "only the signs of zeros" : "x";
        }
    }
}
struct pair { cloud a, b; std::string how; };
static pair gen (pbt::Source &s, uint64_t max, bool big_wkt)
{
    gen_opts o;
    o.kind = s.coin () ? FINITE : SURVEY;
    o.max_points = max;
    o.max_extras = s.chance (1, 3) ? s.chance (1, 5) ? 255 : 14 : 3;
    o.constant_columns = true;
    pair p;
    p.a = gen_cloud (s, o, -1, big_wkt);
    if (s.chance (1, 3)) { auto b = s.sub (); for (auto &r : p.a.r) for (double *v : { &r.x, &r.y, &r.z }) if (b.chance (1, 3)) *v = b.chance (1, 2) ? 0.0 : -0.0; }
    p.b = p.a;
    p.how = change (s, p.b);
    s.label (p.how.substr (0, p.how.find_first_of ("0123456789")));
    if (s.chance (1, 6)) p.how += " and " + change (s, p.b);
    if (s.coin ()) std::swap (p.a, p.b);
    return p;
}

static bool field_differs (const cloud &a, const cloud &b, char f)
{
    if (f >= '0' && f <= '9' && !(unsigned (f - '0') < a.extras () && unsigned (f - '0') < b.extras ())) return false;
    if (a.r.size () != b.r.size ()) return true;
    for (size_t k = 0; k < a.r.size (); ++k)
    {
        const rec &p = a.r[k], &q = b.r[k];
        bool d = false;
        switch (f)
        {
            case 'x': d = p.x != q.x; break;
            case 'y': d = p.y != q.y; break;
            case 'z': d = p.z != q.z; break;
            case 'c': d = p.c != q.c; break;
            case 'p': d = p.p != q.p; break;
            case 'i': d = p.i != q.i; break;
            case 'r': d = p.r != q.r; break;
            case 'g': d = p.g != q.g; break;
            case 'b': d = p.b != q.b; break;
            default: d = p.e[f - '0'] != q.e[f - '0'];
        }
        if (d) return true;
    }
    return false;
}
static bool header_differs (const cloud &a, const cloud &b)
{
    return a.wkt != b.wkt || a.compressed != b.compressed || a.r.size () != b.r.size () || a.extras () != b.extras ();
}
static bool data_differs (const cloud &a, const cloud &b)
{
    for (char f : std::string ("xyzcpirgb")) if (field_differs (a, b, f)) return true;
    if (a.extras () != b.extras ()) return true;
    for (size_t k = 0; k < a.r.size (); ++k) if (a.r[k].e != b.r[k].e) return true;
    return false;
}

struct mode
{
    bool header = false, data = false, reverse = false, unknown = false;
    std::string fields;
};
static mode gen_mode (pbt::Source &s)
{
    mode m;
    m.reverse = s.coin ();
    switch (s.draw (5))
    {
        case 0: break;
        case 1: m.header = true; break;
        case 2: m.data = true; break;
        default:
            for (unsigned n = s.chance (1, 10) ? s.range (5, 40) : s.range (1, 4); n; --n) m.fields += "xyzcpirgb0123456789"[s.draw (19)];
            if (s.chance (1, 8)) { m.unknown = true; m.fields.insert (s.draw (m.fields.size () + 1), 1, "aeqXZ-, @"[s.draw (9)]); }
    }
    return m;
}
// Whether a difference has to be found; with an unknown field, whether an error has to be
static bool expected (const cloud &a, const cloud &b, const mode &m, bool &error)
{
    error = false;
    if (m.header) return header_differs (a, b);
    if (m.data) return data_differs (a, b);
    if (m.fields.empty ()) return header_differs (a, b) || data_differs (a, b);
    bool d = false;
    for (char f : m.fields)
    {
        if (std::string ("xyzcpirgb0123456789").find (f) == std::string::npos) error = true;
        else d = d || field_differs (a, b, f);
    }
    return d;
}
static std::string text (const mode &m)
{
    return (m.header ? "header only" : m.data ? "data only" : m.fields.empty () ? "everything" : "fields " + m.fields) + (m.reverse ? ", reversed" : "");
}

PROP (library, 300000, "every case: a pair that is equal, or differs in a chosen place or two")
{
    const auto p = gen (s, s.rare (5) ? 140000 : 3 + s.size () / 2, false);
    const auto f = to_file (p.a), g = to_file (p.b);
    s.nontrivial ();
    for (int k = 0; k < 4; ++k)
    {
        const auto m = gen_mode (s);
        bool error;
        const bool d = expected (p.a, p.b, m, error);
        const std::vector<int> fields (m.fields.begin (), m.fields.end ());
        s.label (error ? "unknown field" : d ? "different" : "equal");
        NOTE (s, p.a.r.size () << " records, " << p.a.extras () << " extra fields; changed: " << p.how << "; " << text (m) << "; ");
        for (int swap = 0; swap < 2; ++swap)
        {
            const auto &l = swap ? g : f, &r = swap ? f : g;
            int code = 0;
            bool threw = false;
            try { code = spoc::diff_app::diff (l, r, m.header, m.data, fields, m.reverse); } catch (const std::runtime_error &) { threw = true; }
            if (error) { CHECK_MSG (threw || d, "an unknown field was accepted"); continue; }
            CHECK_MSG (!threw, "threw");
            CHECK_MSG ((code == 0) == (d == m.reverse), "returned " << code << ", but the files are " << (d ? "different" : "equal"));
        }
    }
}

PROP (tool, 4000, "every case: a pair that is equal, or differs in a chosen place or two")
{
    const auto p = gen (s, 3 + s.size () / 2, false);
    const auto m = gen_mode (s);
    bool error;
    const bool d = expected (p.a, p.b, m, error);
    const auto f = cli::path ("a"), g = cli::path ("b");
    cli::put (f, encode (p.a));
    cli::put (g, encode (p.b));
    std::vector<std::string> a { "spoc_diff" };
    if (m.header) a.push_back (s.coin () ? "-a" : "--header-only");
    if (m.data) a.push_back (s.coin () ? "-d" : "--data-only");
    if (m.reverse) a.push_back (s.coin () ? "-r" : "--reverse");
    if (s.coin ()) a.push_back (s.coin () ? "-v" : "--verbose");
    // the fields in one option, or in several
    if (!m.fields.empty ())
    {
        if (s.coin ()) a.push_back ((s.coin () ? "-f" : "--field=") + m.fields);
        else for (char c : m.fields) a.push_back ((s.coin () ? "-f" : "--field=") + std::string (1, c));
    }
    const bool swap = s.coin (), last = s.coin ();
    a.insert (last ? a.end () : a.begin () + 1, { swap ? g : f, swap ? f : g });
    s.nontrivial ();
    s.label (error ? "unknown field" : d ? "different" : "equal");
    NOTE (s, p.a.r.size () << " records, " << p.a.extras () << " extra fields; changed: " << p.how << "; " << cli::shell_text (a));
    const auto r = cli::run (a);
    CHECK_MSG (r.exited () && r.status != 77, r.text ());
    if (error && !d) CHECK_MSG (r.rejected () && !r.err.empty (), "an unknown field was accepted: " << r.text ());
    if (!error) CHECK_MSG ((r.status == 0) == (d == m.reverse), "exit status " << r.status << ", but the files are " << (d ? "different" : "equal") << ": " << r.err);
    CHECK_MSG (cli::get (f) == encode (p.a) && cli::get (g) == encode (p.b), "an input file was changed");
}

PROP (arguments, 800, "every case")
{
    // combinations that are refused, whether or not the files differ
    const auto p = gen (s, 5, false);
    const auto f = cli::path ("a"), g = cli::path ("b");
    cli::put (f, encode (p.a));
    cli::put (g, encode (p.b));
    std::vector<std::string> a { "spoc_diff" };
    s.nontrivial ();
    const unsigned kind = s.draw (7);
    if (kind == 0) { a.insert (a.end (), { "-a", "-d", f, g }); }
    if (kind == 1) { a.insert (a.end (), { "--header-only", "--field=x", f, g }); }
    if (kind == 2) { a.insert (a.end (), { "--data-only", "-fc", f, g }); }
    if (kind == 3) { a.insert (a.end (), { f }); }
    if (kind == 4) { a.insert (a.end (), { f, g, f }); }
    if (kind == 5) { a.insert (a.end (), { f, cli::path ("missing") }); if (s.coin ()) std::swap (a[1], a[2]); }
    if (kind == 6) { a.insert (a.end (), { "-fx", "-a", "-d", f, g }); }
    if (kind > 2 && s.coin ()) a.push_back ("-r");
    if (kind == 0 && s.coin ()) a.push_back ("--reverse");
    NOTE (s, cli::shell_text (a));
    const auto r = cli::run (a);
    CHECK_MSG (r.rejected () && !r.err.empty (), "was not refused: " << r.text ());
}
PBT_MAIN
