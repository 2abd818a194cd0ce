// C27: get-field and set-field are inverse and touch one field
#include "lib.h"
#include "cli.h"
#include "tool.h"
using namespace lib;
namespace ta = spoc::tool_app;

static bool is_coord (const std::string &f) { return f == "x" || f == "y" || f == "z"; }
static double getd (const rec &r, const std::string &f) { return f == "x" ? r.x : f == "y" ? r.y : r.z; }
static uint64_t geti (const rec &r, const std::string &f)
{
    switch (f[0])
    {
        case 'c': return r.c; case 'p': return r.p; case 'i': return r.i; case 'r': return r.r; case 'g': return r.g; case 'b': return r.b;
        default: return r.e.at (std::stoul (f.substr (1)));
    }
}
static uint64_t top (const std::string &f) { return f[0] == 'c' || f[0] == 'p' ? 0xffffffffull : f[0] == 'e' ? ~0ull : 0xffffull; }
static void puti (rec &r, const std::string &f, uint64_t v)
{
    switch (f[0])
    {
        case 'c': r.c = v; break; case 'p': r.p = v; break; case 'i': r.i = v; break; case 'r': r.r = v; break; case 'g': r.g = v; break; case 'b': r.b = v; break;
        default: { const size_t j = std::stoul (f.substr (1)); if (r.e.size () <= j) r.e.resize (j + 1); r.e[j] = v; }
    }
}
static double tame (double d)
{
    if (!std::isfinite (d)) return 1.5;
    if (std::abs (d) > 1e300) return std::copysign (1e300, d);
    if (d != 0 && std::abs (d) < 1e-300) return std::copysign (1e-300, d);
    return d;
}
static cloud gen (pbt::Source &s, uint64_t max, unsigned extras)
{
    gen_opts o;
    o.max_points = max;
    o.max_extras = extras;
    o.kind = s.coin () ? SURVEY : FINITE;
    return gen_cloud (s, o, -1, s.chance (1, 10));
}
static std::string gen_field (pbt::Source &s, unsigned extras, bool existing)
{
    const unsigned k = s.draw (12);
    if (k < 9) return std::string (1, "xyzcpirgb"[k]);
    if (existing) return extras ? "e" + std::to_string (s.draw (extras)) : "c";
    return "e" + std::to_string (s.draw (std::min<unsigned> (255, extras + 4)));
}
static std::string getf (const spoc::file::spoc_file &f, const std::string &name)
{
    std::ostringstream o;
    ta::get_field (f, o, name);
    return o.str ();
}
static spoc::file::spoc_file setf (const spoc::file::spoc_file &f, const std::string &text, const std::string &name)
{
    std::istringstream i (text);
    return ta::set_field (f, i, name);
}
// One line per record, each with the field's value
static std::vector<std::string> lines (const std::string &t)
{
    std::vector<std::string> v;
    std::istringstream i (t);
    std::string l;
    while (std::getline (i, l)) v.push_back (l);
    return v;
}
static void check_lines (const std::string &text, const cloud &c, const std::string &f, const std::string &what)
{
    CHECK_MSG (text.empty () || text.back () == '\n', what << ": the last line is not complete");
    const auto v = lines (text);
    CHECK_MSG (v.size () == c.r.size (), what << ": " << v.size () << " lines for " << c.r.size () << " records");
    for (size_t k = 0; k < v.size (); ++k)
    {
        if (!is_coord (f)) { CHECK_MSG (v[k] == std::to_string (geti (c.r[k], f)), what << ": line " << k << " is '" << v[k] << "', expected " << geti (c.r[k], f)); continue; }
        char *end;
        const double d = strtod (v[k].c_str (), &end), x = getd (c.r[k], f);
        CHECK_MSG (!v[k].empty () && *end == 0, what << ": line " << k << " is '" << v[k] << "'");
        CHECK_MSG (std::abs (d - x) <= 6.2e-16 * std::abs (x), what << ": line " << k << " is '" << v[k] << "', expected " << x);
    }
}

PROP (library, 100000, "at least two records that differ in the field")
{
    auto c = gen (s, s.rare (4) ? 140000 : 40, 8);
    const auto f = gen_field (s, c.extras (), true);
    NOTE (s, c << " field " << f);
    s.label (f.substr (0, 1));
    if (is_coord (f)) for (auto &r : c.r) { r.x = tame (r.x); r.y = tame (r.y); r.z = tame (r.z); }
    for (size_t k = 1; k < c.r.size (); ++k) if (is_coord (f) ? getd (c.r[k], f) != getd (c.r[0], f) : geti (c.r[k], f) != geti (c.r[0], f)) s.nontrivial ();
    const auto file = to_file (c);
    const auto text = getf (file, f);
    check_lines (text, c, f, "get_field " + f);
    // blank out the field, then set it again
    auto blank = c;
    for (auto &r : blank.r) if (is_coord (f)) (f == "x" ? r.x : f == "y" ? r.y : r.z) = 7; else puti (r, f, 7);
    auto g = from_file (setf (to_file (blank), text, f));
    CHECK (g.r.size () == c.r.size ());
    if (is_coord (f))
        for (size_t k = 0; k < g.r.size (); ++k)
        {
            double &a = f == "x" ? g.r[k].x : f == "y" ? g.r[k].y : g.r[k].z;
            const double b = getd (c.r[k], f);
            CHECK_MSG (std::abs (a - b) <= 6.2e-16 * std::abs (b), "set_field " << f << " gives " << a << ", expected " << b);
            a = b;
        }
    check_same (g, c, "set_field of what get_field printed");
}

static std::string gen_text (pbt::Source &s, cloud &want, const std::string &f)
{
    auto b = s.sub ();
    const unsigned sep = s.draw (4);
    std::string t;
    for (auto &r : want.r)
    {
        if (is_coord (f))
        {
            char q[64];
            double d = tame (b.chance (1, 3) ? finite_double (b) : coord (b));
            snprintf (q, sizeof q, b.chance (1, 2) ? "%.17g" : "%g", d);
            (f == "x" ? r.x : f == "y" ? r.y : r.z) = strtod (q, nullptr);
            t += q;
        }
        else
        {
            const uint64_t m = top (f);
            const uint64_t v = b.chance (1, 4) ? m - b.below (3) : b.chance (1, 2) ? b.below (10) : m == ~0ull ? b.next () : b.below (m + 1);
            puti (r, f, v);
            t += std::to_string (v);
        }
        t += sep == 0 ? " " : sep == 1 ? "\n\n  " : "\n";
    }
    if (s.coin ()) t += s.pick<std::string> ({ "1 2 3\n", "0", "junk", "   ", "\n" }); // more than needed
    else if (s.coin () && !t.empty ()) while (!t.empty () && isspace (t.back ())) t.pop_back ();
    return t;
}

PROP (set, 100000, "at least two records, and the new values differ from the old")
{
    const auto c = gen (s, s.rare (4) ? 140000 : 40, 8);
    const auto f = gen_field (s, c.extras (), false);
    auto w = c;
    if (f[0] == 'e') for (auto &r : w.r) if (r.e.size () <= std::stoul (f.substr (1))) r.e.resize (std::stoul (f.substr (1)) + 1);
    s.label_if (w.extras () > c.extras (), "adds extra fields");
    const auto t = gen_text (s, w, f);
    NOTE (s, c << " field " << f << " = '" << t << "'");
    s.label (f.substr (0, 1));
    if (c.r.size () >= 2) s.nontrivial ();
    if (t.empty ()) return;
    check_same (from_file (setf (to_file (c), t, f)), w, "set_field " + f);
}

PROP (bad_values, 60000, "one record or more, and the values end or turn into text too early")
{
    auto c = gen (s, 20, 4);
    if (c.r.empty ()) c.r.resize (1 + s.draw (3));
    const auto f = gen_field (s, c.extras (), false);
    std::string t;
    const size_t good = s.draw (c.r.size ());
    for (size_t k = 0; k < good; ++k) t += std::to_string (k) + "\n";
    switch (s.draw (4))
    {
        case 0: break;
        case 1: t += s.pick<std::string> ({ "abc", "-", "x1", ".", "e5", "+", "#", "one" }); for (size_t k = 0; k < c.r.size (); ++k) t += "\n1"; break;
        case 2: t += " \n "; break;
        default: if (t.size () > 1) t.pop_back (); t += s.pick<std::string> ({ ",", "\n,1\n2\n", " ;" }); for (size_t k = 0; k < c.r.size (); ++k) t += " 3";
    }
    NOTE (s, c << " field " << f << " = '" << t << "'");
    s.nontrivial ();
    bool threw = false;
    const auto file = to_file (c);
    if (t.empty ()) { s.label ("empty"); }
    try { setf (file, t, f); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, "set_field " << f << " of " << c.r.size () << " records accepted '" << t << "'");
    if (s.chance (1, 60))
    {
        const auto fn = cli::path ("bad.txt");
        cli::put (fn, t);
        const auto r = cli::run ({ "spoc_tool", "--set-field=" + f, "-f", fn }, encode (c));
        CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), "spoc_tool --set-field=" << f << " with '" << t << "': " << r.text ());
        s.label ("tool");
    }
}

PROP (missing_field, 30000, "a file with records is asked for an extra field it lacks")
{
    auto c = gen (s, 20, 255);
    if (c.r.empty ()) c.r.resize (1);
    const std::string f = "e" + std::to_string (c.extras () + (s.coin () ? 0 : s.draw (500)));
    NOTE (s, c << " field " << f);
    s.nontrivial ();
    bool threw = false;
    try { getf (to_file (c), f); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, "get_field " << f << " of " << c.extras () << " extra fields was accepted");
    if (s.chance (1, 40))
    {
        const auto r = cli::run ({ "spoc_tool", "--get-field=" + f }, encode (c));
        CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), "spoc_tool --get-field=" << f << ": " << r.text ());
        s.label ("tool");
    }
}

PROP (tool, 2500, "at least two records")
{
    auto c = gen (s, 60, 255);
    const auto f = gen_field (s, c.extras (), true);
    if (is_coord (f)) for (auto &r : c.r) { r.x = tame (r.x); r.y = tame (r.y); r.z = tame (r.z); }
    NOTE (s, c << " field " << f);
    if (c.r.size () >= 2) s.nontrivial ();
    const auto in = encode (c);
    const auto r = cli::run ({ "spoc_tool", (s.coin () ? "--get-field=" : "-g") + f }, in);
    CHECK_MSG (r.ok (), "get-field " << f << ": " << r.text ());
    check_lines (r.out, c, f, "spoc_tool --get-field=" + f);
    const auto f2 = gen_field (s, c.extras (), false);
    auto w = c;
    if (f2[0] == 'e') for (auto &q : w.r) if (q.e.size () <= std::stoul (f2.substr (1))) q.e.resize (std::stoul (f2.substr (1)) + 1);
    const auto t = gen_text (s, w, f2);
    if (t.empty ()) return;
    const auto fn = cli::path ("v.txt");
    cli::put (fn, t);
    std::vector<std::string> a { "spoc_tool", (s.coin () ? "--set-field=" : "-s") + f2, (s.coin () ? "--field-filename=" : "-f") + fn };
    if (s.coin ()) std::swap (a[1], a[2]);
    check_same (cli::run_cloud (a, in), w, cli::shell_text (a) + " with '" + t.substr (0, 300) + "'");
}
PBT_MAIN
