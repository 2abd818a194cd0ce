// C23: remove-coords removes exactly the records that satisfy the comparison
#include "geom.h"
#include "cli.h"
#include "filter.h"
using namespace geom;
namespace fa = spoc::filter_app;

static std::string number (pbt::Source &s, double v)
{
    char t[64];
    static const char *f[] = { "%.17g", "%.17g", "%g", "%.3f", "%.17e" };
    snprintf (t, sizeof t, f[s.draw (5)], v);
    return t;
}
struct setup
{
    cloud c, want;
    std::string expr;
};
static setup gen (pbt::Source &s)
{
    setup q;
    shape sh;
    const uint64_t n = s.rare (4) ? s.range (70000, 140000) : s.range (0, 3 + s.size () / 2);
    Ps v = gen_points (s, n, sh);
    auto b = s.sub ();
    if (s.chance (1, 4)) for (auto &p : v) p = mk (finite_double (b), finite_double (b), finite_double (b));
    q.c.compressed = s.coin ();
    q.c.wkt = gen_text_wkt (s);
    q.c.r = records_at (s, v, s.draw (3));
    const int axis = s.draw (3);
    const bool less = s.coin ();
    double x = n && s.chance (3, 4) ? ax (v[s.draw (n)], axis) : (b.unit () - 0.5) * 100;
    if (s.chance (1, 5)) x = std::nextafter (x, s.coin () ? 1e308 : -1e308);
    if (s.chance (1, 8)) x = s.pick ({ 0.0, -0.0, 1e300, -1e300 });
    const auto t = number (s, x);
    x = strtod (t.c_str (), nullptr);
    if (x != 0 && std::abs (x) < 2.3e-308) { x = 0; q.expr = std::string (1, "xyz"[axis]) + (less ? " < " : " > ") + "0"; } // stod refuses subnormals
    else if (std::isinf (x)) { x = 5; q.expr = std::string (1, "xyz"[axis]) + (less ? " < " : " > ") + "5"; }
    else q.expr = std::string (1, "xyz"[axis]) + (less ? " < " : " > ") + t;
    q.want = q.c;
    q.want.r.clear ();
    bool eq = false;
    for (size_t k = 0; k < n; ++k)
    {
        const double d = ax (v[k], axis);
        if (!(less ? d < x : d > x)) q.want.r.push_back (q.c.r[k]);
        if (d == x) eq = true;
    }
    s.label_if (eq, "a record equal to the value");
    NOTE (s, n << " points, " << sh.name << ": '" << q.expr << "'");
    if (!q.want.r.empty () && q.want.r.size () < n) s.nontrivial ();
    return q;
}

PROP (library, 150000, "some records are kept and some removed")
{
    const auto q = gen (s);
    const auto f = fa::remove_coords (to_file (q.c), q.expr);
    check_same (from_file (f), q.want, "remove_coords " + q.expr);
    check_same (from_file (fa::remove_coords (f, q.expr)), q.want, "remove_coords twice");
}

PROP (tool, 3000, "some records are kept and some removed")
{
    const auto q = gen (s);
    std::vector<std::string> a { "spoc_filter" };
    switch (s.draw (3))
    {
        case 0: a.push_back ("--remove-coords=" + q.expr); break;
        case 1: a.push_back ("-c" + q.expr); break;
        default: a.push_back ("-c"); a.push_back (q.expr);
    }
    const auto out = cli::run_cloud (a, encode (q.c));
    CHECK (out.wkt == q.c.wkt && out.compressed == q.c.compressed);
    check_same_records (out.r, q.want.r, cli::shell_text (a));
}

PROP (malformed, 60000, "the expression is a valid one with one thing changed")
{
    shape sh;
    const Ps v = gen_points (s, s.range (1, 5), sh);
    cloud c;
    c.r = records_at (s, v, 0);
    std::string axis (1, "xyz"[s.draw (3)]), op (1, "<>"[s.draw (2)]), val = number (s, double (s.irange (-100, 100)) / 8);
    std::string e;
    switch (s.draw (12))
    {
        case 0: axis = s.pick<std::string> ({ "X", "c", "xy", "", "i", "w", "p", "e0", "1" }); e = axis + " " + op + " " + val; break;
        case 1: op = s.pick<std::string> ({ "<=", ">=", "=", "==", "!=", "", "><", "lt", "<<" }); e = axis + " " + op + " " + val; break;
        case 2: val = s.pick<std::string> ({ "abc", "", "x", "--3", ".", "+-1", "e5", "-", "," }); e = axis + " " + op + " " + val; break;
        case 3: e = axis + op + val; break;
        case 4: e = axis + " " + op + val; break;
        case 5: e = axis + op + " " + val; break;
        case 6: e = axis + " " + op; break;
        case 7: e = axis + "  " + op + " " + val; break;
        case 8: e = axis + " " + op + "  " + val; break;
        case 9: e = " " + axis + " " + op + " " + val; break;
        case 10: e = axis + " " + op + " " + val + " " + s.pick<std::string> ({ "", "7", "y" }); break;
        default: e = s.coin () ? val + " " + op + " " + axis : op + " " + axis + " " + val;
    }
    NOTE (s, "'" << e << "'");
    s.nontrivial ();
    bool threw = false;
    try { fa::remove_coords (to_file (c), e); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, "the malformed expression '" << e << "' was accepted");
    if (s.chance (1, 40))
    {
        const auto r = cli::run ({ "spoc_filter", "-c", e }, encode (c));
        CHECK_MSG (r.rejected () && !r.err.empty (), "spoc_filter -c '" << e << "': " << r.text ());
        CHECK_MSG (r.out.empty (), "output was produced");
        s.label ("tool");
    }
}
PBT_MAIN
