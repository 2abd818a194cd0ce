// C24: spoc_transform applies its commands in order to every record and nothing else
#include "xform.h"
using namespace xform;

struct plan
{
    cloud c;
    std::vector<cmd> cmds;
    bool rotates = false;
    std::vector<rec> want;
    std::vector<double> bound;
};
static plan gen (pbt::Source &s, uint64_t max)
{
    plan p;
    gen_opts o;
    o.max_points = max;
    o.max_extras = s.chance (1, 10) ? 255 : 5;
    o.kind = s.coin () ? SURVEY : ANY;
    p.c = gen_cloud (s, o, 0, s.chance (1, 10));
    const unsigned n = s.chance (1, 12) ? s.range (6, 25) : s.range (1, 5);
    // after a rotation, results are compared within rounding, so nothing that magnifies it may follow
    bool q = false;
    for (unsigned k = 0; k < n; ++k)
    {
        auto x = gen_cmd (s, p.c, true);
        if (x.rotates && (o.kind == ANY)) continue;
        if (x.quantizes && p.rotates) continue;
        p.rotates |= x.rotates;
        q |= x.quantizes;
        p.cmds.push_back (x);
    }
    if (p.cmds.empty ()) { cmd x; x.name = "add-x"; x.params = "1"; x.coords = true; x.fields = { "x" }; x.f = [] (rec &r, double &m) { r.x += 1; m += 1; }; p.cmds.push_back (x); }
    p.want = p.c.r;
    for (auto &r : p.want)
    {
        double m = std::max ({ std::abs (r.x), std::abs (r.y), std::abs (r.z), 1e-300 });
        for (const auto &x : p.cmds) x.f (r, m);
        p.bound.push_back (m);
    }
    for (const auto &x : p.cmds) s.label (x.name);
    NOTE (s, p.c << ": " << cli::shell_text (options (p.cmds)));
    bool changed = false;
    for (size_t k = 0; k < p.want.size (); ++k) changed |= !same (p.want[k], p.c.r[k]);
    if (p.cmds.size () >= 2 && changed) s.nontrivial ();
    return p;
}
// -0.0 and 0.0 count as one where a command computed the value; NaN is NaN
static bool eq (double a, double b) { return a == b || (std::isnan (a) && std::isnan (b)); }
static void check (const std::string &out, const plan &p, const std::string &what)
{
    const auto g = decode_all (out, "the output of " + what);
    CHECK_MSG (g.wkt == p.c.wkt && !g.compressed && g.extras () == p.c.extras (), what << ": the header changed");
    CHECK_MSG (out.compare (0, enc_header (p.c.wkt, p.c.extras (), p.c.r.size (), 0).size (), enc_header (p.c.wkt, p.c.extras (), p.c.r.size (), 0)) == 0, what << ": the header's bytes changed");
    CHECK_MSG (g.r.size () == p.want.size (), what << ": " << g.r.size () << " records, expected " << p.want.size ());
    std::set<std::string> touched;
    for (const auto &x : p.cmds) touched.insert (x.fields.begin (), x.fields.end ());
    for (size_t k = 0; k < g.r.size (); ++k)
    {
        rec w = p.want[k];
        const rec &r = g.r[k];
        for (int a = 0; a < 3; ++a)
        {
            double &d = a == 0 ? w.x : a == 1 ? w.y : w.z;
            const double x = a == 0 ? r.x : a == 1 ? r.y : r.z;
            if (!touched.count (std::string (1, "xyz"[a]))) { CHECK_MSG (bits (x) == bits (d), what << ": " << "xyz"[a] << " of record " << k << " changed from " << d << " to " << x << ", though no command names it"); continue; }
            CHECK_MSG (p.rotates ? std::abs (x - d) <= 1e-13 * p.bound[k] || eq (x, d) : eq (x, d), what << ": " << "xyz"[a] << " of record " << k << " is " << x << ", expected " << d << "; the input is " << p.c.r[k]);
            d = x;
        }
        CHECK_MSG (same (r, w), what << ": record " << k << " is " << r << ", expected " << w << "; the input is " << p.c.r[k]);
    }
}

PROP (library, 150000, "at least two commands, and some record changes")
{
    const auto p = gen (s, s.rare (5) ? 140000 : 30);
    const auto in = encode (p.c);
    const auto out = run_lib (in, commands (p.cmds));
    check (out, p, "the commands");
    // one command at a time
    std::string x = in;
    for (const auto &c : commands (p.cmds)) x = run_lib (x, { c });
    CHECK_MSG (x == out, "applying the commands one at a time gives other output");
}

PROP (tool, 4000, "at least two commands, and some record changes")
{
    const auto p = gen (s, 60);
    const auto in = encode (p.c);
    const auto a = options (p.cmds);
    const auto r = cli::run (a, in);
    CHECK_MSG (r.ok (), cli::shell_text (a) << ": " << r.text ());
    check (r.out, p, cli::shell_text (a));
    CHECK_MSG (r.out == run_lib (in, commands (p.cmds)), "spoc_transform and the library give different output");
    if (s.chance (1, 3))
    {
        std::string x = in;
        for (const auto &c : p.cmds)
        {
            const auto q = cli::run (options ({ c }), x);
            CHECK_MSG (q.ok (), cli::shell_text (options ({ c })) << ": " << q.text ());
            x = q.out;
        }
        CHECK_MSG (x == r.out, "piping through one invocation per command gives other output");
        s.label ("piped");
    }
}

PROP (refused, 3000, "a valid invocation with one thing wrong")
{
    auto p = gen (s, 10);
    s.nontrivial ();
    auto c = commands (p.cmds);
    bool cli_only = false;
    auto a = options (p.cmds);
    const unsigned how = s.draw (3);
    auto q = p.c;
    std::string what;
    switch (how)
    {
        case 0: q.compressed = true; what = "a compressed input"; break;
        case 1:
        {
            const std::string name = s.pick<std::string> ({ "add-w", "addx", "scale", "rotate", "noop", "", "copy", "set-x", "Add-x", "add-x ", "quantize" });
            const size_t at = s.draw (c.size () + 1);
            c.insert (c.begin () + at, { name, "1" });
            a.insert (a.begin () + 1 + at, "--" + (name == "scale" || name == "rotate" || name == "copy" || name == "quantize" || name.empty () ? "bogus" : name) + "=1");
            what = "the unknown command '" + name + "'";
            break;
        }
        default:
        {
            const std::string name = s.pick<std::string> ({ "add-x", "scale-z", "rotate-y", "quantize-xyz", "set", "replace" });
            const std::string par = name == "set" ? s.pick<std::string> ({ "c", "q,5", "c,x", "xx,1", "e,1" }) : name == "replace" ? s.pick<std::string> ({ "c,1", "c", "q,1,2", "c,a,b" }) : s.pick<std::string> ({ "", "abc", "x1", "-", "," });
            const size_t at = s.draw (c.size () + 1);
            c.insert (c.begin () + at, { name, par });
            a.insert (a.begin () + 1 + at, "--" + name + "=" + par);
            what = name + "=" + par;
        }
    }
    (void) cli_only;
    NOTE (s, " with " << what);
    s.label (how == 0 ? "compressed" : how == 1 ? "unknown command" : "bad parameter");
    bool threw = false;
    try { run_lib (encode (q), c); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, what << " was accepted");
    if (s.chance (1, 4))
    {
        const auto r = cli::run (a, encode (q));
        CHECK_MSG (r.rejected () && !r.err.empty (), cli::shell_text (a) << ", " << what << ": " << r.text ());
        s.label ("tool");
    }
}
PBT_MAIN
