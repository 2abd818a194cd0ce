// C36: spoc_srs prints and replaces the WKT and nothing else
#include "lib.h"
#include "cli.h"
using namespace lib;

static cloud gen (pbt::Source &s)
{
    gen_opts o;
    o.max_points = s.rare (4) ? 140000 : 3 + s.size ();
    o.max_extras = s.chance (1, 10) ? 255 : 8;
    return gen_cloud (s, o);
}
// A WKT as an argument: any bytes but 0
static std::string gen_arg (pbt::Source &s)
{
    std::string t;
    switch (s.draw (5))
    {
        case 0: return "";
        case 1: return s.pick ({ "-", "--", "--help", "-s", "a b", "'", "\"", "\n", "x\n", " ", "\xc3\xa9" });
        case 2: t = gen_wkt (s, true); break;
        default: t = gen_text_wkt (s); break;
    }
    for (auto &c : t) if (!c) c = 1;
    return t;
}

PROP (print, 3000, "a file with a WKT of at least 2 bytes")
{
    const unsigned n = s.chance (1, 30) ? s.range (5, 70) : s.draw (5); // 0: standard input
    std::vector<cloud> in;
    std::string want;
    std::vector<std::string> a { "spoc_srs" };
    const bool v = s.chance (1, 3);
    for (unsigned k = 0; k < std::max (1u, n); ++k)
    {
        in.push_back (gen (s));
        want += in[k].wkt + "\n";
        if (in[k].wkt.size () >= 2) s.nontrivial ();
        const auto fn = cli::path ("s" + std::to_string (k));
        cli::put (fn, encode (in[k]));
        if (n) a.push_back (fn);
    }
    if (v) a.insert (s.coin () ? a.end () : a.begin () + 1, s.coin () ? "-v" : "--verbose");
    NOTE (s, cli::shell_text (a) << " of " << n << " files, the first with a WKT of " << in[0].wkt.size () << " bytes");
    s.label_if (n == 0, "standard input");
    s.label_if (n > 1, "several files");
    const auto r = cli::run (a, n ? "" : encode (in[0]));
    CHECK_MSG (r.ok (), "spoc_srs failed: " << r.text ());
    CHECK_MSG (r.out == want, "printed " << r.out.size () << " bytes: '" << pbt::tail (r.out, 300) << "', expected " << want.size () << ": '" << pbt::tail (want, 300) << "'");
    for (unsigned k = 0; k < n; ++k) CHECK_MSG (cli::get (cli::path ("s" + std::to_string (k))) == encode (in[k]), "an input file was changed");
}

PROP (set, 4000, "a file with records gets another WKT")
{
    const auto c = gen (s);
    auto w = c;
    w.wkt = gen_arg (s);
    const auto in = cli::path ("in"), out = cli::path ("out");
    const unsigned how = s.draw (4); // standard streams, a new file, an existing file, the input itself
    std::vector<std::string> a { "spoc_srs" };
    if (s.coin ()) a.insert (a.end (), { s.coin () ? "-s" : "--srs", w.wkt });
    else a.push_back ("--srs=" + w.wkt);
    if (s.chance (1, 4)) a.insert (s.coin () ? a.end () : a.begin () + 1, s.coin () ? "-v" : "--verbose");
    NOTE (s, c.r.size () << " records" << (c.compressed ? ", compressed" : "") << ", WKT of " << c.wkt.size () << " bytes replaced by one of " << w.wkt.size () << ": "
        << (how == 0 ? "standard streams" : how == 1 ? "a new file" : how == 2 ? "an existing file" : "in place"));
    if (!c.r.empty () && c.wkt != w.wkt) s.nontrivial ();
    std::string got;
    if (how == 0)
    {
        const auto r = cli::run (a, encode (c));
        CHECK_MSG (r.ok (), "spoc_srs failed: " << r.text ());
        got = r.out;
    }
    else
    {
        cli::put (in, encode (c));
        if (how == 2) cli::put (out, std::string (s.draw (100000), 'x'));
        else unlink (out.c_str ());
        const std::vector<std::string> files { in, how == 3 ? in : out };
        if (s.coin ()) a.insert (a.end (), files.begin (), files.end ());
        else a.insert (a.begin () + 1, files.begin (), files.end ());
        const auto r = cli::run (a);
        CHECK_MSG (r.ok (), "spoc_srs failed: " << r.text ());
        CHECK_MSG (r.out.empty (), "something was written to standard output");
        got = cli::get (files[1]);
        if (how != 3) CHECK_MSG (cli::get (in) == encode (c), "the input file was changed");
    }
    check_same (decode_all (got, "the output"), w, "the file with the new WKT");
    if (!c.compressed) CHECK_MSG (got == encode (w), "the output has other bytes than the format says");
    const auto r = cli::run ({ "spoc_srs" }, got);
    CHECK_MSG (r.ok () && r.out == w.wkt + "\n", "printing the WKT that was set gives '" << pbt::tail (r.out, 300) << "'");
}

PROP (arguments, 600, "every case")
{
    const auto c = gen (s);
    const auto in = cli::path ("in"), out = cli::path ("out");
    cli::put (in, encode (c));
    cli::put (out, "O");
    std::vector<std::string> a { "spoc_srs" };
    const unsigned kind = s.draw (5);
    s.nontrivial ();
    if (kind == 0) a.insert (a.end (), { "--srs=new", in });
    if (kind == 1) a.insert (a.end (), { "--srs=new", in, out, in });
    if (kind == 2) a.insert (a.end (), { "--srs=new", cli::path ("missing"), out });
    if (kind == 3) a.insert (a.end (), { "--srs=new", in, cli::path ("no/such/directory") });
    if (kind == 4) { a.insert (a.end (), { in, cli::path ("missing") }); }
    NOTE (s, cli::shell_text (a));
    const auto r = cli::run (a);
    CHECK_MSG (r.rejected () && !r.err.empty (), cli::shell_text (a) << " did not fail: " << r.text ());
    CHECK_MSG (cli::get (in) == encode (c), "the input was changed");
    CHECK_MSG (kind == 3 || cli::get (out) == "O", "the output was changed");
}
PBT_MAIN
