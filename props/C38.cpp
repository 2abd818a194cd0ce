// C38: applications behave the same on named files and standard streams
#include "xform.h"
#include "session.h"
#include "jobs.h"
using namespace xform;
using namespace jobs;

struct outcome
{
    bool ok = false;
    std::string bytes;     // what the invocation produced
    cli::result r;
};
// Run with the files named in 'files' on the command line, leaving them as they are
static cli::result run_safe (const std::vector<std::string> &a, const std::string &in, const std::map<std::string, std::string> &files, const cli::opts &o = cli::opts ())
{
    const auto r = cli::run (a, in, o);
    for (const auto &f : files) CHECK_MSG (cli::get (f.first) == f.second, cli::shell_text (a) << " changed its input file " << f.first);
    CHECK_MSG (r.exited () && r.status != 77, cli::shell_text (a) << ": " << r.text ());
    if (r.status != 0 && a[0].find ("spoc_diff") == std::string::npos) CHECK_MSG (!r.err.empty (), cli::shell_text (a) << " failed without a message");
    return r;
}

PROP (forms, 4000, "the invocation succeeds on a file with records")
{
    const auto &tool = tools ()[s.draw (tools ().size ())];
    auto j = gen_job (s, tool);
    auto in = encode (j.c);
    // some inputs that are not acceptable, in every form alike
    const unsigned damage = s.draw (8);
    if (damage == 0 && !in.empty ()) in.resize (s.draw (in.size ()));
    if (damage == 1) in[s.draw (6)] ^= 0x55;
    if (damage == 2 && (tool == "spoc_compress" || tool == "spoc_decompress" || tool == "spoc_transform")) { auto d = j.c; d.compressed = !d.compressed; in = encode (d); }
    for (const auto &f : j.side) cli::put (cli::path (f.first), f.second);
    NOTE (s, tool << " " << cli::shell_text (j.opts) << " on " << j.c.r.size () << " records, damage " << damage);
    s.label (tool);
    // tiles of a named file have its extension, others one that depends on the compression
    const std::string ext = j.kind == job::TILE && j.c.compressed ? ".zpoc" : ".spoc";
    const auto f_in = cli::path ("in" + ext), f_out = cli::path ("out.spoc");
    cli::put (f_in, in);
    std::map<std::string, std::string> files = { { f_in, in } };
    for (const auto &f : j.side) files[cli::path (f.first)] = f.second;
    auto args = [&] (bool verbose, const std::vector<std::string> &names) {
        std::vector<std::string> a = { tool };
        const size_t at = s.draw (j.opts.size () + 1);
        // a verbose flag anywhere among the options, but not between an option and its value
        size_t k = 0;
        bool placed = !verbose;
        for (const auto &o : j.opts)
        {
            if (!placed && k >= at && (k == 0 || !(j.opts[k - 1].size () == 2))) { a.push_back (s.coin () ? "-v" : "--verbose"); placed = true; }
            a.push_back (o);
            ++k;
        }
        if (!placed) a.push_back ("-v");
        a.insert (s.chance (1, 4) && verbose == false && j.opts.empty () ? a.end () : a.end (), names.begin (), names.end ());
        return a;
    };
    std::vector<std::pair<std::string, outcome>> got;
    auto note = [&] (const std::vector<std::string> &a, const cli::result &r, const std::string &bytes) {
        outcome o;
        o.ok = r.ok ();
        o.bytes = bytes;
        // nothing is said about a run that goes well, but the warnings of spoc_merge
        const bool verbose = std::find (a.begin (), a.end (), "-v") != a.end () || std::find (a.begin (), a.end (), "--verbose") != a.end ();
        if (o.ok && !verbose && (tool != "spoc_merge" || std::find (a.begin (), a.end (), "--quiet") != a.end ()))
            CHECK_MSG (r.err.empty (), cli::shell_text (a) << " prints on standard error: " << r.err.substr (0, 200));
        o.r = r;
        got.push_back ({ cli::shell_text (a), o });
    };
    for (int v = 0; v < 2; ++v)
        switch (j.kind)
        {
            case job::IN_OUT: case job::SRS_SET:
            {
                auto a = args (v, {});
                auto r = run_safe (a, in, files);
                note (a, r, r.out);
                // stdin and stdout that are files, not pipes
                cli::opts o;
                o.in_file = f_in;
                o.out_file = cli::path ("redirected");
                a = args (v, {});
                r = run_safe (a, "", files, o);
                note (a, r, cli::get (o.out_file));
                if (j.kind == job::IN_OUT)
                {
                    a = args (v, { f_in });
                    r = run_safe (a, s.coin () ? "" : "something else", files);
                    note (a, r, r.out);
                }
                a = args (v, { f_in, f_out });
                unlink (f_out.c_str ());
                if (s.coin ()) cli::put (f_out, std::string (s.range (0, 3) * 20000, 'x'));
                r = run_safe (a, "", files);
                CHECK_MSG (r.out.empty (), cli::shell_text (a) << " writes " << r.out.size () << " bytes to standard output");
                note (a, r, r.ok () ? cli::get (f_out) : "");
                break;
            }
            case job::IN_ONLY: case job::PRINT_MANY:
            {
                auto a = args (v, {});
                auto r = run_safe (a, in, files);
                note (a, r, r.out);
                a = args (v, { f_in });
                r = run_safe (a, s.coin () ? "" : "something else", files);
                note (a, r, r.out);
                if (j.kind == job::PRINT_MANY && r.ok ())
                {
                    // several files: one after another
                    a = args (v, { f_in, f_in, f_in });
                    const auto r3 = run_safe (a, "", files);
                    CHECK_MSG (r3.ok () && r3.out == r.out + r.out + r.out, cli::shell_text (a) << " does not give the output for one file three times");
                }
                break;
            }
            case job::FILES_ONLY:
            {
                std::vector<std::string> names = { f_in };
                for (size_t k = 0; k < j.more.size (); ++k)
                {
                    names.push_back (cli::path ("more" + std::to_string (k)));
                    const auto b = encode (j.more[k]);
                    cli::put (names.back (), b);
                    files[names.back ()] = b;
                }
                auto a = args (v, names);
                auto r = run_safe (a, "", files);
                note (a, r, r.out);
                cli::opts o;
                o.out_file = cli::path ("redirected");
                r = run_safe (a, "", files, o);
                note (a, r, cli::get (o.out_file));
                break;
            }
            case job::TILE:
            {
                const auto d1 = cli::fresh_dir ("d1"), d2 = cli::fresh_dir ("d2");
                auto a = args (v, {});
                a.push_back ("--prefix=" + d1 + "/t");
                auto r = run_safe (a, in, files);
                note (a, r, r.out + "|" + dir_bytes (d1));
                a = args (v, { f_in });
                a.push_back ("--prefix=" + d2 + "/t");
                r = run_safe (a, "", files);
                note (a, r, r.out + "|" + dir_bytes (d2));
                // without a prefix, the input file's name serves, in the current directory
                const auto d3 = cli::fresh_dir ("d3");
                cli::opts o;
                o.cwd = d3;
                cli::put (cli::path ("t" + ext), in);
                a = args (v, { cli::path ("t" + ext) });
                r = run_safe (a, "", files, o);
                note (a, r, r.out + "|" + dir_bytes (d3));
                break;
            }
        }
    for (const auto &g : got)
    {
        CHECK_MSG (g.second.ok == got[0].second.ok, "'" << g.first << "' ends with " << g.second.r.text () << "; '" << got[0].first << "' with " << got[0].second.r.text ());
        if (g.second.ok || tool == "spoc_diff" || j.kind == job::PRINT_MANY)
            CHECK_MSG (g.second.bytes == got[0].second.bytes, "'" << g.first << "' gives " << g.second.bytes.size () << " bytes that differ from the " << got[0].second.bytes.size () << " of '" << got[0].first << "'");
        CHECK_MSG (g.second.r.status == got[0].second.r.status, "'" << g.first << "' ends with another status");
    }
    // what cannot be read as a SPOC file is never a success
    if ((damage == 0 || damage == 1) && tool != "spoc_diff" && !(tool == "spoc_srs" && j.kind == job::PRINT_MANY) && !got[0].second.r.out.empty () && j.kind != job::PRINT_MANY)
        CHECK_MSG (!got[0].second.ok, "damaged input is accepted by " << got[0].first);
    if (got[0].second.ok && j.c.r.size ()) s.nontrivial ();
}

// ---- wrong invocations ----
PROP (wrong, 5000, "all")
{
    const auto &tool = tools ()[s.draw (tools ().size ())];
    const auto j = gen_job (s, tool);
    for (const auto &f : j.side) cli::put (cli::path (f.first), f.second);
    const auto in = encode (j.c);
    const auto f_in = cli::path ("in.spoc"), f_2 = cli::path ("in2.spoc"), none = cli::path ("missing.spoc"), nodir = cli::path ("missing/out.spoc"), dir = cli::fresh_dir ("dir"), out = cli::path ("wout.spoc");
    cli::put (f_in, in);
    cli::put (f_2, in);
    unlink (out.c_str ());
    const std::map<std::string, std::string> files = { { f_in, in }, { f_2, in } };
    const bool files_only = j.kind == job::FILES_ONLY;
    std::vector<std::string> names = files_only ? std::vector<std::string> { f_in, f_2 } : s.coin () ? std::vector<std::string> { f_in } : std::vector<std::string> {};
    if (j.kind == job::SRS_SET) names.clear ();
    if (j.kind == job::TILE) names = { f_in, "--prefix=" + dir + "/t" };
    auto opts = j.opts;
    std::string what;
    auto shuffle_in = [&] (const std::string &o) { if (s.coin ()) opts.insert (opts.begin (), o); else opts.push_back (o); };
    switch (s.draw (6))
    {
        case 0:
            what = "an unknown option";
            shuffle_in (s.pick<std::string> ({ "--unknown", "--verbos-e", "-Z", "-0", "--in=3", "--output=file", "-vZ", "--Help" }));
            break;
        case 1:
            what = "an option without its argument";
            if (tool == "spoc_filter") names.push_back (s.pick<std::string> ({ "-k", "--keep-class", "-s", "--subsample", "--remove-coords", "-a" }));
            else if (tool == "spoc_transform") names.push_back (s.pick<std::string> ({ "--add-x", "--set", "-a", "--rotate-z", "--replace" }));
            else if (tool == "spoc_tool") { opts.clear (); names.push_back (s.pick<std::string> ({ "--get-field", "-s", "-f", "--resize-extra" })); }
            else if (tool == "spoc_srs") names.push_back (s.pick<std::string> ({ "-s", "--srs" }));
            else if (tool == "spoc_merge") names.push_back (s.pick<std::string> ({ "-p", "--point-id" }));
            else if (tool == "spoc_diff") names.push_back (s.pick<std::string> ({ "-f", "--field" }));
            else if (tool == "spoc_tile") names.push_back (s.pick<std::string> ({ "-t", "--digits", "--prefix", "-s", "-x" }));
            else { what = "an argument to a flag"; shuffle_in (s.pick<std::string> ({ "--verbose=1", "--help=yes", "--version=0" })); }
            break;
        case 2:
            what = "too many arguments";
            if (j.kind == job::IN_OUT || j.kind == job::IN_ONLY) names = { f_in, out, cli::path ("third") };
            else if (tool == "spoc_diff") names.push_back (f_in);
            else if (tool == "spoc_tile") names.push_back (f_2);
            else if (j.kind == job::SRS_SET) names = { f_in, out, cli::path ("third") };
            else { what = "a missing file"; names.push_back (none); }
            break;
        case 3:
        {
            what = "an unreadable input";
            const auto bad = s.pick<std::string> ({ none, nodir, dir, "/dev/null" });
            if (j.kind == job::SRS_SET) names = { bad, out };
            else if (files_only) names[s.draw (2)] = bad;
            else if (j.kind == job::PRINT_MANY) { names = { f_in }; names.insert (names.begin () + s.draw (2), bad); }
            else if (names.empty ()) names = { bad };
            else names[0] = bad;
            if (tool == "spoc_diff" && names[0] == names[1]) names[1] = f_2;
            break;
        }
        case 4:
            what = "an unwritable output";
            if (j.kind == job::IN_OUT || j.kind == job::SRS_SET) names = { f_in, s.pick<std::string> ({ nodir, dir, "/dev/full" }) };
            else if (tool == "spoc_tile") { if (j.c.r.empty ()) s.discard (); names = { f_in, "--prefix=" + nodir + "/t" }; }
            else
            {
                cli::opts o;
                o.out_file = "/dev/full";
                if (tool == "spoc_diff") s.discard ();
                NOTE (s, tool << " " << cli::shell_text (opts) << ": output to a full device");
                std::vector<std::string> a = { tool };
                a.insert (a.end (), opts.begin (), opts.end ());
                a.insert (a.end (), names.begin (), names.end ());
                const auto whole = cli::run (a, in);
                if (!whole.ok () || whole.out.empty ()) s.discard ();
                const auto r = run_safe (a, in, files, o);
                CHECK_MSG (r.rejected () && !r.err.empty (), cli::shell_text (a) << " with its output to a full device: " << r.text ());
                s.nontrivial ();
                s.label (tool);
                return;
            }
            break;
        default:
            what = "options that do not fit";
            if (tool == "spoc_tool") { if (s.coin ()) opts = { "--recenter-xy", "--subtract-min-xy" }; else opts.clear (); }
            else if (tool == "spoc_transform") opts.clear ();
            else if (tool == "spoc_diff") { if (s.coin ()) opts = { "-a", "-d" }; else { names = { f_in }; what = "a missing argument"; } }
            else if (tool == "spoc_merge") { names = { f_in }; if (s.coin ()) names.clear (); what = "a missing argument"; }
            else if (tool == "spoc_tile") { if (s.coin ()) opts = { "-s", "2", "-x", "3" }; else { names.clear (); what = "standard input without a prefix"; } }
            else if (j.kind == job::SRS_SET) { names = { f_in }; what = "a missing argument"; }
            else s.discard ();
    }
    std::vector<std::string> a = { tool };
    a.insert (a.end (), opts.begin (), opts.end ());
    a.insert (a.end (), names.begin (), names.end ());
    NOTE (s, what << ": " << cli::shell_text (a));
    s.label (what);
    s.nontrivial ();
    cli::opts o;
    o.cwd = dir;
    const auto r = run_safe (a, in, files, o);
    CHECK_MSG (r.rejected () && !r.err.empty (), what << ": " << cli::shell_text (a) << ": " << r.text ());
    CHECK_MSG (cli::ls (dir).empty (), what << ": " << cli::shell_text (a) << " left files");
}

// ---- one file as input and output ----
PROP (in_place, 1500, "the file is replaced, and with other bytes")
{
    const auto &tool = s.pick<std::string> ({ "spoc_compress", "spoc_decompress", "spoc_filter", "spoc_tool", "spoc_srs" });
    job j;
    do j = gen_job (s, tool); while (j.kind != job::IN_OUT && j.kind != job::SRS_SET);
    auto in = encode (j.c);
    const unsigned damage = s.draw (8);
    if (damage == 0) in.resize (s.draw (in.size ()));
    if (damage == 1) in[s.draw (6)] ^= 0x55;
    if (damage == 2 && (tool == "spoc_compress" || tool == "spoc_decompress")) { auto d = j.c; d.compressed = !d.compressed; in = encode (d); }
    if (damage == 3) j.opts.push_back ("--unknown");
    for (const auto &f : j.side) cli::put (cli::path (f.first), f.second);
    NOTE (s, tool << " " << cli::shell_text (j.opts) << " on " << j.c.r.size () << " records, damage " << damage);
    s.label (tool);
    std::vector<std::string> a = { tool };
    a.insert (a.end (), j.opts.begin (), j.opts.end ());
    const auto f = cli::path ("same.spoc");
    cli::put (f, in);
    const auto want = cli::run (a, in);
    auto name = f;
    if (s.chance (1, 4)) { name = cli::path ("link"); unlink (name.c_str ()); if (symlink (f.c_str (), name.c_str ())) throw std::runtime_error ("harness: symlink"); }
    a.push_back (f);
    a.push_back (name);
    const auto r = cli::run (a, "");
    CHECK_MSG (r.ok () == want.ok () && r.exited () && r.status != 77, cli::shell_text (a) << ": " << r.text () << "; through standard streams: " << want.text ());
    const auto now = cli::get (f);
    if (r.ok ()) CHECK_MSG (now == want.out, cli::shell_text (a) << " leaves " << now.size () << " bytes, not the " << want.out.size () << " it writes to standard output");
    else CHECK_MSG (now == in, cli::shell_text (a) << " fails and leaves " << now.size () << " bytes in place of the " << in.size () << " of its input");
    s.label_if (!r.ok (), "refused");
    if (r.ok () && now != in) s.nontrivial ();
}

// ---- help and version ----
PROP (help, 1200, "all")
{
    const auto &tool = tools ()[s.draw (tools ().size ())];
    static const std::map<std::string, std::vector<std::string>> own = {
        { "spoc_compress", {} }, { "spoc_decompress", {} }, { "spoc_diff", { "header-only", "data-only", "field", "reverse" } },
        { "spoc_filter", { "keep-class", "remove-class", "unique-xyz", "subsample", "remove-coords", "random-seed" } },
        { "spoc_info", { "json", "header-info", "summary-info", "classification-info", "metric-info", "compact", "quartiles" } },
        { "spoc_merge", { "quiet", "point-id" } }, { "spoc_srs", { "srs" } }, { "spoc_tile", { "force", "tiles", "digits", "tile-size", "tile-size-x", "tile-size-y", "prefix" } },
        { "spoc_tool", { "get-field", "recenter-xy", "recenter-xyz", "resize-extra", "set-field", "field-filename", "subtract-min-xy", "subtract-min-xyz", "upsample-classifications", "resolution" } },
        { "spoc_transform", { "add-x", "copy-field", "gaussian-noise", "quantize-xyz", "random-seed", "replace", "replace-not", "rotate-z", "scale-y", "set", "uniform-noise-z" } } };
    const bool help = s.coin ();
    std::vector<std::string> a = { tool };
    if (s.chance (1, 3)) a.push_back (s.coin () ? "-v" : "--verbose");
    a.push_back (help ? (s.coin () ? "-h" : "--help") : (s.coin () ? "-e" : "--version"));
    const auto in = cli::path ("in.spoc"), out = cli::path ("hout.spoc");
    const std::string bytes = encode (gen_input (s, 0));
    cli::put (in, bytes);
    unlink (out.c_str ());
    const unsigned names = s.draw (4);
    if (names == 1) a.push_back (in);
    if (names == 2) { a.push_back (in); if (tool != "spoc_tile") a.push_back (out); }
    if (names == 3) a.push_back (cli::path ("missing"));
    NOTE (s, cli::shell_text (a));
    s.nontrivial ();
    s.label (help ? "help" : "version");
    // the input stays open, and nothing comes
    cli::session p (a);
    const auto r = p.finish (30);
    CHECK_MSG (!r.timed_out, cli::shell_text (a) << " waits for input; no progress");
    CHECK_MSG (r.ok (), cli::shell_text (a) << ": " << r.text ());
    CHECK_MSG (!cli::exists (out) && cli::get (in) == bytes, cli::shell_text (a) << " touched its files");
    if (!help) CHECK_MSG (r.out == "Version 0.1\n", cli::shell_text (a) << " prints '" << pbt::tail (r.out, 200) << "'");
    else
    {
        CHECK_MSG (r.out.find ("SPOC") != 0, "help writes a SPOC file");
        const auto t = r.out + r.err;
        for (std::string o : { "help", "verbose", "version" }) CHECK_MSG (t.find ("--" + o) != std::string::npos, cli::shell_text (a) << " does not mention --" << o);
        for (const auto &o : own.at (tool)) CHECK_MSG (t.find ("--" + o) != std::string::npos, cli::shell_text (a) << " does not mention --" << o);
    }
}

PBT_MAIN
