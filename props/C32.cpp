// C32: spoc_tile writes every point to exactly one file and never overwrites unasked
#include "tilejob.h"
using namespace geom;
using namespace tiles;

using namespace tilejob;

PROP (tool, 3000, "at least two tiles, one of them with several records")
{
    job j;
    if (!gen (s, j, true)) return s.discard ();
    const auto dir = cli::fresh_dir ("tiles");
    const auto r = run (j, dir, {});
    CHECK_MSG (r.ok (), "spoc_tile failed: " << r.text ());
    CHECK_MSG (r.out.empty (), "something was written to standard output");
    const auto files = cli::ls (dir);
    std::vector<std::string> w;
    for (const auto &f : j.want) w.push_back (f.first);
    CHECK_MSG (files == w, "the files are" << names (files) << ", expected" << names (w));
    for (const auto &f : j.want) check_same (decode_all (cli::get (dir + "/" + f.first), f.first), f.second, "tile " + f.first);
}

PROP (existing, 3000, "an existing file is in the way of a tile")
{
    job j;
    if (!gen (s, j, false)) return s.discard ();
    const bool force = s.coin ();
    const auto dir = cli::fresh_dir ("tiles");
    auto b = s.sub ();
    // other files, and files that are in the way
    std::map<std::string, std::string> before;
    before["unrelated"] = "U";
    before[j.prefix] = "P";
    before[j.prefix + j.ext] = "P";
    bool hit = false;
    const unsigned every = s.draw (5);
    for (const auto &f : j.want)
        if (every ? b.chance (1, every) : &f == &*j.want.rbegin ())
        {
            // something else, an older and longer tile, or nothing
            const std::string t = encode (f.second);
            static const char junk[] = "not a tile";
            before[f.first] = b.chance (1, 3) ? std::string () : b.chance (1, 2) ? std::string (junk) : t + t;
            hit = true;
        }
    for (const auto &f : before) cli::put (dir + "/" + f.first, f.second);
    if (hit) s.nontrivial ();
    s.label (force ? "forced" : hit ? "refused" : "nothing in the way");
    std::vector<std::string> more;
    if (force) more.push_back (s.coin () ? "--force" : "-f");
    NOTE (s, (force ? " --force" : "") << ", " << before.size () - 3 << " of " << j.want.size () << " tiles exist");
    const auto r = run (j, dir, more);
    if (hit && !force) CHECK_MSG (r.rejected () && !r.err.empty (), "a tile exists, but spoc_tile did not fail: " << r.text ());
    else CHECK_MSG (r.ok (), "spoc_tile failed: " << r.text ());
    std::set<std::string> present;
    for (const auto &fn : cli::ls (dir))
    {
        present.insert (fn);
        const auto t = cli::get (dir + "/" + fn);
        const auto old = before.find (fn);
        const auto w = j.want.find (fn);
        CHECK_MSG (old != before.end () || w != j.want.end (), "'" << fn << "' is no tile");
        if (old != before.end () && (!force || w == j.want.end ())) CHECK_MSG (t == old->second, "'" << fn << "' existed and was changed");
        else check_same (decode_all (t, fn), w->second, "tile " + fn);
    }
    for (const auto &f : before) CHECK_MSG (present.count (f.first), "'" << f.first << "' existed and is gone");
    if (force || !hit) for (const auto &f : j.want) CHECK_MSG (present.count (f.first), "there is no tile '" << f.first << "'");
}

PROP (errors, 800, "every case")
{
    // nothing may be written
    job j;
    if (!gen (s, j, false)) return s.discard ();
    s.nontrivial ();
    const auto dir = cli::fresh_dir ("tiles");
    const unsigned kind = s.draw (4);
    std::vector<std::string> more;
    cli::result r;
    if (kind == 0)
    {
        s.label ("contradicting sizes");
        more = { "--tile-size=2", s.coin () ? "--tile-size-x=3" : "--tile-size-y=3" };
        r = run (j, dir, more);
    }
    else if (kind == 1)
    {
        s.label ("no prefix for standard input");
        cli::opts o;
        o.cwd = dir;
        r = cli::run ({ "spoc_tile", "-t3" }, encode (j.c), o);
    }
    else if (kind == 2)
    {
        s.label ("no such input");
        cli::opts o;
        o.cwd = dir;
        r = cli::run ({ "spoc_tile", dir + "/missing.spoc" }, "", o);
    }
    else
    {
        s.label ("a tile is a directory");
        const auto &f = *j.want.begin ();
        mkdir ((dir + "/" + f.first).c_str (), 0700);
        if (s.coin ()) more.push_back ("--force");
        r = run (j, dir, more);
        rmdir ((dir + "/" + f.first).c_str ());
        // tiles written before it was met are complete
        for (const auto &fn : cli::ls (dir))
        {
            CHECK_MSG (j.want.count (fn), "'" << fn << "' is no tile");
            check_same (decode_all (cli::get (dir + "/" + fn), fn), j.want[fn], "tile " + fn);
            unlink ((dir + "/" + fn).c_str ());
        }
    }
    NOTE (s, " error " << kind);
    CHECK_MSG (r.rejected () && !r.err.empty (), "spoc_tile did not fail: " << r.text ());
    const auto files = cli::ls (dir);
    CHECK_MSG (files.empty (), "spoc_tile failed, but wrote" << names (files));
}
PBT_MAIN
