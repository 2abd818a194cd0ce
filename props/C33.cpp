// C33: merging concatenates and only sets point IDs
#include "geom.h"
#include "cli.h"
#include "merge.h"
using namespace geom;

// Files with the same extra fields, mostly also with the same WKT
static std::vector<cloud> gen_files (pbt::Source &s, unsigned n, uint64_t max, bool same_extras)
{
    std::vector<cloud> v;
    const unsigned extras = gen_extras (s, s.chance (1, 10) ? 255 : 20);
    const unsigned same_wkt = s.draw (3), comp = s.draw (3);
    const std::string wkt = gen_text_wkt (s);
    gen_opts o;
    o.max_points = max;
    o.max_extras = 0;
    unsigned other = extras;
    for (unsigned k = 0; k < n; ++k)
    {
        cloud c = gen_cloud (s, o);
        auto b = s.sub ();
        if (!same_extras && b.chance (1, 3)) other = b.chance (1, 2) ? std::min (extras + 1, 255u) : b.below (extras + 1);
        for (auto &r : c.r) for (unsigned e = 0; e < (same_extras ? extras : other); ++e) r.e.push_back (any_int<uint64_t> (b));
        if (comp == 1) c.compressed = true;
        if (comp == 2) c.compressed = false;
        if (same_wkt) c.wkt = wkt;
        if (same_wkt == 2 && b.chance (1, 4)) c.wkt += "x";
        v.push_back (c);
    }
    return v;
}
static bool extras_agree (const std::vector<cloud> &v)
{
    int n = -1;
    for (const auto &c : v) if (!c.r.empty ()) { if (n >= 0 && unsigned (n) != c.extras ()) return false; n = c.extras (); }
    return true;
}

PROP (library, 60000, "two non-empty files are appended")
{
    const unsigned n = s.chance (1, 100) ? s.range (5, 40) : s.range (1, 4);
    const auto v = gen_files (s, n, s.rare (4) ? 140000 : 3 + s.size () / 2, s.chance (3, 4));
    const bool quiet = s.coin ();
    spoc::file::spoc_file f;
    cloud w;
    w.wkt = s.coin () ? v[0].wkt : "other";
    w.compressed = s.coin ();
    f.set_wkt (w.wkt);
    f.set_compressed (w.compressed);
    size_t filled = 0;
    auto b = s.sub ();
    for (unsigned k = 0; k < n; ++k)
    {
        const unsigned id = b.chance (1, 3) ? k : any_int<uint32_t> (b);
        const auto src = to_file (v[k]);
        std::ostringstream log;
        bool threw = false;
        try { spoc::merge_app::append (src, f, id, quiet, log); } catch (const std::exception &) { threw = true; }
        const bool clash = !w.r.empty () && !v[k].r.empty () && w.extras () != v[k].extras ();
        CHECK_MSG (threw == clash, "appending a file with " << v[k].extras () << " extra fields to one with " << w.extras () << (threw ? " threw" : " did not throw"));
        check_same (from_file (src), v[k], "the file that was appended");
        const bool warned = !log.str ().empty ();
        if (!threw) CHECK_MSG (warned == (!quiet && v[k].wkt != w.wkt), (warned ? "a warning" : "no warning") << " for WKTs that are " << (v[k].wkt == w.wkt ? "equal" : "different") << (quiet ? ", quietly" : ""));
        if (threw) { s.label ("refused"); break; }
        for (auto r : v[k].r) { r.p = id; w.r.push_back (r); }
        filled += !v[k].r.empty ();
        NOTE (s, "append " << v[k].r.size () << " records as " << id << "; ");
        check_same (from_file (f), w, "the result of appending");
    }
    if (filled > 1) s.nontrivial ();
}

static std::vector<std::string> save (const std::vector<cloud> &v)
{
    std::vector<std::string> fn;
    for (size_t k = 0; k < v.size (); ++k)
    {
        fn.push_back (cli::path ("m" + std::to_string (k)));
        cli::put (fn.back (), encode (v[k]));
    }
    return fn;
}

PROP (tool, 3000, "two non-empty files are merged")
{
    const unsigned n = s.chance (1, 60) ? s.range (200, 300) : s.range (2, s.chance (1, 8) ? 12 : 4);
    const auto v = gen_files (s, n, 3 + s.size () / 2, s.chance (5, 6));
    auto fn = save (v);
    std::vector<size_t> order;
    for (unsigned k = 0; k < n; ++k) order.push_back (k);
    if (s.chance (1, 6)) order[0] = order[n - 1]; // the same file twice
    std::vector<std::string> a { "spoc_merge" };
    bool quiet = false;
    int64_t id = -1;
    if (s.chance (1, 3)) { quiet = true; a.push_back (s.coin () ? "-q" : "--quiet"); }
    if (s.chance (1, 2))
    {
        id = s.coin () ? s.draw (5) : s.range (0, INT32_MAX);
        a.push_back ((s.coin () ? "-p" : "--point-id=") + std::to_string (id));
    }
    if (s.chance (1, 3)) a.push_back (s.coin () ? "-v" : "--verbose");
    for (auto k : order) a.push_back (fn[k]);
    if (s.coin ()) std::rotate (a.begin () + 1, a.begin () + a.size () - n, a.end ()); // options last
    cloud w;
    w.wkt = v[order[0]].wkt;
    w.compressed = true;
    std::vector<cloud> used;
    bool differ = false;
    size_t filled = 0;
    for (size_t k = 0; k < n; ++k)
    {
        const auto &c = v[order[k]];
        used.push_back (c);
        if (!c.compressed) w.compressed = false;
        if (c.wkt != w.wkt) differ = true;
        if (!c.r.empty ()) ++filled;
        for (auto r : c.r) { r.p = id >= 0 ? uint32_t (id) : uint32_t (k); w.r.push_back (r); }
    }
    if (filled > 1) s.nontrivial ();
    s.label_if (filled && w.compressed, "compressed");
    s.label_if (differ, "WKTs differ");
    NOTE (s, cli::shell_text (a) << " of " << n << " files with " << w.r.size () << " records in all");
    const auto r = cli::run (a);
    if (!extras_agree (used))
    {
        s.label ("extra fields differ");
        CHECK_MSG (r.rejected () && !r.err.empty (), "files with different extra fields were merged: " << r.text ());
        CHECK_MSG (r.out.empty (), "spoc_merge failed, but wrote " << r.out.size () << " bytes");
        return;
    }
    CHECK_MSG (r.ok (), "spoc_merge failed: " << r.text ());
    check_same (decode_all (r.out, "the merged file"), w, "the merged file");
    bool warned = false;
    std::istringstream e (r.err);
    std::string l;
    while (std::getline (e, l)) if (l.find ("WARNING") != std::string::npos && l.find ("99%") == std::string::npos) warned = true;
    CHECK_MSG (warned == (differ && !quiet), (warned ? "a warning" : "no warning") << " for WKTs that are " << (differ ? "different" : "equal") << (quiet ? ", quietly: " : ": ") << r.err);
    if (quiet) CHECK_MSG (r.err.find ("WARNING") == std::string::npos, "a warning in spite of --quiet: " << r.err);
    for (size_t k = 0; k < n; ++k) CHECK_MSG (cli::get (fn[k]) == encode (v[k]), "an input file was changed");
}

PROP (arguments, 500, "every case")
{
    const auto v = gen_files (s, 2, 5, true);
    const auto fn = save (v);
    s.nontrivial ();
    std::vector<std::string> a { "spoc_merge" };
    const unsigned kind = s.draw (3);
    if (kind) a.push_back (fn[s.draw (2)]);
    if (kind == 2) a.insert (s.coin () ? a.begin () + 1 : a.end (), cli::path ("missing"));
    NOTE (s, cli::shell_text (a));
    const auto r = cli::run (a);
    CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), cli::shell_text (a) << " did not fail: " << r.text ());
}

PROP (tiles, 1200, "at least two tiles")
{
    shape sh;
    const uint64_t n = s.range (2, 20 + s.size ());
    const auto p = gen_points (s, n, sh);
    cloud c;
    c.r = records_at (s, p, s.draw (3));
    c.wkt = gen_text_wkt (s);
    c.compressed = s.coin ();
    const unsigned t = s.range (2, 6);
    const auto dir = cli::fresh_dir ("tiles");
    NOTE (s, n << " points, " << sh.name << ", " << t << " tiles");
    const auto r = cli::run ({ "spoc_tile", "--prefix=" + dir + "/t", "--tiles=" + std::to_string (t) }, encode (c));
    CHECK_MSG (r.ok (), "spoc_tile failed: " << r.text ());
    std::vector<std::string> a { "spoc_merge" };
    for (const auto &f : cli::ls (dir)) a.push_back (dir + "/" + f);
    if (a.size () < 3) return s.discard ();
    s.nontrivial ();
    auto m = cli::run_cloud (a, "");
    CHECK_MSG (m.wkt == c.wkt && m.compressed == c.compressed, "the WKT or the compressed flag of the merged tiles differs");
    CHECK_MSG (m.r.size () == n, "the merged tiles have " << m.r.size () << " records, the file " << n);
    const auto key = [] (const rec &r) { return std::make_tuple (bits (r.x), bits (r.y), bits (r.z), r.c, r.i, r.r, r.g, r.b, r.e); };
    std::vector<decltype (key (rec ()))> x, y;
    for (const auto &q : c.r) x.push_back (key (q));
    for (const auto &q : m.r) y.push_back (key (q));
    std::sort (x.begin (), x.end ());
    std::sort (y.begin (), y.end ());
    CHECK_MSG (x == y, "the merged tiles have other records than the file");
}
PBT_MAIN
