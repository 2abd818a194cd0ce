// C22: spoc_filter applies its filters in one fixed order and loses nothing else
#include "geom.h"
#include "cli.h"
using namespace geom;

struct plan
{
    std::vector<uint32_t> keep, remove;
    bool unique = false;
    std::string res, coords;
    uint64_t seed = 0;
    bool seeded = false;
};
static std::vector<std::string> args_for (pbt::Source &s, const plan &p, const std::set<std::string> &which)
{
    std::vector<std::string> a;
    if (which.count ("k")) for (auto k : p.keep) a.push_back ((s.coin () ? "--keep-class=" : "-k") + std::to_string (k));
    if (which.count ("r")) for (auto k : p.remove) a.push_back ((s.coin () ? "--remove-class=" : "-r") + std::to_string (k));
    if (which.count ("u") && p.unique) a.push_back (s.coin () ? "--unique-xyz" : "-u");
    if (which.count ("s") && !p.res.empty ()) a.push_back ((s.coin () ? "--subsample=" : "-s") + p.res);
    if (which.count ("c") && !p.coords.empty ()) a.push_back ((s.coin () ? "--remove-coords=" : "-c") + p.coords);
    if (p.seeded) a.push_back ((s.coin () ? "--random-seed=" : "-a") + std::to_string (p.seed));
    auto b = s.sub ();
    for (size_t j = a.size (); j > 1; --j) std::swap (a[j - 1], a[b.below (j)]);
    a.insert (a.begin (), "spoc_filter");
    return a;
}
static std::vector<rec> select (const std::vector<rec> &r, const std::function<bool (const rec &)> &f)
{
    std::vector<rec> w;
    for (const auto &q : r) if (f (q)) w.push_back (q);
    return w;
}

PROP (pipeline, 6000, "at least two filters each of which removes some records")
{
    shape sh;
    const uint64_t n = s.rare (5) ? s.range (66000, 140000) : s.range (0, 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (3));
    auto b = s.sub ();
    static const uint32_t plain[] = { 0, 1, 2, 3, 4, 5 }, odd[] = { 0, 256, 65536, 2147483647, 257, 1 };
    const uint32_t *cls = s.chance (3, 4) ? plain : odd;
    for (auto &r : c.r) r.c = cls[b.below (6)];
    plan p;
    if (s.coin ()) for (unsigned k = s.range (1, 5); k; --k) p.keep.push_back (cls[b.below (6)]);
    if (s.coin ()) for (unsigned k = s.range (1, 2); k; --k) p.remove.push_back (cls[b.below (6)]);
    p.unique = s.coin ();
    double res = 0, limit = 0;
    char axis = "xyz"[s.draw (3)], op = s.coin () ? '<' : '>';
    if (s.coin () && n)
    {
        char t[64];
        snprintf (t, sizeof t, s.coin () ? "%.17g" : "%.4g", gen_res (s, sh, geom::min_corner (v), geom::max_corner (v)));
        p.res = t;
        res = strtod (t, nullptr);
    }
    if (s.coin () && n)
    {
        limit = ax (v[s.draw (n)], axis - 'x');
        char t[64];
        snprintf (t, sizeof t, "%c %c %.17g", axis, op, limit);
        p.coords = t;
    }
    p.seeded = s.coin ();
    if (p.seeded && s.coin ()) p.seed = s.range (1, 1000000);
    const auto all = args_for (s, p, { "k", "r", "u", "s", "c" });
    NOTE (s, n << " points, " << sh.name << ": " << cli::shell_text (all));
    const auto in = encode (c);
    const auto raw = cli::run (all, in);
    CHECK_MSG (raw.ok (), cli::shell_text (all) << " failed: " << raw.text ());
    const auto out = decode_all (raw.out, "the output");
    CHECK (out.wkt == c.wkt && out.compressed == c.compressed);
    // the filters, one after another
    std::vector<rec> w = c.r;
    int effective = 0;
    size_t before = w.size ();
    auto step = [&] (const char *name, bool used) { if (used) s.label (name); if (w.size () < before) ++effective; before = w.size (); };
    if (!p.keep.empty ()) w = select (w, [&] (const rec &r) { return std::count (p.keep.begin (), p.keep.end (), r.c) > 0; });
    step ("keep", !p.keep.empty ());
    if (!p.remove.empty ()) w = select (w, [&] (const rec &r) { return std::count (p.remove.begin (), p.remove.end (), r.c) == 0; });
    step ("remove", !p.remove.empty ());
    auto rejected = [&] (const rec &r) { const double x = axis == 'x' ? r.x : axis == 'y' ? r.y : r.z; return !p.coords.empty () && (op == '<' ? x < limit : x > limit); };
    if (p.seed == 0)
    {
        if (p.unique)
        {
            std::set<std::array<double, 3>> seen;
            w = select (w, [&] (const rec &r) { return seen.insert ({ r.x + 0.0, r.y + 0.0, r.z + 0.0 }).second; });
        }
        step ("unique", p.unique);
        if (res > 0 && !w.empty ())
        {
            Ps q;
            for (const auto &r : w) q.push_back (mk (r.x, r.y, r.z));
            const P lo = geom::min_corner (q);
            std::set<vox> seen;
            w = select (w, [&] (const rec &r) { return seen.insert (geom::voxel_of (mk (r.x, r.y, r.z), lo, res)).second; });
        }
        step ("subsample", res > 0);
        w = select (w, [&] (const rec &r) { return !rejected (r); });
        step ("remove-coords", !p.coords.empty ());
        check_same_records (out.r, w, cli::shell_text (all));
    }
    else
    {
        std::set<uint32_t> ids;
        for (const auto &r : w) ids.insert (r.p);
        std::set<std::array<double, 3>> seen;
        for (const auto &r : out.r)
        {
            CHECK_MSG (r.p < n && same (r, c.r[r.p]), "an output record is not an input record: " << r);
            CHECK_MSG (ids.erase (r.p) == 1, "record " << r.p << " should have been rejected, or occurs twice");
            CHECK_MSG (!rejected (r), "record " << r << " should have been rejected by " << p.coords);
            if (p.unique) CHECK_MSG (seen.insert ({ r.x + 0.0, r.y + 0.0, r.z + 0.0 }).second, "two records at one location: " << r);
        }
        effective = (!p.keep.empty () + p.unique + (res > 0)) * (out.r.size () < n);
        s.label ("random seed");
    }
    if (effective >= 2) s.nontrivial ();
    // one filter at a time, with the same seed
    if (s.chance (1, 3))
    {
        std::string x = in;
        for (const char *k : { "k", "r", "u", "s", "c" })
        {
            const auto a = args_for (s, p, { k });
            if (a.size () == 1 + size_t (p.seeded)) continue;
            const auto r = cli::run (a, x);
            CHECK_MSG (r.ok (), cli::shell_text (a) << " failed: " << r.text ());
            x = r.out;
        }
        check_same_records (decode_all (x, "the output of separate filters").r, out.r, "one filter at a time");
        s.label ("compared with separate invocations");
    }
    if (p.keep.empty () && p.remove.empty () && !p.unique && p.res.empty () && p.coords.empty ())
    {
        check_same (out, c, "no filter");
        if (!c.compressed) CHECK_MSG (raw.out == in, "without a filter the output differs from the input");
        s.label ("no filter");
    }
}

PROP (no_filter, 1500, "at least one record, of any bit patterns")
{
    gen_opts o;
    o.max_extras = 255;
    const auto c = gen_cloud (s, o);
    const bool seed = s.coin ();
    NOTE (s, c);
    if (!c.r.empty ()) s.nontrivial ();
    std::vector<std::string> a { "spoc_filter" };
    if (seed) a.push_back ("-a7");
    const auto r = cli::run (a, encode (c));
    CHECK_MSG (r.ok (), r.text ());
    check_same (decode_all (r.out, "the output"), c, "no filter");
    if (!c.compressed) CHECK_MSG (r.out == encode (c), "the output differs from the input");
}
PBT_MAIN
