// C21: keeping and removing classes partition the records
#include "lib.h"
#include "cli.h"
#include "filter.h"
#include <unordered_set>
using namespace lib;
namespace fa = spoc::filter_app;

// Classes: mostly ones that occur, and ones close to them
static std::vector<uint32_t> gen_classes (pbt::Source &s, const cloud &c, unsigned max)
{
    std::vector<uint32_t> v;
    auto b = s.sub ();
    const unsigned n = s.chance (1, 15) ? s.range (0, 300) : s.range (0, max);
    for (unsigned k = 0; k < n; ++k)
    {
        uint32_t x = any_int<uint32_t> (b);
        if (!c.r.empty () && b.chance (2, 3)) x = c.r[b.below (c.r.size ())].c;
        if (b.chance (1, 8)) x ^= uint32_t (1) << b.below (32);
        if (b.chance (1, 10)) ++x;
        v.push_back (x);
    }
    return v;
}
static cloud gen (pbt::Source &s, uint64_t max)
{
    gen_opts o;
    o.max_points = max;
    o.max_extras = s.chance (1, 10) ? 255 : 4;
    auto c = gen_cloud (s, o, -1, false);
    const unsigned mode = s.draw (3);
    auto b = s.sub ();
    static const uint32_t hi[] = { 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0, 1, 65536, 65535, 256 };
    for (auto &r : c.r) if (mode == 1) r.c = b.below (8); else if (mode == 2) r.c = hi[b.below (10)];
    s.label_if (mode == 2, "classes around 2^31 and 2^32");
    return c;
}
static cloud with (const cloud &c, const std::set<uint32_t> &k, bool keep)
{
    cloud w = c;
    w.r.clear ();
    for (const auto &r : c.r) if ((k.count (r.c) > 0) == keep) w.r.push_back (r);
    return w;
}
static void check_file (const spoc::file::spoc_file &f, const cloud &w, const std::string &what)
{
    check_same (from_file (f), w, what);
}

PROP (library, 150000, "some records are kept and some removed")
{
    const auto c = gen (s, s.rare (4) ? 140000 : 60);
    const auto v = gen_classes (s, c, 6);
    const std::set<uint32_t> k (v.begin (), v.end ());
    NOTE (s, c << " classes:"; for (auto x : k) o_ << " " << x);
    const auto kept = with (c, k, true), removed = with (c, k, false);
    if (!kept.r.empty () && !removed.r.empty ()) s.nontrivial ();
    const auto f = to_file (c);
    check_file (fa::keep_classes (f, k), kept, "keep_classes");
    check_file (fa::remove_classes (f, k), removed, "remove_classes");
    const std::unordered_set<int> ki (v.begin (), v.end ());
    check_file (fa::keep_classes (f, ki), kept, "keep_classes with a set of ints");
    check_file (fa::remove_classes (f, ki), removed, "remove_classes with a set of ints");
    // keeping then removing the same classes leaves nothing, keeping twice changes nothing
    CHECK (fa::remove_classes (fa::keep_classes (f, k), k).get_point_records ().empty ());
    check_file (fa::keep_classes (fa::keep_classes (f, k), k), kept, "keep_classes twice");
    check_file (f, c, "the input");
}

PROP (tool, 4000, "some records are kept and some removed")
{
    auto c = gen (s, 60);
    const auto k = gen_classes (s, c, 4), r = gen_classes (s, c, 4);
    std::vector<std::string> a;
    for (auto x : k) a.push_back ((s.coin () ? "--keep-class=" : "-k") + std::to_string (x));
    for (auto x : r) a.push_back ((s.coin () ? "--remove-class=" : "-r") + std::to_string (x));
    auto b = s.sub ();
    for (size_t j = a.size (); j > 1; --j) std::swap (a[j - 1], a[b.below (j)]);
    a.insert (a.begin (), "spoc_filter");
    NOTE (s, c << ": " << cli::shell_text (a));
    cloud w = c;
    if (!k.empty ()) w = with (w, { k.begin (), k.end () }, true);
    if (!r.empty ()) w = with (w, { r.begin (), r.end () }, false);
    if (!w.r.empty () && w.r.size () < c.r.size ()) s.nontrivial ();
    auto out = cli::run_cloud (a, encode (c));
    if (w.r.empty () && c.extras ()) { CHECK (out.r.empty () && out.wkt == c.wkt && out.compressed == c.compressed); return; }
    check_same (out, w, cli::shell_text (a));
}
PBT_MAIN
