// C48: processing time grows linearly with the number of points
#include "geom.h"
#include "lib.h"
#include "cli.h"
#include <malloc.h>
#include <sys/resource.h>
#include <omp.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include "spoc/affine.h"
#include "spoc/compression.h"
#include "spoc/extent.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
#include "diff.h"
#include "filter.h"
#include "info.h"
#include "merge.h"
#include "tile.h"
#include "tool.h"
#include "transform.h"
using namespace geom;
using spoc::file::spoc_file;
using spoc::point_record::point_records;

struct command { std::string name, params; };

// What an operation works on, made before its time is taken
struct world
{
    size_t n;
    double res;
    Ps p;
    point_records r;
    spoc_file f, packed, low;
    std::string bytes, packed_bytes, text;
    std::vector<uint8_t> raw, deflated;
    std::vector<size_t> order;
    spoc::extent::extent e;
    uint64_t seed;
};
static volatile size_t sunk;

static double now ()
{
    timespec t;
    // the clock of the process is coarse where its time is limited; one thread does the work
    clock_gettime (CLOCK_THREAD_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// A cloud of n points: about one in each cell of size 1
enum shape_kind { UNIFORM, LATTICE, FLAT, PLACES, SAME, FAR_AWAY, LINE_X, LINE_Y, LINE_Z, DIAGONAL, MIRRORED, COARSE, SORTED, REVERSED, SHAPES };
static const char *const SHAPE_NAMES[] = { "uniform", "lattice", "a plane", "a few places", "one place", "uniform, far away", "a line along x", "a line along y", "a line along z", "a diagonal", "mirrored about the origin", "a coarse lattice", "sorted", "in reverse order" };
static world make (size_t n, unsigned shape, unsigned extras, uint64_t seed)
{
    world w;
    pbt::Bulk b (seed);
    w.n = n;
    w.seed = seed;
    w.res = 1;
    const double side = shape == FLAT ? std::sqrt (double (n)) : std::cbrt (double (n));
    const size_t cells = size_t (side) + 1;
    for (size_t k = 0; k < n; ++k)
    {
        P q = mk (b.unit () * side, b.unit () * side, shape == FLAT ? 3 : b.unit () * side);
        if (shape == LATTICE) q = mk (double (k % cells) + 0.5, double (k / cells % cells) + 0.5, double (k / cells / cells) + 0.5);
        if (shape == PLACES) q = mk (double (b.below (8)), double (b.below (8)), double (b.below (8)));
        if (shape == DIAGONAL) { const double d = b.unit () * double (n); q = mk (d, d, d); }
        else if (shape >= LINE_X && shape <= LINE_Z) { q = mk (1, 2, 3); ax (q, shape - LINE_X) = b.unit () * double (n); }
        // the same numbers again, with other signs and on other axes
        if (shape == MIRRORED && k % 12)
        {
            const P &o = w.p[k - k % 12];
            static const int perms[3][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
            for (int a = 0; a < 3; ++a) ax (q, a) = ax (o, perms[k % 3][a]) * (k / 3 % 4 == unsigned (a) + 1 ? -1 : 1);
        }
        // multiples of a power of two
        if (shape == COARSE) q = mk (std::floor (q.x) * 1048576, std::floor (q.y) * 1048576, std::floor (q.z) * 1048576);
        if (shape == SAME) q = mk (1, 2, 3);
        if (shape == FAR_AWAY) { q.x += 500000; q.y += 4e6; }
        w.p.push_back (q);
    }
    if (shape == COARSE) w.res = 1048576;
    if (shape == SORTED || shape == REVERSED) std::sort (w.p.begin (), w.p.end ());
    if (shape == REVERSED) std::reverse (w.p.begin (), w.p.end ());
    w.r.reserve (n);
    for (size_t k = 0; k < n; ++k)
    {
        spoc::point_record::point_record q (w.p[k].x, w.p[k].y, w.p[k].z, seed & 4 ? uint32_t (b.below (20)) : uint32_t (k * 2654435761u), uint32_t (k), uint16_t (b.below (65536)), uint16_t (b.below (256)), 0, 7);
        q.extra.resize (extras);
        for (auto &x : q.extra) x = b.below (1000);
        w.r.push_back (q);
    }
    w.f = spoc_file ("wkt", false, w.r);
    w.packed = spoc_file ("wkt", true, w.r);
    w.low = w.f;
    return w;
}

struct operation
{
    const char *name;
    bool crowds;   // also where many points share a place
    std::function<void (world &)> prepare, run;
};
static const std::vector<operation> &operations ()
{
    using namespace spoc;
    static auto none = [] (world &) {};
    static auto enc = [] (world &w) { w.bytes = write (w.f); };
    static auto encp = [] (world &w) { w.packed_bytes = write (w.packed); };
    static auto ext = [] (world &w) { w.e = extent::get_extent (w.p); };
    static const std::vector<operation> o = {
        { "write", true, none, [] (world &w) { sunk = write (w.f).size (); } },
        { "write compressed", true, none, [] (world &w) { sunk = write (w.packed).size (); } },
        { "read", true, enc, [] (world &w) { sunk = read (w.bytes).get_point_records ().size (); } },
        { "read compressed", true, encp, [] (world &w) { sunk = read (w.packed_bytes).get_point_records ().size (); } },
        { "compress", true, enc, [] (world &w) { sunk = compression::compress (std::vector<uint8_t> (w.bytes.begin (), w.bytes.end ()), 1).size (); } },
        { "decompress", true, [] (world &w) { enc (w); w.deflated = compression::compress (std::vector<uint8_t> (w.bytes.begin (), w.bytes.end ()), 1); }, [] (world &w) { sunk = compression::decompress (w.deflated).size (); } },
        { "compress a stream", true, enc, [] (world &w) { std::stringstream i (w.bytes), o; compression::compress (i, o, 1); sunk = o.tellp (); } },
        { "push_back", true, none, [] (world &w) { spoc_file g ("w", false); for (const auto &q : w.r) g.push_back (q); sunk = g.get_point_records ().size (); } },
        { "set records one by one", true, none, [] (world &w) { for (size_t k = 0; k < w.n; ++k) w.f.set_point_record (w.n - 1 - k, w.r[k]); sunk = w.f.get_extra_fields (); } },
        { "copy, resize and columns", true, none, [] (world &w) { spoc_file g (w.f); g.resize_extra_fields (2); sunk = g.get_x ().size () + g.get_c ().size () + g.get_extra (1).size (); } },
        { "extent and rescaling", true, none, [] (world &w) { const auto e = extent::get_extent (w.p); if (e.maxp.x > e.minp.x && e.maxp.y > e.minp.y && e.maxp.z > e.minp.z) sunk = extent::restore (extent::rescale (w.p, e), e).size (); } },
        { "voxel indexes, set and map", true, ext, [] (world &w) { const auto v = voxel::get_voxel_indexes (w.p, w.res); sunk = voxel::get_voxel_index_set (v).size () + voxel::get_voxel_index_map (v).size (); } },
        { "subsample", true, none, [] (world &w) { sunk = subsampling::get_subsample_indexes (w.p, w.res, w.seed % 3).size (); } },
        { "subsample points", true, none, [] (world &w) { sunk = subsampling::subsample_points (w.r, w.res, w.seed % 3).size (); } },
        { "unique xyz", true, none, [] (world &w) { sunk = subsampling::get_unique_xyz_indexes (w.r, w.seed % 3).size (); } },
        { "radius search", false, none, [] (world &w) { size_t t = 0; radius_search::radius_search_all (w.p, w.res, [&] (size_t, const std::vector<size_t> &v) { t += v.size (); }, 8); sunk = t; } },
        { "radius search of a subset", false, [] (world &w) { w.order.clear (); for (size_t k = 0; k < w.n; k += 2) w.order.push_back (k); }, [] (world &w) { size_t t = 0; radius_search::radius_search_all_neighbors (w.p, w.order, w.res, [&] (size_t, const std::vector<size_t> &v) { t += v.size (); }, 64); sunk = t; } },
        { "affine and quantize", true, none, [] (world &w) { affine::rotate_z (w.p, 30); affine::add_x (w.p, 1); affine::scale_y (w.p, 2); utils::quantize (w.p, 0.01); sunk = w.p.size (); } },
        { "center and crop", true, ext, [] (world &w) { const auto c = utils::get_center (w.p); w.e.maxp = c; sunk = utils::crop (w.p, w.e).size (); } },
        { "keep and remove classes", true, none, [] (world &w) { const std::unordered_set<int> c = { 3, 4, 5, 77 }; sunk = filter_app::keep_classes (w.f, c).get_point_records ().size () + filter_app::remove_classes (w.f, c).get_point_records ().size (); } },
        { "remove coords", true, none, [] (world &w) { sunk = filter_app::remove_coords (w.f, "x > 3").get_point_records ().size (); } },
        { "filter unique and subsample", true, none, [] (world &w) { sunk = filter_app::subsample_file (filter_app::unique_xyz (w.f, 1), w.res, 1).get_point_records ().size (); } },
        { "transform", true, enc, [] (world &w) {
            const std::vector<command> c = { { "add-x", "1" }, { "rotate-z", "30" }, { "set", "p,3" }, { "replace", "c,3,4" }, { "uniform-noise", "0.1" } };
            std::stringstream i (w.bytes), o; transform_app::apply (i, o, c, 1); sunk = o.tellp (); } },
        { "info", true, none, [] (world &w) { std::ostringstream o; info_app::process (o, w.f, w.seed & 1, true, true, true, true, w.seed & 2, false); sunk = o.str ().size (); } },
        { "info with quartiles", true, none, [] (world &w) { std::ostringstream o; info_app::process (o, w.f, w.seed & 1, true, true, true, true, w.seed & 2, true); sunk = o.str ().size (); } },
        { "merge", true, none, [] (world &w) { spoc_file g ("wkt", false); merge_app::append (w.f, g, 1, true); merge_app::append (w.f, g, 2, true); sunk = g.get_point_records ().size (); } },
        { "diff", true, [] (world &w) { w.low = w.f; }, [] (world &w) { sunk = size_t (diff_app::diff (w.f, w.low)); } },
        { "tile", true, ext, [] (world &w) { const auto t = tile_app::get_tile_size (w.e, 20); sunk = tile_app::get_tile_map (tile_app::get_tile_indexes (w.p, w.e, t, t)).size (); } },
        { "small tiles", true, ext, [] (world &w) { sunk = tile_app::get_tile_map (tile_app::get_tile_indexes (w.p, w.e, 1.0, 1.0)).size (); } },
        { "get field", true, none, [] (world &w) { std::ostringstream o; tool_app::get_field (w.f, o, w.seed & 1 ? "x" : "p"); sunk = o.str ().size (); } },
        { "set field", true, [] (world &w) { std::ostringstream o; for (size_t k = 0; k < w.n; ++k) o << k << '\n'; w.text = o.str (); }, [] (world &w) { std::istringstream i (w.text); sunk = tool_app::set_field (w.f, i, w.seed & 1 ? "e3" : "y").get_extra_fields (); } },
        { "recenter and subtract minimum", true, none, [] (world &w) { sunk = tool_app::subtract_min (tool_app::recenter (w.f, true), true).get_extra_fields (); } },
        { "resize extra", true, none, [] (world &w) { sunk = tool_app::resize_extra (w.f, 3).get_extra_fields (); } },
        { "upsample", false, [] (world &w) { w.low = spoc_file ("wkt", false, subsampling::subsample_points (w.r, w.res, 0)); }, [] (world &w) { std::ostringstream l; sunk = tool_app::upsample_classifications (w.low, w.f, w.res, false, l).get_extra_fields (); } },
        { "encode and decode points", true, none, [] (world &w) { sunk = point::decode_points<double> (point::encode_points (w.p)).size (); } },
        { "compare", true, [] (world &w) { w.low = w.f; }, [] (world &w) { sunk = w.f.get_point_records () == w.low.get_point_records (); } },
    };
    return o;
}

// A measure of what the machine does with so many items: it fills and walks a hash map
static double reference (size_t n)
{
    const double t = now ();
    pbt::Bulk b (n);
    std::unordered_map<size_t, std::vector<size_t>> m;
    for (size_t k = 0; k < n; ++k) m[b.below (2 * n)].push_back (k);
    size_t s = 0;
    for (const auto &i : m) s += i.second.size ();
    sunk = s;
    return now () - t;
}

// How long the operation takes, as a multiple of the reference
// What takes more than 'cap' seconds is stopped: far beyond any limit below
static double measure (const operation &o, size_t n, unsigned shape, unsigned extras, uint64_t seed, unsigned times, double cap, double *raw = nullptr)
{
    double t = 1e300, r = 1e300;
    for (unsigned k = 0; k < times; ++k)
    {
        pbt::set_limit (20);
        auto w = make (n, shape, extras, seed);
        o.prepare (w);
        pbt::set_limit (cap);
        const double a = now ();
        o.run (w);
        t = std::min (t, now () - a);
        pbt::set_limit (200);
        r = std::min (r, reference (n));
    }
    if (raw) *raw = t;
    return t / r;
}

PROP_CPU (linear, 300, "every case: an operation on 6 250, 100 000 and 400 000 points", 200)
{
    omp_set_num_threads (1);
    // memory once given stays, so that the system's work for it is not measured
    mallopt (M_MMAP_THRESHOLD, 1 << 25);
    mallopt (M_TRIM_THRESHOLD, 1 << 30);
    const auto &all = operations ();
    const auto &o = all[s.draw (all.size ())];
    unsigned shape;
    do shape = unsigned (s.draw (SHAPES)); while (!o.crowds && (shape == PLACES || shape == SAME));
    const unsigned extras = unsigned (s.draw (4));
    const uint64_t seed = s.u64 ();
    NOTE (s, o.name << ", points: " << SHAPE_NAMES[shape] << ", " << extras << " extra fields");
    s.label (o.name);
    s.label (SHAPE_NAMES[shape]);
    s.nontrivial ();
    double raw = 0;
    const double start = now ();
    double r1 = std::max (0.05, measure (o, 6250, shape, extras, seed, 5, 40, &raw));
    for (const size_t n : { size_t (100000), size_t (400000) })
    {
        const double limit = n == 100000 ? 10 : 16;
        double r2 = 1e300;
        // noise of the machine is no failure: the best time counts, and of the small cloud the worst
        for (unsigned k = 0; k < 6; ++k)
        {
            if (k) r1 = std::max (r1, measure (o, 6250, shape, extras, seed, 2, 40));
            // a case takes some seconds at most
            const double left = std::max (5.0, 100 - (now () - start));
            r2 = std::min (r2, measure (o, n, shape, extras, seed, 1, std::min (left, std::clamp (100 * raw * (n / 6250), 20.0, 60.0))));
            if (r2 <= limit * r1 || (k && r2 > 10 * limit * r1)) break;
            usleep (100000);
        }
        CHECK_MSG (r2 <= limit * r1, o.name << " takes " << r2 / r1 << " (" << r2 << " / " << r1 << ") times longer per point with " << n << " points than with 6250");
    }
}

// ---- programs ----
static double children ()
{
    rusage u;
    getrusage (RUSAGE_CHILDREN, &u);
    return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6;
}
struct command_line { bool crowds, packed; std::vector<std::string> args; };
static const std::vector<command_line> &command_lines ()
{
    // A and B are files, and so are L (with fewer records) and T (with numbers); D is a directory for tiles
    static const std::vector<command_line> c = {
        { true, false, { "spoc_compress", "A", "O" } }, { true, true, { "spoc_decompress", "A", "O" } },
        { true, false, { "spoc_diff", "A", "B" } }, { true, true, { "spoc_diff", "-d", "A", "B" } }, { true, false, { "spoc_diff", "-fx", "-fb", "A", "B" } },
        { true, false, { "spoc_filter", "-k3", "-k5", "-k7", "A", "O" } }, { true, true, { "spoc_filter", "-r3", "-r400", "A", "O" } },
        { true, false, { "spoc_filter", "-u", "-a7", "A", "O" } }, { true, false, { "spoc_filter", "-s1", "-a5", "A", "O" } }, { true, false, { "spoc_filter", "-cx > 3", "A", "O" } },
        { true, false, { "spoc_info", "A" } }, { true, true, { "spoc_info", "-j", "A" } }, { true, false, { "spoc_info", "-q", "-c", "A" } }, { true, false, { "spoc_info", "-s", "A", "B" } },
        { true, false, { "spoc_merge", "A", "B" } }, { true, true, { "spoc_merge", "-p9", "A", "B" } }, { true, false, { "spoc_merge", "A", "A", "B", "B" } },
        { true, false, { "spoc_srs", "A" } }, { true, false, { "spoc_srs", "-sNEW", "A", "O" } },
        { true, false, { "spoc_tile", "-f", "-t4", "-pD", "A" } }, { true, true, { "spoc_tile", "-f", "-t9", "-pD", "A" } },
        { true, false, { "spoc_tool", "-gx", "A", "O" } }, { true, false, { "spoc_tool", "-sp", "-fT", "A", "O" } }, { true, false, { "spoc_tool", "--recenter-xyz", "A", "O" } },
        { true, false, { "spoc_tool", "--subtract-min-xy", "A", "O" } }, { true, false, { "spoc_tool", "--resize-extra=4", "A", "O" } },
        { false, false, { "spoc_tool", "--upsample-classifications=L", "--resolution=1", "A", "O" } },
        { true, false, { "spoc_transform", "--add-x=1", "--rotate-z=20", "--replace=c,1,2", "A", "O" } }, { true, false, { "spoc_transform", "--uniform-noise=1", "--set=p,7", "A", "O" } },
    };
    return c;
}
PROP_CPU (programs, 60, "every case: a program on 20 000 and 300 000 points", 300)
{
    omp_set_num_threads (1);
    const auto &all = command_lines ();
    const auto &c = all[s.draw (all.size ())];
    unsigned shape;
    do shape = unsigned (s.draw (SHAPES)); while (!c.crowds && (shape == PLACES || shape == SAME));
    const unsigned extras = unsigned (s.draw (4));
    const uint64_t seed = s.u64 ();
    NOTE (s, cli::shell_text (c.args) << ", points: " << SHAPE_NAMES[shape] << ", " << extras << " extra fields");
    s.label (c.args[0]);
    s.nontrivial ();
    const std::string ext = c.packed ? ".zpoc" : ".spoc";
    auto time = [&] (size_t n, unsigned times) {
        auto w = make (n, shape, extras, seed);
        const auto dir = cli::fresh_dir ("linear");
        cli::put (dir + "/A" + ext, write (c.packed ? w.packed : w.f));
        cli::put (dir + "/B" + ext, write (c.packed ? w.packed : w.f));
        std::string t;
        for (size_t k = 0; k < n; ++k) t += std::to_string (k * 7919 % n) + "\n";
        cli::put (dir + "/T", t);
        auto args = c.args;
        for (auto &a : args)
        {
            if (a == "A" || a == "B") a = dir + "/" + a + ext;
            if (a == "O") a = dir + "/O" + (c.args[0] == "spoc_compress" ? ".zpoc" : c.args[0] == "spoc_decompress" ? ".spoc" : ext);
            if (a == "-fT") a = "-f" + dir + "/T";
            if (a == "-pD") a = "-p" + dir + "/D";
            if (a.substr (0, 10) == "--upsample")
            {
                cli::put (dir + "/L.spoc", write (spoc_file ("wkt", false, spoc::subsampling::subsample_points (w.r, 1, 0))));
                a = "--upsample-classifications=" + dir + "/L.spoc";
            }
        }
        double t1 = 1e300, r = 1e300;
        for (unsigned k = 0; k < times; ++k)
        {
            cli::opts o;
            o.threads = 1;
            o.cpu_s = 60;
            const double t0 = children ();
            const auto q = cli::run (args, "", o);
            t1 = std::min (t1, children () - t0);
            CHECK_MSG (q.ok (), "with " << n << " points: " << q.text ());
            r = std::min (r, reference (n));
        }
        return t1 / r;
    };
    double r1 = std::max (1.0, time (20000, 3)), r2 = 1e300;
    for (unsigned k = 0; k < 5; ++k)
    {
        if (k) r1 = std::max (r1, time (20000, 2));
        r2 = std::min (r2, time (300000, 1));
        if (r2 <= 5 * r1 || (k && r2 > 50 * r1)) break;
        usleep (100000);
    }
    CHECK_MSG (r2 <= 5 * r1, "takes " << r2 / r1 << " (" << r2 << " / " << r1 << ") times longer per point with 300000 points than with 20000");
}

PBT_MAIN
