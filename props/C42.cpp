// C42: results do not depend on the number of threads, nor on earlier calls
#include "geom.h"
#include "cli.h"
#include <omp.h>
#include "spoc/affine.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
using namespace geom;
namespace rsx = spoc::radius_search;

// FNV over whatever an operation shows
struct digest
{
    uint64_t h = 1469598103934665603ull;
    void u (uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
    void d (double v) { u (bits (v)); }
    void str (const std::string &t) { u (t.size ()); for (unsigned char c : t) u (c); }
    void pts (const Ps &v) { u (v.size ()); for (const auto &p : v) { d (p.x); d (p.y); d (p.z); } }
    void r (const rec &q) { d (q.x); d (q.y); d (q.z); u (q.c); u (q.p); u (q.i); u (q.r); u (q.g); u (q.b); u (q.e.size ()); for (auto e : q.e) u (e); }
};
static std::vector<int> gen_threads (pbt::Source &s)
{
    std::vector<int> t = { 1 };
    for (unsigned k = s.range (2, 4); k; --k) t.push_back (s.pick ({ 2, 3, 4, 5, 7, 8, 12, 16 }));
    t.push_back (1);
    return t;
}
// The same operation under each thread count, other calls in between
static void compare (pbt::Source &s, const std::string &what, const std::function<uint64_t ()> &f, const std::function<void ()> &other)
{
    const auto threads = gen_threads (s);
    uint64_t want = 0;
    bool first = true;
    for (int t : threads)
        for (int rep = 0; rep < 2; ++rep)
        {
            omp_set_num_threads (t);
            uint64_t got;
            got = f ();
            CHECK_MSG (first || got == want, what << ": another result with " << t << " threads" << (rep ? " on the second call" : "") << " than with " << threads[0]);
            want = got;
            first = false;
            if (rep == 0) other ();
        }
    omp_set_num_threads (2);
}
static uint64_t big_count (pbt::Source &s, uint64_t hi)
{
    const unsigned k = s.draw (4);
    return k == 0 ? s.range (0, 40) : k == 1 ? s.range (0, std::min<uint64_t> (hi, 600)) : s.range (0, hi * (s.size () + 4) / 104);
}

// ---- reading and writing, whole and damaged ----
PROP (io, 1200, "compressed files of at least 100 records")
{
    gen_opts o;
    cloud c;
    c.compressed = s.chance (5, 6);
    c.wkt = gen_text_wkt (s);
    const unsigned extras = gen_extras (s, pbt::env ().variant == "rel" ? 255 : 10); // every column takes a megabyte to pass through
    const uint64_t n = big_count (s, extras > 10 ? 300 : 5000);
    c.r = gen_records (s, n, extras, o);
    const auto f = to_file (c);
    auto bytes = encode (c);
    auto broken = bytes;
    const unsigned damage = s.draw (3);
    const size_t hs = enc_header (c.wkt, extras, n, c.compressed).size ();
    if (damage && broken.size () > hs)
    {
        auto b = s.sub ();
        if (damage == 1) broken.resize (hs + b.below (broken.size () - hs));
        else if (c.compressed)
        {
            // inside the column streams, leaving their lengths
            for (size_t at = hs; at + 8 <= bytes.size ();)
            {
                const uint64_t len = src (bytes, at).un (8);
                at += 8;
                if (len && b.chance (1, 3)) broken[at + b.below (len)] ^= 1 << b.below (8);
                at += len;
            }
        }
    }
    gen_opts po;
    po.max_points = 50;
    const auto d = gen_cloud (s, po, -1, false);
    const auto g = to_file (d);
    NOTE (s, n << " records, " << extras << " extras, " << (c.compressed ? "compressed" : "uncompressed") << ", damage " << damage);
    compare (s, "writing", [&] { digest h; h.str (lib::write (f)); return h.h; }, [&] { lib::write (g); });
    const auto dbytes = encode (d);
    auto reading = [&] (const std::string &t) {
        digest h;
        try
        {
            const auto q = lib::read (t);
            h.str (q.get_wkt ());
            h.u (q.get_compressed ());
            for (const auto &p : q.get_point_records ()) h.r (from_pr (p));
        }
        catch (const std::exception &) { h.u (12345); }
        return h.h;
    };
    compare (s, "reading", [&] { return reading (bytes); }, [&] { reading (dbytes); });
    if (broken != bytes)
    {
        cloud x;
        size_t at = 0;
        const auto e = decode (broken, x, at);
        s.label_if (!e.empty (), "damaged");
        compare (s, "reading a damaged file (" + e + ")", [&] { return reading (broken); }, [&] { reading (dbytes); });
    }
    if (c.compressed && n >= 100) s.nontrivial ();
    s.label (c.compressed ? "compressed" : "uncompressed");
}

// ---- geometry ----
static void geometry (pbt::Source &s, uint64_t hi)
{
    shape sh, sh2;
    const uint64_t n = 1 + big_count (s, hi);
    const Ps v = gen_points (s, n, sh);
    const Ps w = gen_points (s, s.range (1, 30), sh2);
    const unsigned op = s.draw (7);
    const double res = gen_res (s, sh, geom::min_corner (v), geom::max_corner (v));
    const double res2 = gen_res (s, sh2, geom::min_corner (w), geom::max_corner (w));
    std::vector<size_t> some;
    auto b = s.sub ();
    for (size_t k = 0; k < n; ++k) if (b.chance (1, 2)) some.push_back (b.below (n));
    const double a = s.pick ({ 0.0, 1.0, -3.5, 30.0, 0.001, 1e6 });
    const size_t seed = s.draw (3);
    static const char *names[] = { "voxel indexes", "quantize", "add and scale", "rotate", "subsample", "unique", "radius search" };
    NOTE (s, names[op] << " of " << n << " points, " << sh.name << ", resolution " << res << ", argument " << a);
    s.label (names[op]);
    auto vox = [] (const auto &r, digest &h) { h.u (r.size ()); for (const auto &x : r) { h.u (x.i); h.u (x.j); h.u (x.k); } };
    auto work = [&] (const Ps &p, const std::vector<size_t> &idx, double r) -> uint64_t {
        digest h;
        Ps q = p;
        switch (op)
        {
            case 0:
                vox (spoc::voxel::get_voxel_indexes (p, r), h);
                vox (spoc::voxel::get_voxel_indexes (p, idx, r), h);
                { const auto ix = spoc::voxel::get_voxel_indexes (p, r);
                  auto m = spoc::voxel::get_voxel_index_map (ix);
                  uint64_t sum = 0;
                  for (const auto &e : m) { digest g; g.u (e.first.i); g.u (e.first.j); g.u (e.first.k); for (auto j : e.second) g.u (j); sum += g.h; }
                  h.u (sum); h.u (m.size ()); }
                break;
            case 1: spoc::utils::quantize (q, r); h.pts (q); break;
            case 2:
                spoc::affine::add_x (q, a); spoc::affine::add_y (q, -a); spoc::affine::add_z (q, a + 1);
                spoc::affine::add (q, mk (a, 2 * a, 3));
                spoc::affine::scale_x (q, a); spoc::affine::scale_y (q, 0.1); spoc::affine::scale_z (q, -a);
                h.pts (q); break;
            case 3: spoc::affine::rotate_x (q, a); spoc::affine::rotate_y (q, a + 1); spoc::affine::rotate_z (q, -a); h.pts (q); break;
            case 4: for (auto j : spoc::subsampling::get_subsample_indexes (p, r, seed)) h.u (j); h.pts (spoc::subsampling::subsample_points (p, r, seed)); break;
            case 5: for (auto j : spoc::subsampling::get_unique_xyz_indexes (p, seed)) h.u (j); break;
            default:
            {
                const size_t limit = 1 + size_t (std::abs (a)) % 40;
                std::vector<std::vector<size_t>> g (p.size ());
                auto op = [&] (size_t i, const std::vector<size_t> &x) { g.at (i) = x; };
                rsx::radius_search_all (p, r, op, limit);
                for (const auto &x : g) { h.u (x.size ()); for (auto j : x) h.u (j); }
                std::vector<std::vector<size_t>> g2 (idx.size ());
                auto op2 = [&] (size_t i, const std::vector<size_t> &x) { g2.at (i) = x; };
                rsx::radius_search_all_neighbors (p, idx, r, op2, limit);
                for (const auto &x : g2) { h.u (x.size ()); for (auto j : x) h.u (j); }
            }
        }
        return h.h;
    };
    double r = res;
    if (op == 6)
    {
        // voxels with very many points make every search slow
        r = sh.unit * s.pick ({ 1.0, 0.5, 2.0 });
        const double side = std::max ({ geom::max_corner (v).x - geom::min_corner (v).x, geom::max_corner (v).y - geom::min_corner (v).y, geom::max_corner (v).z - geom::min_corner (v).z });
        double m = 0; for (const auto &p : v) for (int k = 0; k < 3; ++k) m = std::max (m, std::abs (ax (p, k)));
        if (std::max (m, side) / r > 1e13) r = std::max (m, side) / 1e13;
        if (n > 2000) s.discard ();
    }
    const Ps copy = v;
    compare (s, names[op], [&] { return work (v, some, r); }, [&] { if (op != 6) work (w, {}, res2); });
    for (size_t k = 0; k < n; ++k) CHECK_MSG (geom::same_bits (v[k], copy[k]), "point " << k << " of the argument changed");
    if (n >= 100) s.nontrivial ();
}
PROP (library, 15000, "at least 100 points") { geometry (s, 1500); }
PROP (large, 2500, "at least 100 points") { geometry (s, 40000); }

// ---- the applications ----
PROP (tools, 3000, "at least 100 records")
{
    shape sh;
    const uint64_t n = 1 + big_count (s, 3000);
    const Ps v = gen_points (s, n, sh);
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (4));
    auto b = s.sub ();
    for (auto &r : c.r) { r.c = b.below (5); }
    const auto res = [&] { char t[40]; snprintf (t, sizeof t, "%.17g", gen_res (s, sh, geom::min_corner (v), geom::max_corner (v))); return std::string (t); } ();
    const unsigned op = s.draw (12);
    const auto seed = "--random-seed=" + std::to_string (s.draw (3));
    std::vector<std::string> a;
    std::string in;
    const auto lo = cli::path ("lo.spoc"), f1 = cli::path ("f1.spoc"), f2 = cli::path ("f2.spoc");
    bool directory = false;
    switch (op)
    {
        case 0: a = { "spoc_compress" }; c.compressed = false; break;
        case 1: a = { "spoc_decompress" }; c.compressed = true; break;
        case 2: a = { "spoc_filter", "--subsample=" + res, seed }; break;
        case 3: a = { "spoc_filter", "--unique-xyz", seed, "-k1", "-k2" }; break;
        case 4: a = { "spoc_transform", "--quantize-xyz=" + res, "--rotate-z=33", "--add-x=1.5" }; c.compressed = false; break;
        case 5: a = { "spoc_transform", "--gaussian-noise=2", "--uniform-noise-x=1", seed }; c.compressed = false; break;
        case 6: a = { "spoc_tool", s.coin () ? "--recenter-xyz" : "--subtract-min-xy" }; break;
        case 7:
        {
            // the low-resolution cloud must lie within this one
            cloud d = c;
            d.r.clear ();
            for (const auto &r : c.r) if (b.chance (1, 3)) d.r.push_back (r);
            if (d.r.empty ()) d.r.push_back (c.r[0]);
            cli::put (lo, encode (c));
            cloud t = d;
            a = { "spoc_tool", "--upsample-classifications=" + lo, "--resolution=" + res };
            in = encode (t);
            break;
        }
        case 8: a = { "spoc_info", s.coin () ? "--json" : "--verbose" }; break;
        case 9: a = { "spoc_merge", f1, f2 }; cli::put (f1, encode (c)); cli::put (f2, encode (c)); break;
        case 10: a = { "spoc_diff", f1, f2 }; cli::put (f1, encode (c)); if (s.coin ()) c.r[s.draw (n)].p ^= 1; cli::put (f2, encode (c)); break;
        default: a = { "spoc_tile" }; directory = true; break;
    }
    if (in.empty ()) in = encode (c);
    NOTE (s, cli::shell_text (a) << " on " << n << " records, " << sh.name);
    s.label (a[0]);
    auto once = [&] (int threads) {
        cli::opts o;
        o.threads = threads;
        std::string t;
        if (directory)
        {
            const auto d = cli::fresh_dir ("tiles");
            const auto r = cli::run ({ "spoc_tile", "--prefix=" + d + "/t", "--tiles=3" }, in, o);
            CHECK_MSG (r.exited (), r.text ());
            t = std::to_string (r.status) + r.out;
            for (const auto &f : cli::ls (d)) t += "|" + f + "|" + cli::get (d + "/" + f);
            return t;
        }
        const auto r = cli::run (a, in, o);
        CHECK_MSG (r.exited (), cli::shell_text (a) << ": " << r.text ());
        return std::to_string (r.status) + " " + r.out;
    };
    const auto want = once (1);
    for (unsigned k = s.range (1, 2); k; --k)
    {
        const int t = s.pick ({ 2, 3, 4, 7, 8, 16, 1 });
        const auto got = once (t);
        CHECK_MSG (got == want, cli::shell_text (a) << " gives another result with " << t << " threads: " << got.size () << " bytes against " << want.size ());
    }
    if (n >= 100) s.nontrivial ();
}

PBT_MAIN
