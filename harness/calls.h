// Library calls of all kinds, each with a result that can be compared
#pragma once
#include "xform.h"
#include "spoc/compression.h"
#include "spoc/extent.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
#include "diff.h"
#include "filter.h"
#include "info.h"
#include "merge.h"

namespace calls
{
using namespace xform;

// What all threads may look at
struct world
{
    std::vector<cloud> c;
    std::vector<spoc::file::spoc_file> f;
    std::vector<std::string> bytes;    // encodings, some damaged
    std::vector<Ps> p;
    std::vector<double> res;
};
struct op
{
    unsigned kind = 0, a = 0, b = 0;
    uint64_t seed = 0;
};
static const char *const NAMES[] = { "write", "read", "compress", "extent", "voxels", "subsample", "unique", "radius search", "transform", "diff", "filter", "info", "copy and change", "merge", "center and crop", "text" };
static const unsigned KINDS = sizeof NAMES / sizeof NAMES[0];

inline std::string text_of (const spoc::file::spoc_file &f) { std::ostringstream o; o << f.get_wkt ().size () << (f.get_compressed () ? 'c' : 'u'); for (const auto &r : f.get_point_records ()) o << from_pr (r); return o.str (); }

inline std::string perform (const world &w, const op &q)
{
    std::ostringstream o;
    o.precision (17);
    const auto &f = w.f[q.a];
    const auto &v = w.p[q.a];
    const double res = w.res[q.a];
    pbt::Bulk b (q.seed);
    switch (q.kind)
    {
        case 0: return lib::write (f);
        case 1:
            try { return text_of (lib::read (w.bytes[q.b])); } catch (const std::exception &e) { return "refused"; }
        case 2:
        {
            std::string t (b.below (3000), 0);
            for (auto &x : t) x = char (b.below (1 + q.seed % 7));
            std::vector<uint8_t> raw (t.begin (), t.end ());
            const auto z = spoc::compression::compress (raw);
            const auto back = spoc::compression::decompress (z);
            o << (back == raw) << ' ' << z.size () << ' ' << std::string (z.begin (), z.end ());
            return o.str ();
        }
        case 3: { if (v.empty ()) return ""; const auto e = spoc::extent::get_extent (v); o << str (e.minp) << str (e.maxp); return o.str (); }
        case 4: { if (v.empty ()) return ""; for (const auto &x : spoc::voxel::get_voxel_indexes (v, res)) o << x.i << ' ' << x.j << ' ' << x.k << ';'; return o.str (); }
        case 5: { if (v.empty ()) return ""; for (auto j : spoc::subsampling::get_subsample_indexes (v, res, q.seed % 3)) o << j << ' '; return o.str (); }
        case 6: { for (auto j : spoc::subsampling::get_unique_xyz_indexes (v, q.seed % 3)) o << j << ' '; return o.str (); }
        case 7:
        {
            if (v.empty ()) return "";
            std::vector<std::vector<size_t>> g (v.size ());
            auto take = [&] (size_t i, const std::vector<size_t> &x) { g.at (i) = x; };
            spoc::radius_search::radius_search_all (v, res, take, 1 + q.seed % 6);
            for (const auto &x : g) { for (auto j : x) o << j << ' '; o << ';'; }
            return o.str ();
        }
        case 8:
        {
            auto c = w.c[q.a];
            c.compressed = false;
            std::vector<spoc::transform_cmd::command> cmds = { { "uniform-noise", "1.5" }, { "set", "c,3" }, { "rotate-z", "30" }, { "gaussian-noise-y", "0.5" }, { "replace-not", "i,1,2,9" } };
            cmds.erase (cmds.begin () + b.below (cmds.size ()));
            return run_lib (encode (c), cmds, q.seed % 3);
        }
        case 9: o << spoc::diff_app::diff (f, w.f[q.b], false, false, {}, false); return o.str ();
        case 10:
            switch (q.seed % 5)
            {
                case 0: return text_of (spoc::filter_app::keep_classes (f, std::unordered_set<int> { 1, 2 }));
                case 1: return text_of (spoc::filter_app::remove_coords (f, "x > 1.5"));
                case 2: return text_of (spoc::filter_app::unique_xyz (f, q.seed % 3));
                case 3: return v.empty () ? "" : text_of (spoc::filter_app::subsample_file (f, res, q.seed % 3));
                default: return text_of (spoc::filter_app::remove_classes (f, std::unordered_set<int> { 0 }));
            }
        case 11: spoc::info_app::process (o, f, q.seed & 1, true, true, true, true, q.seed & 2, q.seed & 4); return o.str ();
        case 12:
        {
            auto g = f;
            g.set_wkt ("thread " + std::to_string (q.seed));
            g.set_compressed (q.seed & 1);
            for (unsigned k = b.below (4); k; --k)
            {
                auto r = to_pr (rec ());
                r.c = k;
                if (!g.get_point_records ().empty ()) r.extra.resize (g.get_header ().extra_fields);
                else break;
                g.push_back (r);
            }
            return text_of (g) + lib::write (g);
        }
        case 13:
        {
            spoc::file::spoc_file g;
            std::ostringstream log;
            spoc::merge_app::append (f, g, unsigned (q.seed % 9), q.seed & 1, log);
            return text_of (g) + log.str ();
        }
        case 14:
        {
            if (v.empty ()) return "";
            const auto e = spoc::extent::get_extent (w.p[q.b].empty () ? v : w.p[q.b]);
            for (const auto &p : spoc::utils::crop (v, e)) o << str (p);
            Ps u = v;
            spoc::utils::quantize (u, 0.25);
            for (const auto &p : u) o << str (p);
            return o.str ();
        }
        default:
        {
            o << f.get_header () << '\n';
            for (const auto &r : f.get_point_records ()) o << r << '\n' << (r == f.get_point_records ().front ()) << '\n';
            return o.str ();
        }
    }
}
inline world gen_world (pbt::Source &s, unsigned pool, uint64_t top)
{
    world w;
    for (unsigned k = 0; k < pool; ++k)
    {
        shape sh;
        const Ps v = gen_points (s, s.range (0, top), sh);
        cloud c;
        c.compressed = s.coin ();
        c.wkt = gen_text_wkt (s);
        c.r = records_at (s, v, s.draw (3));
        auto b = s.sub ();
        for (auto &r : c.r) r.c = b.below (4);
        double res = 1;
        if (!v.empty ()) res = std::max (gen_res (s, sh, geom::min_corner (v), geom::max_corner (v)), sh.unit * 0.5);
        if (!v.empty ())
        {
            // as large as the search needs it
            double m = 0;
            for (const auto &p : v) for (int a = 0; a < 3; ++a) m = std::max (m, std::abs (ax (p, a)));
            for (int a = 0; a < 3; ++a) m = std::max (m, ax (geom::max_corner (v), a) - ax (geom::min_corner (v), a));
            res = std::max (res, m / 1e12);
        }
        w.res.push_back (res);
        w.p.push_back (v);
        w.f.push_back (to_file (c));
        auto t = encode (c);
        w.bytes.push_back (t);
        if (s.coin () && t.size () > 30) { t.resize (s.range (1, t.size () - 1)); w.bytes.push_back (t); }
        w.c.push_back (c);
    }
    return w;
}
} // namespace calls
