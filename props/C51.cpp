// C51: results depend on where points are, not on what holds them, nor on scale, origin or the naming of axes
#include "geom.h"
#include "cli.h"
#include <mutex>
#include "spoc/affine.h"
#include "spoc/extent.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
#include "tool.h"
#include "tile.h"
using namespace geom;
namespace ss = spoc::subsampling;

// A kind of point the library has never seen, with a member of its own
struct mine
{
    uint64_t tag = 0;
    double z = 0, x = 0, y = 0;
};
using mines = std::vector<mine>;

static mines to_mine (const Ps &v)
{
    mines m (v.size ());
    for (size_t k = 0; k < v.size (); ++k) { m[k].x = v[k].x; m[k].y = v[k].y; m[k].z = v[k].z; m[k].tag = k * 7919 + 13; }
    return m;
}
template<typename T> static Ps locations (const T &v)
{
    Ps p;
    for (const auto &i : v) p.push_back (mk (i.x, i.y, i.z));
    return p;
}
static void same_places (const Ps &a, const Ps &b, const std::string &what)
{
    CHECK_MSG (a.size () == b.size (), what << ": " << a.size () << " points, but " << b.size () << " of the other kind");
    for (size_t k = 0; k < a.size (); ++k)
        for (int d = 0; d < 3; ++d) CHECK_MSG (ax (a[k], d) == ax (b[k], d), what << ": point " << k << " is " << str (a[k]) << ", but " << str (b[k]) << " of the other kind");
}
static std::vector<vox> voxels (const std::vector<spoc::voxel::voxel_index> &v)
{
    std::vector<vox> r;
    for (const auto &i : v) r.push_back (vox { uint64_t (i.i), uint64_t (i.j), uint64_t (i.k) });
    return r;
}
// Neighbors of every query, as sets
template<typename T>
static std::vector<std::vector<size_t>> neighbors (const T &v, const std::vector<size_t> &pi, const std::vector<size_t> &ni, double radius, size_t limit)
{
    std::vector<std::vector<size_t>> g (pi.size ());
    std::mutex m;
    spoc::radius_search::radius_search (v, pi, ni, radius, [&] (size_t i, const std::vector<size_t> &n) { std::lock_guard<std::mutex> l (m); g.at (i) = n; }, limit);
    for (auto &i : g) std::sort (i.begin (), i.end ());
    return g;
}
static std::vector<size_t> some (pbt::Bulk &b, size_t n)
{
    std::vector<size_t> v;
    for (size_t k = 0; k < n; ++k) if (b.chance (4, 5)) v.push_back (k);
    if (b.chance (1, 2)) for (size_t k = v.size (); k > 1; --k) std::swap (v[k - 1], v[b.below (k)]);
    return v;
}

PROP (kinds, 60000, "at least two points in different places")
{
    shape sh;
    const uint64_t n = s.range (1, s.chance (1, 50) ? 900 : 3 + s.size () / 2);
    const Ps v = gen_points (s, n, sh);
    const P lo = geom::min_corner (v), hi = geom::max_corner (v);
    const double res = gen_res (s, sh, lo, hi);
    const auto recs = records_at (s, v, s.draw (3));
    const auto prs = to_prs (recs);
    const auto mv = to_mine (v);
    const uint64_t seed = s.coin () ? 0 : s.range (1, 100000);
    auto b = s.sub ();
    NOTE (s, n << " points, " << sh.name << " in " << str (lo) << " to " << str (hi) << ", resolution " << res << ", seed " << seed);
    if (!(lo == hi)) s.nontrivial ();

    const auto e = spoc::extent::get_extent (v);
    CHECK (spoc::extent::get_extent (prs) == e);
    CHECK (spoc::extent::get_extent (mv) == e);
    const auto vi = voxels (spoc::voxel::get_voxel_indexes (v, res));
    CHECK (voxels (spoc::voxel::get_voxel_indexes (prs, res)) == vi);
    CHECK (voxels (spoc::voxel::get_voxel_indexes (mv, res)) == vi);
    const auto sub = ss::get_subsample_indexes (v, res, seed);
    CHECK (ss::get_subsample_indexes (prs, res, seed) == sub);
    CHECK (ss::get_subsample_indexes (mv, res, seed) == sub);
    const auto uni = ss::get_unique_xyz_indexes (v, seed);
    CHECK (ss::get_unique_xyz_indexes (prs, seed) == uni);
    CHECK (ss::get_unique_xyz_indexes (mv, seed) == uni);
    const auto sm = ss::subsample_points (mv, res, seed);
    CHECK (sm.size () == sub.size ());
    for (size_t k = 0; k < sub.size (); ++k) CHECK_MSG (sm[k].tag == mv[sub[k]].tag && sm[k].x == v[sub[k]].x && sm[k].y == v[sub[k]].y && sm[k].z == v[sub[k]].z, "subsampled point " << k << " is not point " << sub[k] << ", or not all of it");

    // neighbors
    double scale = 0;
    for (const auto &p : v) for (int k = 0; k < 3; ++k) scale = std::max (scale, std::abs (ax (p, k)));
    const double radius = std::max (res, scale / 1e13);
    const auto pi = some (b, n), ni = some (b, n);
    const auto nb = neighbors (v, pi, ni, radius, n + 1);
    CHECK_MSG (neighbors (prs, pi, ni, radius, n + 1) == nb, "records have other neighbors than points");
    CHECK_MSG (neighbors (mv, pi, ni, radius, n + 1) == nb, "points of another type have other neighbors");

    // tiles
    const double tx = std::max (res, (hi.x - lo.x) / 1e6), ty = std::max (res, (hi.y - lo.y) / 1e6);
    const auto ti = spoc::tile_app::get_tile_indexes (v, e, tx, ty);
    CHECK (spoc::tile_app::get_tile_indexes (prs, e, tx, ty) == ti);
    CHECK (spoc::tile_app::get_tile_indexes (mv, e, tx, ty) == ti);

    // centers, crops
    const auto c = spoc::utils::get_center (v);
    const auto cp = spoc::utils::get_center (prs);
    const auto cm = spoc::utils::get_center (mv);
    same_places ({ c }, { mk (cp.x, cp.y, cp.z) }, "center of records");
    same_places ({ c }, { mk (cm.x, cm.y, cm.z) }, "center of points of another type");
    spoc::extent::extent box;
    for (int k = 0; k < 3; ++k)
    {
        const double x = ax (v[b.below (n)], k), y = ax (v[b.below (n)], k);
        ax (box.minp, k) = b.chance (1, 2) ? ax (lo, k) : std::min (x, y);
        ax (box.maxp, k) = b.chance (1, 2) ? ax (hi, k) : std::max (x, y);
    }
    const auto cv = spoc::utils::crop (v, box);
    const auto cr = spoc::utils::crop (prs, box);
    const auto cc = spoc::utils::crop (mv, box);
    same_places (cv, locations (cr), "crop of records");
    same_places (cv, locations (cc), "crop of points of another type");
    size_t at = 0;
    for (const auto &p : cc) { while (at < n && mv[at].tag != p.tag) ++at; CHECK_MSG (at++ < n, "a cropped point lost its own member"); }
    at = 0;
    for (const auto &p : from_prs (cr)) { while (at < n && !same (p, recs[at])) ++at; CHECK_MSG (at++ < n, "a cropped record is none of the records: " << p); }

    // changing them in place
    Ps w = v;
    auto wp = prs;
    auto wm = mv;
    const double a = (b.unit () - 0.5) * 100;
    const double q = sh.unit * (0.1 + b.unit ());
    std::string what;
    double tol = 0;
    switch (s.draw (9))
    {
        case 0: what = "add_x"; spoc::affine::add_x (w, a); spoc::affine::add_x (wp, a); spoc::affine::add_x (wm, a); break;
        case 1: what = "add_y"; spoc::affine::add_y (w, a); spoc::affine::add_y (wp, a); spoc::affine::add_y (wm, a); break;
        case 2: what = "add_z"; spoc::affine::add_z (w, a); spoc::affine::add_z (wp, a); spoc::affine::add_z (wm, a); break;
        case 3: what = "scale_x"; spoc::affine::scale_x (w, a); spoc::affine::scale_x (wp, a); spoc::affine::scale_x (wm, a); break;
        case 4: what = "scale_z"; spoc::affine::scale_z (w, a); spoc::affine::scale_z (wp, a); spoc::affine::scale_z (wm, a); break;
        case 5: { what = "add"; const auto k = b.below (n); spoc::affine::add (w, v[k]); spoc::affine::add (wp, prs[k]); spoc::affine::add (wm, mv[k]); break; }
        case 6: what = "quantize"; spoc::utils::quantize (w, q); spoc::utils::quantize (wp, q); spoc::utils::quantize (wm, q); break;
        case 7: what = "rotate_z"; tol = scale * 1e-14; spoc::affine::rotate_z (w, a); spoc::affine::rotate_z (wp, a); spoc::affine::rotate_z (wm, a); break;
        default: what = "rotate_x"; tol = scale * 1e-14; spoc::affine::rotate_x (w, a); spoc::affine::rotate_x (wp, a); spoc::affine::rotate_x (wm, a); break;
    }
    s.label (what);
    const auto lp = locations (wp), lm = locations (wm);
    CHECK (w.size () == n && lp.size () == n && lm.size () == n);
    for (size_t k = 0; k < n; ++k)
    {
        for (int d = 0; d < 3; ++d)
            CHECK_MSG (std::abs (ax (w[k], d) - ax (lp[k], d)) <= tol && std::abs (ax (w[k], d) - ax (lm[k], d)) <= tol,
                what << " moved point " << k << " to " << str (w[k]) << ", the record to " << str (lp[k]) << ", and the point of another type to " << str (lm[k]));
        CHECK_MSG (wm[k].tag == mv[k].tag, what << " changed a member that is no coordinate");
    }
    auto rest = from_prs (wp);
    for (size_t k = 0; k < n; ++k) { rest[k].x = recs[k].x; rest[k].y = recs[k].y; rest[k].z = recs[k].z; CHECK_MSG (same (rest[k], recs[k]), what << " changed a field that is no coordinate: " << rest[k] << " was " << recs[k]); }
}

// A cloud of small integers, and where its points go: everything that follows is exact
struct moved
{
    Ps v, w;
    std::array<int, 3> to;  // axis k becomes axis to[k]
    double f;               // a power of two
    double res;             // in the units of v
    P shift;
    std::string text;
};
static moved gen_moved (pbt::Source &s, uint64_t max, bool axes, int most = 400)
{
    moved m;
    const uint64_t n = s.range (1, max);
    auto b = s.sub ();
    const uint64_t span = 1 + b.below (1 + (b.chance (1, 4) ? 3 : b.chance (1, 4) ? 2000 : 2 * uint64_t (std::cbrt (double (n)) + 1)));
    const uint64_t flat = b.below (8);
    for (uint64_t k = 0; k < n; ++k)
    {
        P p = mk (double (b.below (span)), double (b.below (span)), double (b.below (span)));
        if (flat < 3) ax (p, int (flat)) = 0;
        if (k && b.chance (1, 6)) p = m.v[b.below (k)];
        m.v.push_back (p);
    }
    static const std::array<int, 3> perms[] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 0, 1 } };
    m.to = perms[axes ? s.draw (6) : 0];
    const int e = s.coin () ? 0 : s.coin () ? int (s.draw (91)) - 45 : int (s.draw (unsigned (2 * most + 1))) - most;
    m.f = std::ldexp (1.0, e);
    for (int k = 0; k < 3; ++k) ax (m.shift, k) = b.chance (1, 2) ? 0 : double (int64_t (b.below (b.chance (1, 2) ? 100 : 8000000)) - (b.chance (1, 2) ? 4000000 : 0));
    static const double rs[] = { 1, 2, 3, 1.5, 0.5, 0.1, 0.7, 2.3, 5, 10, 1e-3, 1e4 };
    m.res = s.chance (1, 4) ? 0.05 + double (s.draw (4000)) / 700 : rs[s.draw (12)];
    for (const auto &p : m.v)
    {
        P q;
        for (int k = 0; k < 3; ++k) ax (q, m.to[k]) = (ax (p, k) + ax (m.shift, k)) * m.f;
        m.w.push_back (q);
    }
    std::ostringstream o;
    o << n << " points within " << span << ", resolution " << m.res << "; moved by " << str (m.shift) << ", times 2^" << e << ", axes to " << m.to[0] << m.to[1] << m.to[2];
    m.text = o.str ();
    s.label_if (m.f != 1, "scaled");
    s.label_if (m.to[0] != 0 || m.to[1] != 1, "axes exchanged");
    s.label_if (!(m.shift == P ()), "moved");
    if (n > 1 && (m.f != 1 || m.to[0] != 0 || m.to[1] != 1 || !(m.shift == P ()))) s.nontrivial ();
    return m;
}
static P image (const moved &m, const P &p, bool shift = true)
{
    P q;
    for (int k = 0; k < 3; ++k) ax (q, m.to[k]) = (ax (p, k) + (shift ? ax (m.shift, k) : 0)) * m.f;
    return q;
}

PROP (symmetries, 80000, "several points that were moved, scaled, or had axes exchanged")
{
    const auto m = gen_moved (s, s.chance (1, 50) ? 1500 : 3 + s.size (), true);
    const size_t n = m.v.size ();
    const uint64_t seed = s.coin () ? 0 : s.range (1, 100000);
    auto b = s.sub ();
    NOTE (s, m.text << ", seed " << seed);
    const double res = m.res * m.f;

    const auto e = spoc::extent::get_extent (m.v), f = spoc::extent::get_extent (m.w);
    same_places ({ f.minp, f.maxp }, { image (m, e.minp), image (m, e.maxp) }, "extent");
    auto vi = voxels (spoc::voxel::get_voxel_indexes (m.v, m.res));
    for (auto &i : vi) { vox j; for (int k = 0; k < 3; ++k) j[m.to[k]] = i[k]; i = j; }
    CHECK_MSG (voxels (spoc::voxel::get_voxel_indexes (m.w, res)) == vi, "voxel indexes differ");
    CHECK_MSG (ss::get_subsample_indexes (m.w, res, seed) == ss::get_subsample_indexes (m.v, m.res, seed), "other points are kept when subsampling");
    CHECK_MSG (ss::get_unique_xyz_indexes (m.w, seed) == ss::get_unique_xyz_indexes (m.v, seed), "other points are unique");
    const auto pi = some (b, n), ni = some (b, n);
    CHECK_MSG (neighbors (m.w, pi, ni, res, n + 1) == neighbors (m.v, pi, ni, m.res, n + 1), "points have other neighbors");
    for (int k = 0; k < 5; ++k)
    {
        const auto i = b.below (n), j = b.below (n);
        const double d = spoc::point::distance (m.v[i], m.v[j]) * m.f;
        CHECK_MSG (spoc::point::distance (m.w[i], m.w[j]) == d, "the distance is " << spoc::point::distance (m.w[i], m.w[j]) << ", expected " << d);
    }
    spoc::extent::extent box, xob;
    for (int k = 0; k < 3; ++k)
    {
        const double x = ax (m.v[b.below (n)], k), y = ax (m.v[b.below (n)], k);
        ax (box.minp, k) = std::min (x, y);
        ax (box.maxp, k) = std::max (x, y);
    }
    xob.minp = image (m, box.minp);
    xob.maxp = image (m, box.maxp);
    auto cv = spoc::utils::crop (m.v, box);
    for (auto &p : cv) p = image (m, p);
    same_places (spoc::utils::crop (m.w, xob), cv, "crop");
    // without a shift, the mean scales exactly
    Ps u;
    for (const auto &p : m.v) u.push_back (image (m, p, false));
    same_places ({ spoc::utils::get_center (u) }, { image (m, spoc::utils::get_center (m.v), false) }, "center");
    auto qv = m.v;
    spoc::utils::quantize (qv, m.res);
    spoc::utils::quantize (u, res);
    for (auto &p : qv) p = image (m, p, false);
    same_places (u, qv, "quantized points");
}

// Records of the cloud, before and after
static void gen_clouds (pbt::Source &s, const moved &m, cloud &c, cloud &d)
{
    c.r = records_at (s, m.v, s.draw (3));
    c.wkt = gen_text_wkt (s);
    c.compressed = s.coin ();
    d = c;
    for (size_t k = 0; k < d.r.size (); ++k) { d.r[k].x = m.w[k].x; d.r[k].y = m.w[k].y; d.r[k].z = m.w[k].z; }
}
// The same records, by their other fields
static void same_rest (cloud a, cloud b, const std::string &what)
{
    for (auto &r : a.r) r.x = r.y = r.z = 0;
    for (auto &r : b.r) r.x = r.y = r.z = 0;
    check_same (a, b, what);
}

PROP (files, 40000, "several points that were moved or scaled")
{
    const auto m = gen_moved (s, 3 + s.size (), true, 900); // no squares here
    cloud c, d;
    gen_clouds (s, m, c, d);
    auto b = s.sub ();
    NOTE (s, m.text);
    // subtracting the minimum forgets the origin
    const auto x = from_file (spoc::tool_app::subtract_min (to_file (c), true)), y = from_file (spoc::tool_app::subtract_min (to_file (d), true));
    auto w = x;
    for (auto &r : w.r) { const auto p = image (m, mk (r.x, r.y, r.z), false); r.x = p.x; r.y = p.y; r.z = p.z; }
    check_same (y, w, "subtract_min of the moved points");
    // classes go with voxels
    cloud lc = c, ld = d;
    lc.r.clear (); ld.r.clear ();
    for (size_t k = b.below (c.r.size () + 1); k; --k) { const auto j = b.below (c.r.size ()); lc.r.push_back (c.r[j]); ld.r.push_back (d.r[j]); lc.r.back ().c = ld.r.back ().c = uint32_t (k); }
    if (!lc.r.empty ())
    {
        std::ostringstream log;
        same_rest (from_file (spoc::tool_app::upsample_classifications (to_file (ld), to_file (d), m.res * m.f, false, log)),
            from_file (spoc::tool_app::upsample_classifications (to_file (lc), to_file (c), m.res, false, log)), "upsample_classifications of the moved points");
    }
    // tiles are numbered along x, then y: axes must stay
    const auto t = gen_moved (s, 3 + s.size (), false, 900);
    const double tx = t.res, ty = s.coin () ? t.res : t.res * 2;
    CHECK_MSG (spoc::tile_app::get_tile_indexes (t.w, spoc::extent::get_extent (t.w), tx * t.f, ty * t.f) == spoc::tile_app::get_tile_indexes (t.v, spoc::extent::get_extent (t.v), tx, ty), t.text << ": tile indexes differ");
}

PROP (tools, 1200, "several points that were moved, scaled, or had axes exchanged")
{
    const unsigned kind = s.draw (5);
    const auto m = gen_moved (s, 3 + s.size (), kind < 4);
    cloud c, d;
    gen_clouds (s, m, c, d);
    char t1[64], t2[64];
    snprintf (t1, sizeof t1, "%.17g", m.res);
    snprintf (t2, sizeof t2, "%.17g", m.res * m.f);
    const std::string r1 = t1, r2 = t2;
    std::vector<std::string> a1, a2;
    switch (kind)
    {
        case 0:
        {
            const auto seed = "--random-seed=" + std::to_string (s.coin () ? 0 : s.range (1, 1000));
            a1 = { "spoc_filter", "--subsample=" + r1, seed };
            a2 = { "spoc_filter", "--subsample=" + r2, seed };
            break;
        }
        case 1: a1 = a2 = { "spoc_filter", "--unique-xyz" }; break;
        case 2:
        {
            static const char *const names[] = { "x", "y", "z" }, *const ops[] = { "<", ">" };
            const int k = int (s.draw (3));
            const char *const op = ops[s.draw (2)];
            const double v = ax (m.v[s.draw (m.v.size ())], k);
            snprintf (t1, sizeof t1, "%s %s %.17g", names[k], op, v);
            snprintf (t2, sizeof t2, "%s %s %.17g", names[m.to[k]], op, (v + ax (m.shift, k)) * m.f);
            a1 = { "spoc_filter", "--remove-coords=" + std::string (t1) };
            a2 = { "spoc_filter", "--remove-coords=" + std::string (t2) };
            break;
        }
        case 3:
        {
            cloud hc = c, hd = d;
            const auto k = s.draw (c.r.size ()) + 1;
            auto b = s.sub ();
            for (auto *h : { &c, &d }) h->r.resize (k);
            for (size_t j = 0; j < k; ++j) c.r[j].c = d.r[j].c = uint32_t (b.below (200));
            cli::put (cli::path ("h1.spoc"), encode (hc));
            cli::put (cli::path ("h2.spoc"), encode (hd));
            a1 = { "spoc_tool", "--upsample-classifications=" + cli::path ("h1.spoc"), "--resolution=" + r1 };
            a2 = { "spoc_tool", "--upsample-classifications=" + cli::path ("h2.spoc"), "--resolution=" + r2 };
            break;
        }
        default: a1 = { "spoc_tile", "--force", "--prefix=t", "--tile-size=" + r1 }; a2 = { "spoc_tile", "--force", "--prefix=t", "--tile-size=" + r2 }; break;
    }
    s.label (kind == 4 ? "spoc_tile" : a1[1].substr (0, a1[1].find ('=')));
    NOTE (s, m.text << ": " << cli::shell_text (a1) << " and " << cli::shell_text (a2));
    if (kind < 4)
    {
        same_rest (cli::run_cloud (a2, encode (d)), cli::run_cloud (a1, encode (c)), cli::shell_text (a2) + " of the moved points");
        return;
    }
    std::map<std::string, std::string> got[2];
    for (int k = 0; k < 2; ++k)
    {
        cli::opts o;
        o.cwd = cli::fresh_dir ("tiles");
        const auto r = cli::run (k ? a2 : a1, encode (k ? d : c), o);
        CHECK_MSG (r.ok (), "spoc_tile failed: " << r.text ());
        for (const auto &fn : cli::ls (o.cwd)) got[k][fn] = cli::get (o.cwd + "/" + fn);
    }
    CHECK_MSG (got[0].size () == got[1].size (), got[1].size () << " tiles of the moved points, expected " << got[0].size ());
    for (const auto &i : got[0])
    {
        CHECK_MSG (got[1].count (i.first), "there is no tile " << i.first << " of the moved points");
        same_rest (decode_all (got[1][i.first], i.first), decode_all (i.second, i.first), "tile " + i.first + " of the moved points");
    }
}
PBT_MAIN
