// Command lines of spoc_tile, and the files they are to make
#pragma once
#include "tiles.h"
#include "cli.h"

namespace tilejob
{
using namespace geom;
using namespace tiles;

struct job
{
    cloud c;
    std::vector<std::string> opt;  // without the input
    std::string prefix, ext, in;   // in: input file, or "" for stdin
    unsigned digits = 3;
    std::map<std::string, cloud> want; // by file name
};

inline std::string num (double v, bool full) { char t[64]; snprintf (t, sizeof t, full ? "%.17g" : "%.4g", v); return t; }
inline std::string opt (pbt::Source &s, const char *lng, char sht, const std::string &v, std::vector<std::string> &a)
{
    switch (s.draw (3))
    {
        case 0: a.push_back (std::string ("--") + lng + "=" + v); break;
        case 1: a.push_back (std::string ("--") + lng); a.push_back (v); break;
        default: a.push_back (std::string ("-") + sht + v); break;
    }
    return v;
}

// false: rounding decides where a point belongs
inline bool gen (pbt::Source &s, job &j, bool allow_empty)
{
    shape sh;
    const uint64_t n = allow_empty && s.chance (1, 25) ? 0 : s.rare (3) ? s.range (66000, 140000) : s.range (1, s.chance (1, 60) ? 1500 : 3 + s.size ());
    const Ps v = gen_points (s, n, sh);
    j.c.r = records_at (s, v, s.draw (3));
    j.c.wkt = gen_text_wkt (s);
    j.c.compressed = s.coin ();
    double tx = 1, ty = 1;
    std::vector<cell> c;
    if (n)
    {
        const P lo = geom::min_corner (v), hi = geom::max_corner (v);
        const double side = std::max (hi.x - lo.x, hi.y - lo.y);
        switch (s.draw (4))
        {
            case 0: case 1: // a number of tiles
            {
                unsigned N = 2;
                if (side > 1e7) return false;
                if (s.chance (4, 5)) { N = s.range (1, s.coin () ? 4 : 30); opt (s, "tiles", 't', std::to_string (N), j.opt); }
                tx = ty = (side + std::numeric_limits<float>::epsilon ()) / N;
                break;
            }
            case 2: // square tiles
                gen_sizes (s, sh, v, tx, ty);
                if (!(tx > 0)) tx = 1;
                ty = tx = strtod (opt (s, "tile-size", 's', num (tx, s.coin ()), j.opt).c_str (), nullptr);
                break;
            default: // rectangular tiles, perhaps strips
                gen_sizes (s, sh, v, tx, ty);
                if (tx <= 0 && ty <= 0) tx = 1;
                if (tx > 0) tx = strtod (opt (s, "tile-size-x", 'x', num (tx, s.coin ()), j.opt).c_str (), nullptr);
                if (ty > 0) ty = strtod (opt (s, "tile-size-y", 'y', num (ty, s.coin ()), j.opt).c_str (), nullptr);
                s.label_if (tx <= 0 || ty <= 0, "strips");
        }
        if (!cells (v, tx, ty, c)) return false;
        const std::set<cell> occ (c.begin (), c.end ());
        if (occ.size () > 60) return false;
        if (occ.size () >= 2 && occ.size () < n) s.nontrivial ();
    }
    if (s.coin ()) { j.digits = s.chance (1, 4) ? s.draw (60) : s.draw (9); opt (s, "digits", 'd', std::to_string (j.digits), j.opt); }
    if (s.coin ()) j.opt.push_back (s.coin () ? "-v" : "--verbose");
    static const std::vector<std::string> exts { ".spoc", ".zpoc", ".dat", "", ".a.b" };
    const bool from_file = s.coin ();
    j.ext = j.c.compressed ? ".zpoc" : ".spoc";
    if (from_file)
    {
        const std::string stem = s.pick ({ "in", "a b", "x.y", "tile_" });
        j.in = stem + exts[s.draw (exts.size ())];
        const std::string e = j.in == stem && stem == "x.y" ? ".y" : std::string (j.in.substr (j.in.rfind ('.') == std::string::npos ? j.in.size () : j.in.rfind ('.')));
        j.ext = e;
        j.prefix = j.in.substr (0, j.in.size () - e.size ());
    }
    if (!from_file || s.coin ()) j.prefix = opt (s, "prefix", 'p', s.pick ({ "t", "out_", "a b.", "p.q" }), j.opt);
    // the documented files
    if (n)
    {
        const P lo = geom::min_corner (v);
        double dx = 0;
        for (const auto &p : v) dx = std::max (dx, p.x - lo.x);
        size_t stride = 1;
        if (tx > 0) { size_t q = 0; if (!step (lo.x + dx, lo.x, tx, q)) return false; stride = q + 1; }
        for (size_t k = 0; k < n; ++k)
        {
            std::string t = std::to_string (c[k].y * stride + c[k].x);
            while (t.size () < j.digits) t.insert (0, "0");
            auto &w = j.want[j.prefix + t + j.ext];
            w.wkt = j.c.wkt; w.compressed = j.c.compressed;
            w.r.push_back (j.c.r[k]);
        }
    }
    NOTE (s, n << " points, " << sh.name << (j.c.compressed ? ", compressed" : "") << ", tiles of " << tx << " x " << ty << ": " << cli::shell_text (j.opt) << " " << (from_file ? "'" + j.in + "'" : std::string ("< ...")));
    return true;
}

inline cli::result run (const job &j, const std::string &dir, const std::vector<std::string> &more)
{
    std::vector<std::string> a { "spoc_tile" };
    a.insert (a.end (), j.opt.begin (), j.opt.end ());
    a.insert (a.end (), more.begin (), more.end ());
    cli::opts o;
    o.cwd = dir;
    const auto bytes = encode (j.c);
    if (j.in.empty ()) return cli::run (a, bytes, o);
    const auto d = cli::fresh_dir ("input");
    cli::put (d + "/" + j.in, bytes);
    a.push_back (d + "/" + j.in);
    const auto r = cli::run (a, "", o);
    CHECK_MSG (cli::get (d + "/" + j.in) == bytes, "the input file was changed");
    return r;
}
inline std::string names (const std::vector<std::string> &v) { std::string t; for (const auto &x : v) t += " '" + x + "'"; return t; }
} // namespace tilejob
