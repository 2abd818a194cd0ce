// Invocations of the programs that can succeed
#pragma once
#include "xform.h"

namespace jobs
{
using namespace xform;
struct job
{
    std::string tool;
    std::vector<std::string> opts;  // without file names
    cloud c;                        // the main input
    std::vector<cloud> more;        // further inputs of tools that take several
    enum kind_t { IN_OUT, IN_ONLY, PRINT_MANY, SRS_SET, FILES_ONLY, TILE } kind = IN_OUT;
    std::map<std::string, std::string> side; // files an option names
};
inline const std::vector<std::string> &tools ()
{
    static const std::vector<std::string> t = { "spoc_compress", "spoc_decompress", "spoc_diff", "spoc_filter", "spoc_info", "spoc_merge", "spoc_srs", "spoc_tile", "spoc_tool", "spoc_transform" };
    return t;
}
inline cloud gen_input_of (pbt::Source &s, int compressed, size_t n)
{
    shape sh;
    const Ps v = gen_points (s, n, sh);
    cloud c;
    c.compressed = compressed < 0 ? s.coin () : compressed;
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (4));
    auto b = s.sub ();
    for (auto &r : c.r) r.c = b.below (5);
    return c;
}
inline cloud gen_input (pbt::Source &s, int compressed = -1, bool big = false)
{
    return gen_input_of (s, compressed, big ? s.range (66000, 90000) : s.chance (1, 30) ? s.range (200, 3000) : s.range (0, 30));
}
// One job that can succeed
inline job gen_job (pbt::Source &s, const std::string &tool)
{
    job j;
    j.tool = tool;
    const bool big = s.rare (24);
    if (tool == "spoc_compress") j.c = gen_input (s, 0, big);
    else if (tool == "spoc_decompress") j.c = gen_input (s, 1, big);
    else if (tool == "spoc_transform") { j.c = gen_input (s, 0, big); for (unsigned k = s.range (1, 3); k; --k) { const auto q = gen_cmd (s, j.c, true); j.opts.push_back ("--" + q.name + "=" + q.params); } if (s.chance (1, 3)) { j.opts.push_back ("--uniform-noise=1"); j.opts.push_back ("--random-seed=" + std::to_string (s.draw (4))); } }
    else j.c = gen_input (s, -1, big);
    if (tool == "spoc_filter")
    {
        for (unsigned k = s.range (0, 3); k; --k)
            switch (s.draw (5))
            {
                case 0: j.opts.push_back ("--keep-class=" + std::to_string (s.draw (5))); break;
                case 1: j.opts.push_back ("-r"); j.opts.push_back (std::to_string (s.draw (5))); break;
                case 2: j.opts.push_back ("-u"); break;
                case 3: j.opts.push_back ("--subsample=2.5"); break;
                default: j.opts.push_back ("--remove-coords=x<3");
            }
        if (s.coin ()) j.opts.push_back ("--random-seed=" + std::to_string (s.draw (3)));
    }
    if (tool == "spoc_tool")
    {
        const unsigned e = j.c.extras ();
        static const char *f[] = { "x", "y", "z", "c", "p", "i", "r", "g", "b" };
        switch (s.draw (6))
        {
            case 0: j.opts = { "--recenter-xy" }; break;
            case 1: j.opts = { "--subtract-min-xyz" }; break;
            case 2: j.opts = { "--resize-extra=" + std::to_string (s.draw (9)) }; break;
            case 3: j.opts = { "--get-field=" + (e && s.coin () ? "e" + std::to_string (s.draw (e)) : std::string (f[s.draw (9)])) }; j.kind = job::IN_ONLY; break;
            case 4:
            {
                std::string t;
                for (size_t k = 0; k < j.c.r.size (); ++k) t += std::to_string (k % 50) + "\n";
                j.side["values"] = t;
                j.opts = { "--set-field=c", "--field-filename=" + cli::path ("values") };
                break;
            }
            default:
            {
                auto d = j.c;
                if (d.r.empty () || big) { j.opts = { "--recenter-xyz" }; break; }
                j.side["low"] = encode (d);
                j.opts = { "--upsample-classifications=" + cli::path ("low"), "--resolution=3" };
            }
        }
    }
    if (tool == "spoc_info")
    {
        for (const char *o : { "--json", "-a", "-s", "-l", "-m", "-c", "-q" }) if (s.chance (1, 4)) j.opts.push_back (o);
        j.kind = job::PRINT_MANY;
    }
    if (tool == "spoc_srs")
    {
        j.kind = s.coin () ? job::SRS_SET : job::PRINT_MANY;
        if (j.kind == job::SRS_SET) j.opts = { "--srs=" + gen_text_wkt (s) };
    }
    if (tool == "spoc_diff")
    {
        j.kind = job::FILES_ONLY;
        auto d = s.chance (2, 3) ? j.c : gen_input (s);
        if (s.coin () && !d.r.empty ()) d.r[s.draw (d.r.size ())].i ^= 1;
        j.more.push_back (d);
        if (s.coin ()) j.opts.push_back (s.pick<std::string> ({ "--header-only", "-d", "--field=x", "-fi" }));
        if (s.chance (1, 3)) j.opts.push_back ("--reverse");
    }
    if (tool == "spoc_merge")
    {
        j.kind = job::FILES_ONLY;
        for (unsigned k = s.range (1, 3); k; --k)
        {
            auto d = gen_input (s);
            // the same number of extra fields, so that they can be merged
            for (auto &r : d.r) r.e.resize (j.c.extras (), 1);
            if (j.c.r.empty ()) d.r.clear ();
            j.more.push_back (d);
        }
        if (s.coin ()) j.opts.push_back ("--point-id=" + std::to_string (s.draw (4)));
        if (s.coin ()) j.opts.push_back ("--quiet");
    }
    if (tool == "spoc_tile")
    {
        j.kind = job::TILE;
        if (s.coin ()) j.opts.push_back ("--tiles=" + std::to_string (s.range (1, 4)));
        if (s.coin ()) j.opts.push_back ("--digits=" + std::to_string (s.range (1, 4)));
    }
    return j;
}

inline std::string dir_bytes (const std::string &d)
{
    std::string t;
    for (const auto &f : cli::ls (d)) { const auto b = cli::get (d + "/" + f); t += f + "\n" + std::to_string (b.size ()) + "\n" + b; }
    return t;
}
} // namespace jobs
