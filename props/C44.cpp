// C44: chains of programs compute the composition of their steps
#include "xform.h"
using namespace xform;

static std::string quote (const std::string &a)
{
    std::string t = "'";
    for (char ch : a) { if (ch == '\'') t += "'\\''"; else t += ch; }
    return t + "'";
}
static std::string shell (const std::vector<std::string> &a)
{
    // what is between two programs may take its time: after some bytes it waits
    if (a[0] == "pause") return "{ head -c " + a[1] + "; sleep " + a[2] + "; cat; }";
    std::string t;
    for (size_t k = 0; k < a.size (); ++k) t += (k ? " " : "") + quote (k ? a[k] : pbt::env ().bin + "/" + a[k]);
    return t;
}
static std::string chain_text (const std::vector<std::vector<std::string>> &v)
{
    std::string t;
    for (const auto &a : v) t += (t.empty () ? "" : " | ") + cli::shell_text (a);
    return t;
}
// The chain as a shell runs it: all programs at once, connected by pipes
static cli::result run_chain (const std::vector<std::vector<std::string>> &v, const std::string &in)
{
    std::string t;
    for (const auto &a : v) t += (t.empty () ? "" : " | ") + shell (a);
    return cli::run ({ "/bin/sh", "-c", t }, in);
}
static std::vector<rec> select (const std::vector<rec> &r, const std::function<bool (const rec &)> &f)
{
    std::vector<rec> w;
    for (const auto &q : r) if (f (q)) w.push_back (q);
    return w;
}
// The sign of zero is not part of what these steps promise together
static cloud plain_zeros (cloud c)
{
    for (auto &r : c.r) { r.x += 0.0; r.y += 0.0; r.z += 0.0; }
    return c;
}
static cloud gen_input (pbt::Source &s, shape &sh, uint64_t lo = 0)
{
    const Ps v = gen_points (s, s.rare (12) ? s.range (66000, 90000) : s.chance (1, 12) ? s.range (400, 3000) : s.range (lo, 40), sh);
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = records_at (s, v, s.draw (4));
    auto b = s.sub ();
    for (auto &r : c.r) r.c = b.below (5);
    return c;
}

struct stage
{
    std::vector<std::string> a;
    std::map<std::string, std::string> files;
};
// A step, applied to the model as it is generated
static stage gen_stage (pbt::Source &s, cloud &c, const shape &sh, unsigned at)
{
    stage g;
    Ps v;
    for (const auto &r : c.r) v.push_back (mk (r.x, r.y, r.z));
    const unsigned kind = s.draw (11);
    auto &a = g.a;
    switch (kind)
    {
        case 0: case 1:
        {
            a = { "spoc_filter" };
            std::vector<uint32_t> k;
            for (unsigned n = s.range (1, 3); n; --n) k.push_back (s.draw (6));
            const bool keep = kind == 0;
            for (auto x : k) a.push_back ((keep ? "--keep-class=" : "--remove-class=") + std::to_string (x));
            c.r = select (c.r, [&] (const rec &r) { return (std::count (k.begin (), k.end (), r.c) > 0) == keep; });
            break;
        }
        case 2:
        {
            a = { "spoc_filter", "--unique-xyz" };
            std::set<std::array<double, 3>> seen;
            c.r = select (c.r, [&] (const rec &r) { return seen.insert ({ r.x, r.y, r.z }).second; });
            break;
        }
        case 3:
        {
            if (v.empty ()) return gen_stage (s, c, sh, at);
            const auto lo = geom::min_corner (v), hi = geom::max_corner (v);
            for (int k = 0; k < 3; ++k) if (!(ax (hi, k) - ax (lo, k) < 1e12)) return gen_stage (s, c, sh, at);
            const std::string res = text (gen_res (s, sh, lo, hi));
            const double d = strtod (res.c_str (), nullptr);
            a = { "spoc_filter", "--subsample=" + res };
            std::set<vox> seen;
            c.r = select (c.r, [&] (const rec &r) { return seen.insert (geom::voxel_of (mk (r.x, r.y, r.z), lo, d)).second; });
            break;
        }
        case 4:
        {
            const int k = s.draw (3);
            const bool less = s.coin ();
            double d = s.irange (-20, 20);
            if (!v.empty () && s.chance (3, 4)) d = ax (v[s.draw (v.size ())], k);
            a = { "spoc_filter", "--remove-coords=" + std::string (1, "xyz"[k]) + (less ? " < " : " > ") + text (d) };
            c.r = select (c.r, [&] (const rec &r) { const double x = k == 0 ? r.x : k == 1 ? r.y : r.z; return less ? !(x < d) : !(x > d); });
            break;
        }
        case 5:
        {
            // as large as a coordinate gets in a long chain, so that nothing overflows
            double top = 0;
            for (const auto &p : v) for (int k = 0; k < 3; ++k) top = std::max (top, std::abs (ax (p, k)));
            if (c.compressed || top > 1e14) return gen_stage (s, c, sh, at);
            a = { "spoc_transform" };
            double bound = 1;
            for (unsigned n = s.range (1, 3); n; --n)
            {
                cmd q;
                do q = gen_cmd (s, c, true); while (q.rotates || q.quantizes);
                a.push_back ("--" + q.name + "=" + q.params);
                for (auto &r : c.r) q.f (r, bound);
            }
            break;
        }
        case 6:
        {
            const unsigned e = s.draw (7);
            a = { "spoc_tool", "--resize-extra=" + std::to_string (e) };
            for (auto &r : c.r) r.e.resize (e);
            break;
        }
        case 7:
        {
            const bool z = s.coin ();
            a = { "spoc_tool", z ? "--subtract-min-xyz" : "--subtract-min-xy" };
            if (v.empty ()) break;
            const auto m = geom::min_corner (v);
            for (auto &r : c.r) { r.x -= m.x; r.y -= m.y; if (z) r.z -= m.z; }
            break;
        }
        case 8:
        {
            const auto f = gen_int_field (s, c.extras ());
            std::string t;
            auto b = s.sub ();
            for (auto &r : c.r)
            {
                const uint64_t x = f == "c" ? b.below (6) : b.next () & std::min<uint64_t> (width_max (f), (1ull << 31) - 1);
                put (r, f, x);
                t += std::to_string (x) + "\n";
            }
            const auto fn = cli::path ("values" + std::to_string (at));
            g.files[fn] = t;
            a = { "spoc_tool", "--set-field=" + f, "--field-filename=" + fn };
            break;
        }
        case 9:
            c.wkt = gen_text_wkt (s);
            a = { "spoc_srs", "--srs=" + c.wkt };
            break;
        default:
            a = { c.compressed ? "spoc_decompress" : "spoc_compress" };
            c.compressed = !c.compressed;
    }
    return g;
}

PROP (chains, 3500, "two or more different programs, with records at the end")
{
    shape sh;
    cloud c = gen_input (s, sh);
    const auto in = encode (c);
    const size_t n0 = c.r.size ();
    std::vector<std::vector<std::string>> v;
    std::map<std::string, std::string> files;
    std::set<std::string> used;
    cloud m = c;
    for (unsigned k = s.range (1, 6); k; --k)
    {
        const auto g = gen_stage (s, m, sh, k);
        v.push_back (g.a);
        used.insert (g.a[0]);
        files.insert (g.files.begin (), g.files.end ());
    }
    for (const auto &f : files) cli::put (f.first, f.second);
    NOTE (s, n0 << " " << (c.compressed ? "compressed" : "uncompressed") << " records: " << chain_text (v));
    for (const auto &u : used) s.label (u);
    const auto r = run_chain (v, in);
    CHECK_MSG (r.ok (), chain_text (v) << ": " << r.text ());
    check_same (plain_zeros (decode_all (r.out, "the output of " + chain_text (v))), plain_zeros (m), "the output of " + chain_text (v));
    // the same through files
    if (s.chance (1, 3))
    {
        auto at = cli::path ("step0");
        cli::put (at, in);
        for (size_t k = 0; k < v.size (); ++k)
        {
            auto a = v[k];
            const auto to = cli::path ("step" + std::to_string (k + 1));
            a.push_back (at);
            a.push_back (to);
            const auto q = cli::run (a);
            CHECK_MSG (q.ok (), cli::shell_text (a) << ": " << q.text ());
            at = to;
        }
        CHECK_MSG (cli::get (at) == r.out, chain_text (v) << " gives other output than the same steps through files");
        s.label ("through files");
    }
    // and a program at the end that prints
    if (s.chance (1, 3))
    {
        auto w = v;
        std::string want;
        if (s.chance (1, 4)) { w.push_back ({ "spoc_srs" }); want = m.wkt + "\n"; }
        else
        {
            const auto f = gen_int_field (s, m.extras ());
            w.push_back ({ "spoc_tool", "--get-field=" + f });
            for (const auto &q : m.r) { if (get (q, f) >= (1ull << 53)) { want.clear (); w.pop_back (); break; } want += std::to_string (get (q, f)) + "\n"; }
        }
        if (w.size () > v.size ())
        {
            const auto q = run_chain (w, in);
            CHECK_MSG (q.ok () && q.out == want, chain_text (w) << " prints '" << pbt::tail (q.out, 200) << "', expected '" << pbt::tail (want, 200) << "': " << q.text ());
            s.label ("printed");
        }
    }
    if (used.size () > 1 && !m.r.empty ()) s.nontrivial ();
}

// A step that is slow to deliver, or that delivers in parts, changes nothing
PROP (slow, 90, "every case: at least one pause, with records at the end")
{
    shape sh;
    cloud c = gen_input (s, sh, 1);
    const auto in = encode (c);
    const size_t n0 = c.r.size ();
    std::vector<std::vector<std::string>> v;
    std::map<std::string, std::string> files;
    const auto pause = [&] (size_t bytes)
    {
        const uint64_t at = s.chance (1, 3) ? 0 : s.range (0, bytes);
        v.push_back ({ "pause", std::to_string (at), s.chance (1, 8) ? "1.3" : s.pick<std::string> ({ "0.12", "0.25", "0.6" }) });
    };
    cloud m = c;
    pause (in.size ());
    for (unsigned k = s.range (1, 3); k; --k)
    {
        const auto g = gen_stage (s, m, sh, k);
        v.push_back (g.a);
        files.insert (g.files.begin (), g.files.end ());
        if (k > 1 && s.coin ()) pause (encode (m).size ());
    }
    for (const auto &f : files) cli::put (f.first, f.second);
    NOTE (s, n0 << " " << (c.compressed ? "compressed" : "uncompressed") << " records: " << chain_text (v));
    const auto r = run_chain (v, in);
    CHECK_MSG (r.ok (), chain_text (v) << ": " << r.text ());
    check_same (plain_zeros (decode_all (r.out, "the output of " + chain_text (v))), plain_zeros (m), "the output of " + chain_text (v));
    if (!m.r.empty ()) s.nontrivial ();
}

// ---- laws between programs ----
PROP (split_transform, 1500, "two or more commands on some records")
{
    shape sh;
    cloud c = gen_input (s, sh);
    c.compressed = false;
    std::vector<std::string> one = { "spoc_transform" };
    std::vector<std::vector<std::string>> many;
    for (unsigned k = s.range (1, 5); k; --k)
    {
        const auto q = gen_cmd (s, c, true);
        const auto o = "--" + q.name + "=" + q.params;
        if (many.empty () || s.chance (2, 3)) many.push_back ({ "spoc_transform" });
        many.back ().push_back (o);
        one.push_back (o);
    }
    NOTE (s, c.r.size () << " records: " << cli::shell_text (one) << " against " << chain_text (many));
    const auto a = cli::run (one, encode (c)), b = run_chain (many, encode (c));
    CHECK_MSG (a.ok () && b.ok (), cli::shell_text (one) << ": " << a.text () << "\n" << chain_text (many) << ": " << b.text ());
    check_same (decode_all (b.out, chain_text (many)), decode_all (a.out, cli::shell_text (one)), chain_text (many) + " against one invocation");
    if (many.size () > 1 && !c.r.empty ()) s.nontrivial ();
}

// A program does the same to compressed input as to uncompressed input
PROP (transparent, 2500, "the program succeeds on records")
{
    shape sh;
    cloud c = gen_input (s, sh, 1);
    c.compressed = false;
    auto d = c;
    d.compressed = true;
    std::vector<std::string> a;
    std::string res = "1";
    { Ps v; for (const auto &r : c.r) v.push_back (mk (r.x, r.y, r.z)); res = text (gen_res (s, sh, geom::min_corner (v), geom::max_corner (v))); }
    bool prints = false;
    switch (s.draw (12))
    {
        case 0: a = { "spoc_filter", "--unique-xyz", "--random-seed=" + std::to_string (s.draw (5)) }; break;
        case 1: a = { "spoc_filter", "--subsample=" + res, "--random-seed=" + std::to_string (s.draw (5)) }; break;
        case 2: a = { "spoc_filter", "--keep-class=1", "--keep-class=2" }; break;
        case 3: a = { "spoc_tool", "--recenter-xyz" }; break;
        case 4: a = { "spoc_tool", "--subtract-min-xy" }; break;
        case 5: a = { "spoc_tool", "--resize-extra=" + std::to_string (s.draw (6)) }; break;
        case 6: cli::put (cli::path ("high"), encode (s.coin () ? c : d)); a = { "spoc_tool", "--upsample-classifications=" + cli::path ("high"), "--resolution=" + res }; break;
        case 7: a = { "spoc_srs", "--srs=ABC" }; break;
        case 8: a = { "spoc_srs" }; prints = true; break;
        case 9: a = { "spoc_tool", "--get-field=" + std::string (1, "xyzcpirgb"[s.draw (9)]) }; prints = true; break;
        case 10: a = { "spoc_info", "--header-info" }; if (s.coin ()) a.push_back ("-q"); if (s.coin ()) a.push_back ("-j"); prints = true; break;
        default:
        {
            // tiles of the same records
            const auto p = cli::fresh_dir ("p"), q = cli::fresh_dir ("q");
            const auto n = std::to_string (s.range (1, 4));
            const auto r1 = cli::run ({ "spoc_tile", "--tiles=" + n, "--prefix=" + p + "/t" }, encode (c)), r2 = cli::run ({ "spoc_tile", "--tiles=" + n, "--prefix=" + q + "/t" }, encode (d));
            CHECK_MSG (r1.ok () && r2.ok (), "spoc_tile: " << r1.text () << " " << r2.text ());
            const auto l1 = cli::ls (p), l2 = cli::ls (q);
            CHECK_MSG (l1.size () == l2.size (), "spoc_tile writes " << l1.size () << " files for uncompressed and " << l2.size () << " for compressed input");
            for (size_t k = 0; k < l1.size (); ++k)
            {
                auto t1 = decode_all (cli::get (p + "/" + l1[k]), l1[k]), t2 = decode_all (cli::get (q + "/" + l2[k]), l2[k]);
                CHECK_MSG (l1[k].substr (0, l1[k].size () - 5) == l2[k].substr (0, l2[k].size () - 5), "tiles are called " << l1[k] << " and " << l2[k]);
                check_same_records (t2.r, t1.r, "tile " + l2[k] + " of compressed input");
                CHECK (t1.wkt == c.wkt && t2.wkt == c.wkt);
            }
            s.label ("spoc_tile");
            s.nontrivial ();
            return;
        }
    }
    NOTE (s, c.r.size () << " records: " << cli::shell_text (a));
    s.label (a[0]);
    const auto u = cli::run (a, encode (c)), z = cli::run (a, encode (d));
    CHECK_MSG (u.ok () && z.ok (), cli::shell_text (a) << ": " << u.text () << "; on compressed input: " << z.text ());
    if (prints) CHECK_MSG (u.out == z.out, cli::shell_text (a) << " prints other text for compressed input");
    else
    {
        const auto want = decode_all (u.out, "the output"), got = decode_all (z.out, "the output for compressed input");
        CHECK_MSG (got.wkt == want.wkt, cli::shell_text (a) << ": another WKT for compressed input");
        check_same_records (got.r, want.r, cli::shell_text (a) + " on compressed input");
    }
    s.nontrivial ();
}

// What has been split can be put together again
PROP (split_and_merge, 1200, "at least two parts with records")
{
    shape sh;
    cloud c = gen_input (s, sh, 1);
    // records that can be told apart whatever happens to their IDs
    for (size_t k = 0; k < c.r.size (); ++k) { c.r[k].i = k; c.r[k].r = k >> 16; }
    const auto in = encode (c);
    const bool tiles = s.coin ();
    const auto d = cli::fresh_dir ("parts");
    std::vector<std::string> a = { "spoc_merge" };
    std::vector<cloud> parts;
    if (tiles)
    {
        std::vector<std::string> t = { "spoc_tile", "--tiles=" + std::to_string (s.range (2, 5)), "--prefix=" + d + "/t" };
        const auto r = cli::run (t, in);
        CHECK_MSG (r.ok (), cli::shell_text (t) << ": " << r.text ());
        for (const auto &f : cli::ls (d)) a.push_back (d + "/" + f);
    }
    else
    {
        std::set<uint32_t> classes;
        for (const auto &r : c.r) classes.insert (r.c);
        for (auto k : classes)
        {
            const auto fn = d + "/class" + std::to_string (k);
            const auto q = cli::run ({ "spoc_filter", "--keep-class=" + std::to_string (k) }, in);
            CHECK_MSG (q.ok (), "spoc_filter: " << q.text ());
            cli::put (fn, q.out);
            a.push_back (fn);
        }
    }
    if (a.size () < 3) s.discard ();
    const bool one_id = s.coin ();
    if (one_id) a.insert (a.begin () + 1, "--point-id=7");
    NOTE (s, c.r.size () << " records in " << a.size () - 1 - one_id << " parts: " << cli::shell_text (a));
    const auto r = cli::run (a);
    CHECK_MSG (r.ok (), cli::shell_text (a) << ": " << r.text ());
    const auto m = decode_all (r.out, "the merged parts");
    CHECK_MSG (m.wkt == c.wkt && m.compressed == c.compressed, "the merged parts have another WKT or compression");
    std::map<uint32_t, rec> by;
    for (const auto &q : m.r) by[q.i | uint32_t (q.r) << 16] = q;
    CHECK_MSG (m.r.size () == c.r.size () && by.size () == c.r.size (), m.r.size () << " records (" << by.size () << " different) after merging the parts of " << c.r.size ());
    for (const auto &q : c.r)
    {
        auto w = by.at (q.i | uint32_t (q.r) << 16);
        if (one_id) CHECK_MSG (w.p == 7, "a merged record has ID " << w.p);
        else CHECK_MSG (w.p < a.size () - 1, "a merged record has ID " << w.p);
        w.p = q.p;
        CHECK_MSG (same (w, q), "a record came back as " << w << ", it was " << q);
    }
    s.label (tiles ? "tiles" : "classes");
    s.nontrivial ();
}

// A step that fails makes the chain fail. (What only prints the header, like
// spoc_srs, does not come after it: the header may be fine.)
PROP (broken, 2500, "all")
{
    shape sh;
    cloud c = gen_input (s, sh, 1);
    const auto in = encode (c);
    const size_t n0 = c.r.size ();
    cloud m = c;
    std::vector<std::vector<std::string>> v;
    std::map<std::string, std::string> files;
    for (unsigned k = s.draw (3); k; --k)
    {
        const auto before = m;
        const auto g = gen_stage (s, m, sh, k);
        if (m.r.empty ()) { m = before; continue; }
        v.push_back (g.a);
        files.insert (g.files.begin (), g.files.end ());
    }
    std::string what;
    switch (s.draw (6))
    {
        case 0: what = "wrong compression"; v.push_back ({ m.compressed ? "spoc_compress" : "spoc_decompress" }); break;
        case 1: what = "a comparison that is none"; v.push_back ({ "spoc_filter", "--remove-coords=x = 3" }); break;
        case 2: what = "a command with a bad argument"; if (m.compressed) v.push_back ({ "spoc_decompress" }); v.push_back ({ "spoc_transform", "--set=q,1" }); break;
        case 3: what = "no such extra field"; v.push_back ({ "spoc_tool", "--get-field=e" + std::to_string (m.extras ()) }); break;
        case 4: what = "an unknown option"; v.push_back ({ s.pick<std::string> ({ "spoc_filter", "spoc_srs", "spoc_tool" }), "--unknown" }); break;
        default: what = "text for a field file is missing"; v.push_back ({ "spoc_tool", "--set-field=c", "--field-filename=" + cli::path ("missing") });
    }
    const size_t bad = v.size () - 1;
    for (unsigned k = s.draw (3); k; --k)
        v.push_back (s.pick<std::vector<std::string>> ({ { "spoc_filter", "--unique-xyz" }, { "spoc_tool", "--recenter-xy" }, { "spoc_srs", "--srs=ABC" }, { "spoc_tool", "--resize-extra=3" }, { "spoc_transform", "--add-x=1" }, { "spoc_tool", "--get-field=x" } }));
    for (const auto &f : files) cli::put (f.first, f.second);
    NOTE (s, n0 << " records: " << chain_text (v) << ": " << what << " in step " << bad);
    s.label (what);
    s.label_if (bad + 1 < v.size (), "not the last step");
    s.nontrivial ();
    const auto r = run_chain (v, in);
    CHECK_MSG (r.rejected () && !r.err.empty (), chain_text (v) << ", with " << what << " in step " << bad << ": " << r.text ());
}

PBT_MAIN
