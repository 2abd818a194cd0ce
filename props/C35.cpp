// C35: spoc_info reports true statistics, in text and JSON
#include "geom.h"
#include "cli.h"
#include "jsonp.h"
#include "info.h"
using namespace geom;

struct flags
{
    bool json = false, header = true, summary = true, classes = true, metrics = true, compact = true, quartiles = false;
};
static std::string text (const flags &f)
{
    return std::string (f.json ? "json" : "text") + (f.header ? " header" : "") + (f.summary ? " summary" : "") + (f.classes ? " classes" : "") + (f.metrics ? " metrics" : "")
        + (f.compact ? " compact" : "") + (f.quartiles ? " quartiles" : "");
}
static flags gen_flags (pbt::Source &s)
{
    flags f;
    f.json = s.coin (); f.header = s.coin (); f.summary = s.coin (); f.classes = s.coin (); f.metrics = s.coin (); f.compact = s.coin (); f.quartiles = s.coin ();
    return f;
}

// The values to be printed for a column: as text if they are integers
struct entry { std::string name; bool real; std::string text; double d; };
template<typename T> static std::vector<entry> stats (std::vector<T> v, bool quartiles)
{
    std::sort (v.begin (), v.end ());
    const size_t n = v.size ();
    std::vector<entry> r;
    const auto add = [&] (const std::string &name, T x)
    {
        entry s { name, std::is_floating_point<T>::value, "", double (x) };
        if constexpr (!std::is_floating_point<T>::value) s.text = std::to_string (x);
        r.push_back (s);
    };
    add ("range", T (v[n - 1] - v[0]));
    if (quartiles) { add ("q0", v[0]); add ("q1", v[n / 4]); add ("q2", v[n / 2]); add ("q3", v[3 * n / 4]); add ("q4", v[n - 1]); }
    else { add ("min", v[0]); add ("max", v[n - 1]); }
    return r;
}
struct col_stats { std::string name; std::vector<entry> s; std::vector<entry> steps; };
template<typename T> static col_stats col (const std::string &name, const std::vector<T> &v, bool quartiles)
{
    col_stats c;
    c.name = name;
    c.s = stats (v, quartiles);
    return c;
}
static std::vector<col_stats> all_columns (const std::vector<rec> &r, bool q)
{
    std::vector<col_stats> o;
    if (r.empty ()) return o;
    std::vector<double> d[3];
    std::vector<uint32_t> u[2];
    std::vector<uint16_t> h[4];
    for (const auto &p : r)
    {
        d[0].push_back (p.x); d[1].push_back (p.y); d[2].push_back (p.z);
        u[0].push_back (p.c); u[1].push_back (p.p);
        h[0].push_back (p.i); h[1].push_back (p.r); h[2].push_back (p.g); h[3].push_back (p.b);
    }
    for (int k = 0; k < 3; ++k) o.push_back (col (std::string (1, "xyz"[k]), d[k], q));
    for (int k = 0; k < 2; ++k) o.push_back (col (std::string (1, "cp"[k]), u[k], q));
    for (int k = 0; k < 4; ++k) o.push_back (col (std::string (1, "irgb"[k]), h[k], q));
    for (size_t e = 0; e < r[0].e.size (); ++e)
    {
        std::vector<uint64_t> v;
        for (const auto &p : r) v.push_back (p.e[e]);
        o.push_back (col ("extra_" + std::to_string (e), v, q));
    }
    return o;
}
static void near (const std::string &t, const entry &w, double half, const std::string &what)
{
    if (!w.real) { CHECK_MSG (t == w.text, what << " is reported as " << t << ", expected " << w.text); return; }
    char *e = nullptr;
    const double v = strtod (t.c_str (), &e);
    CHECK_MSG (!t.empty () && !*e && (v == w.d || std::fabs (v - w.d) <= half * 1.001 + std::fabs (w.d) * 4e-16), what << " is reported as " << t << ", expected " << w.d);
}

static std::map<std::string, size_t> class_counts (const std::vector<rec> &r)
{
    std::map<std::string, size_t> m;
    for (const auto &p : r) { char t[32]; snprintf (t, sizeof t, "%03u", p.c); ++m[t]; }
    return m;
}
static std::string class_name (uint32_t c)
{
    static const char *n[] = { "unclassified", "unknown", "ground", "low_veg", "med_veg", "high_veg", "building", "low_noise", "reserved", "water", "rail", "road", "reserved",
        "wire_guard", "wire_conductor", "transmission_tower", "wire_connector", "bridge_deck", "high_noise", "overhead_structure", "ignored", "snow", "exclusion" };
    return c < 23 ? n[c] : c < 64 ? "reserved" : c < 256 ? "user_defined" : "undefined";
}
static std::map<std::string, double> densities (const std::vector<rec> &r)
{
    std::map<std::string, double> m;
    if (r.empty ()) return m;
    Ps v;
    for (const auto &p : r) v.push_back (mk (p.x, p.y, p.z));
    const P lo = geom::min_corner (v), hi = geom::max_corner (v);
    const double area = (hi.x - lo.x) * (hi.y - lo.y);
    std::set<std::pair<uint64_t, uint64_t>> g;
    std::set<vox> q;
    for (const auto &p : v) { const auto id = geom::voxel_of (p, lo, 1.0); q.insert (id); g.insert ({ id[0], id[1] }); }
    m["extent_point_density"] = double (v.size ()) / area;
    m["grid_point_density"] = double (v.size ()) / double (g.size ());
    m["voxel_point_density"] = double (v.size ()) / double (q.size ());
    return m;
}
static void check_density (const std::string &t, double w, const std::string &what)
{
    char *e = nullptr;
    const double v = strtod (t.c_str (), &e);
    CHECK_MSG (!t.empty () && !*e, what << " is reported as " << t);
    if (!std::isfinite (w)) CHECK_MSG (!std::isfinite (v), what << " is reported as " << t << ", expected " << w);
    else CHECK_MSG (std::fabs (v - w) <= 6e-16 + 1e-12 * w, what << " is reported as " << t << ", expected " << w);
}

static void check_json (const std::string &out, const cloud &c, const flags &f)
{
    const auto j = jsonp::parse (out);
    CHECK_MSG (j.kind == jsonp::node::OBJECT, "the report is no object");
    std::set<std::string> want, have;
    if (f.header) want.insert ("header");
    if (f.summary) want.insert ("summary");
    if (f.classes) want.insert ("classifications");
    if (f.metrics) want.insert ("metrics");
    for (const auto &m : j.members) CHECK_MSG (have.insert (m.first).second && want.count (m.first), "section '" << m.first << "' was not asked for, or is there twice");
    CHECK_MSG (have == want, "a section is missing: only " << have.size () << " of " << want.size ());
    const auto get = [] (const jsonp::node &n, const std::string &k) -> const jsonp::node & { const auto *p = n.find (k); CHECK_MSG (p, "'" << k << "' is missing"); return *p; };
    if (f.header)
    {
        const auto &h = get (j, "header");
        CHECK_MSG (get (h, "major_version").text == std::to_string (int (spoc::MAJOR_VERSION)) && get (h, "minor_version").text == std::to_string (int (spoc::MINOR_VERSION)), "the version is wrong");
        CHECK_MSG (get (h, "wkt").text == c.wkt && get (h, "wkt").kind == jsonp::node::STRING, "the WKT is reported as '" << get (h, "wkt").text << "', expected '" << c.wkt << "'");
        CHECK_MSG (get (h, "total_points").text == std::to_string (c.r.size ()), "total_points is " << get (h, "total_points").text << ", expected " << c.r.size ());
        const auto z = get (h, "compressed").text; // the flag byte, or a truth value
        CHECK_MSG (z == (c.compressed ? "1" : "0") || z == (c.compressed ? "true" : "false"), "compressed is " << get (h, "compressed").text);
    }
    if (f.summary)
    {
        const auto &q = get (j, "summary");
        const auto cols = all_columns (c.r, f.quartiles);
        const auto &extra = get (q, "extra");
        CHECK_MSG (extra.kind == jsonp::node::ARRAY && extra.items.size () == c.extras (), extra.items.size () << " extra fields are reported, expected " << c.extras ());
        CHECK_MSG (q.members.size () == 10, "the summary has " << q.members.size () << " members, expected 10");
        for (size_t k = 0; k < cols.size (); ++k)
        {
            const auto &o = k < 9 ? get (q, cols[k].name) : extra.items[k - 9];
            for (const auto &x : cols[k].s) near (get (o, x.name).text, x, 6e-16, cols[k].name + "." + x.name);
            CHECK_MSG (o.members.size () == cols[k].s.size (), "the summary of " << cols[k].name << " has " << o.members.size () << " members");
        }
        if (c.r.empty ()) for (char k : std::string ("xyzcpirgb")) CHECK_MSG (get (get (q, std::string (1, k)), "size").text == "0", "the size of an empty column is not 0");
    }
    if (f.classes)
    {
        const auto &q = get (j, "classifications");
        const auto m = class_counts (c.r);
        CHECK_MSG (q.members.size () == m.size (), q.members.size () << " classes are reported, expected " << m.size ());
        for (const auto &x : m) CHECK_MSG (get (q, x.first).text == std::to_string (x.second), "class " << x.first << " is counted " << get (q, x.first).text << " times, expected " << x.second);
    }
    if (f.metrics)
    {
        const auto &q = get (j, "metrics");
        for (const auto &x : densities (c.r)) check_density (get (q, x.first).text, x.second, x.first);
        CHECK_MSG (q.members.size () == 3, q.members.size () << " metrics");
    }
}

// All numbers of a line
static std::vector<std::string> numbers (const std::string &l)
{
    std::vector<std::string> v;
    std::string t;
    for (char ch : l + " ")
    {
        if (strchr (" ,\t=", ch)) { char *e = nullptr; strtod (t.c_str (), &e); if (!t.empty () && !*e) v.push_back (t); t.clear (); }
        else t += ch;
    }
    return v;
}
static void check_text (const std::string &out, const cloud &c, const flags &f)
{
    std::vector<std::pair<std::string, std::string>> lines;
    std::istringstream i (out);
    std::string l;
    while (std::getline (i, l))
    {
        const size_t t = l.find ('\t');
        CHECK_MSG (t != std::string::npos, "a line without a tab: '" << l << "'");
        lines.push_back ({ l.substr (0, t), l.substr (t + 1) });
    }
    CHECK_MSG (out.empty () || out.back () == '\n', "the last line does not end");
    size_t at = 0;
    const auto next = [&] (const std::string &k) -> const std::string &
    {
        CHECK_MSG (at < lines.size (), "'" << k << "' is missing");
        CHECK_MSG (lines[at].first == k, "'" << lines[at].first << "' is reported where '" << k << "' is expected");
        return lines[at++].second;
    };
    if (f.header)
    {
        CHECK_MSG (next ("major_version") == std::to_string (int (spoc::MAJOR_VERSION)), "the major version is wrong");
        CHECK_MSG (next ("minor_version") == std::to_string (int (spoc::MINOR_VERSION)), "the minor version is wrong");
        const auto &w = next ("ogc_wkt");
        CHECK_MSG (w == "'" + c.wkt + "'", "the WKT is reported as " << w << ", expected '" << c.wkt << "'");
        const auto &n = next ("total_points");
        CHECK_MSG (n == std::to_string (c.r.size ()), "total_points is " << n << ", expected " << c.r.size ());
        const auto &z = next ("compressed");
        CHECK_MSG (z == (c.compressed ? "true" : "false"), "compressed is " << z);
    }
    if (f.summary)
    {
        const auto cols = all_columns (c.r, f.quartiles);
        for (const auto &k : cols)
        {
            const auto &first = next (k.name);
            if (f.compact)
            {
                auto n = numbers (first);
                CHECK_MSG (n.size () == (f.quartiles ? 7 : 3), k.name << " is reported as '" << first << "'");
                near (n[0], k.s[0], 0.0005, "the range of " + k.name);
                if (!f.quartiles) { near (n[1], k.s[1], 0.0005, "the minimum of " + k.name); near (n[2], k.s[2], 0.0005, "the maximum of " + k.name); }
                else
                {
                    near (n[1], k.s[1], 0.0005, "q0 of " + k.name);
                    for (int q = 2; q <= 5; ++q)
                    {
                        entry d = k.s[q];
                        d.d = k.s[q].d - k.s[q - 1].d;
                        if (!d.real) d.text = std::to_string (std::stoull (k.s[q].text) - std::stoull (k.s[q - 1].text));
                        near (n[q], d, 0.0005, "the step to q" + std::to_string (q - 1) + " of " + k.name);
                    }
                    near (n[6], k.s[5], 0.0005, "q4 of " + k.name);
                }
            }
            else
            {
                CHECK_MSG (first == std::to_string (c.r.size ()), k.name << " has " << first << " values, expected " << c.r.size ());
                for (const auto &x : k.s) near (next (x.name), x, 0.0005, x.name + " of " + k.name);
            }
        }
        if (c.r.empty () && !f.compact) for (char k : std::string ("xyzcpirgb")) { next (std::string (1, k)); CHECK_MSG (next ("size") == "0" && next ("min") == "0" && next ("max") == "0", "an empty column"); }
    }
    if (f.classes)
    {
        const auto m = class_counts (c.r);
        std::set<std::string> seen;
        for (; at < lines.size () && lines[at].first.compare (0, 4, "cls_") == 0; ++at)
        {
            const auto k = lines[at].first.substr (4);
            const auto &v = lines[at].second;
            CHECK_MSG (m.count (k) && seen.insert (k).second, "class " << k << " is reported, but does not occur, or is reported twice");
            const auto w = std::to_string (m.at (k)) + "\t" + class_name (std::stoul (k));
            CHECK_MSG (v == w, "class " << k << " is reported as '" << v << "', expected '" << w << "'");
        }
        CHECK_MSG (seen.size () == m.size (), seen.size () << " classes are reported, expected " << m.size ());
    }
    if (f.metrics)
    {
        const auto d = densities (c.r);
        for (const char *k : { "extent_point_density", "grid_point_density", "voxel_point_density" })
        {
            const auto v = next (k);
            const std::string unit = std::string (k) == "voxel_point_density" ? "\tpts/unit^3" : "\tpts/unit^2";
            CHECK_MSG (v.size () > unit.size () && v.compare (v.size () - unit.size (), unit.size (), unit) == 0, k << " is reported as '" << v << "'");
            if (!c.r.empty ()) check_density (v.substr (0, v.size () - unit.size ()), d.at (k), k);
        }
    }
    CHECK_MSG (at == lines.size (), "'" << lines[at].first << "' was not asked for");
}
static void check (const std::string &out, const cloud &c, const flags &f)
{
    if (f.json) check_json (out, c, f);
    else check_text (out, c, f);
}

static cloud gen (pbt::Source &s, uint64_t max, bool metrics)
{
    cloud c;
    if (!metrics && s.coin ())
    {
        gen_opts o;
        o.kind = FINITE;
        o.max_points = max;
        o.max_extras = s.chance (1, 10) ? 255 : 12;
        c = gen_cloud (s, o);
        c.wkt = gen_text_wkt (s);
        for (auto &r : c.r) for (double *d : { &r.x, &r.y, &r.z }) if (std::fabs (*d) > 1e280) *d = std::fmod (*d, 1000); // no more than 300 digits
        s.label ("any values");
    }
    else
    {
        shape sh;
        const uint64_t n = s.chance (1, 20) ? 0 : s.range (max >= 100000 ? max / 2 : 1, max);
        c.compressed = s.coin ();
        c.wkt = gen_text_wkt (s);
        c.r = records_at (s, gen_points (s, n, sh), s.draw (4));
    }
    // classes: a few often, some rare and large
    const unsigned kind = s.draw (4);
    if (kind < 2) { auto b = s.sub (); for (auto &r : c.r) r.c = b.chance (9, 10) ? b.below (30) : b.below (300); }
    // or long runs of one class, as a sorted file has
    if (kind == 2)
    {
        auto b = s.sub ();
        const size_t runs = s.range (1, c.r.size () > 1000 ? 2 : 4);
        std::vector<uint32_t> cls;
        for (size_t k = 0; k < runs; ++k) cls.push_back (b.chance (9, 10) ? b.below (30) : b.below (300));
        for (size_t k = 0; k < c.r.size (); ++k) c.r[k].c = cls[k * runs / c.r.size ()];
        s.label_if (c.r.size () >= 70000, "long runs of one class");
    }
    return c;
}

PROP (library, 60000, "at least 5 records")
{
    const auto f = gen_flags (s);
    const auto c = gen (s, s.rare (30) ? 140000 : s.chance (1, 60) ? 2000 : 3 + s.size (), f.metrics);
    NOTE (s, c.r.size () << " records, " << c.extras () << " extra fields: " << text (f));
    if (c.r.size () >= 5) s.nontrivial ();
    s.label (f.json ? "json" : "text");
    std::ostringstream o;
    spoc::info_app::process (o, to_file (c), f.json, f.header, f.summary, f.classes, f.metrics, f.compact, f.quartiles);
    check (o.str (), c, f);
}

PROP (tool, 3500, "at least 5 records")
{
    // the options toggle, so that an option given twice has no effect
    flags f;
    std::vector<std::string> a { "spoc_info" };
    std::string shorts;
    const auto toggle = [&] (bool &v, char sht, const char *lng)
    {
        unsigned n = s.chance (1, 12) ? 2 : s.draw (2);
        for (; n; --n)
        {
            v = !v;
            if (s.coin ()) shorts += sht;
            else a.push_back (std::string ("--") + lng);
        }
    };
    toggle (f.json, 'j', "json");
    toggle (f.header, 'a', "header-info");
    toggle (f.summary, 's', "summary-info");
    toggle (f.classes, 'l', "classification-info");
    toggle (f.metrics, 'm', "metric-info");
    toggle (f.compact, 'c', "compact");
    toggle (f.quartiles, 'q', "quartiles");
    if (s.chance (1, 4)) a.push_back (s.coin () ? "-v" : "--verbose");
    if (!shorts.empty ())
    {
        if (s.coin ()) a.insert (a.begin () + 1, "-" + shorts);
        else for (char ch : shorts) a.insert (a.begin () + 1 + s.draw (a.size ()), std::string ("-") + ch);
    }
    const unsigned files = s.draw (4); // 0: standard input
    std::string want;
    std::vector<cloud> in;
    for (unsigned k = 0; k < std::max (1u, files); ++k) in.push_back (gen (s, 3 + s.size (), f.metrics));
    NOTE (s, cli::shell_text (a) << " of " << files << " files, the first with " << in[0].r.size () << " records");
    if (in[0].r.size () >= 5) s.nontrivial ();
    if (!files)
    {
        const auto r = cli::run (a, encode (in[0]));
        CHECK_MSG (r.ok (), "spoc_info failed: " << r.text ());
        check (r.out, in[0], f);
        return;
    }
    auto all = a;
    for (unsigned k = 0; k < files; ++k)
    {
        const auto fn = cli::path ("i" + std::to_string (k));
        cli::put (fn, encode (in[k]));
        all.push_back (fn);
        auto one = a;
        one.push_back (fn);
        const auto r = cli::run (one);
        CHECK_MSG (r.ok (), "spoc_info failed: " << r.text ());
        check (r.out, in[k], f);
        want += r.out;
        CHECK_MSG (cli::get (fn) == encode (in[k]), "the input file was changed");
    }
    if (files == 1) return;
    s.label ("several files");
    const auto r = cli::run (all);
    CHECK_MSG (r.ok (), "spoc_info failed: " << r.text ());
    CHECK_MSG (r.out == want, "the report on several files is not the reports on each, one after another");
}
PBT_MAIN
