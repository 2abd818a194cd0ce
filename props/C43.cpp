// C43: options mean the same however they are spelled
#include "xform.h"
using namespace xform;

struct opt
{
    std::string name;
    char letter = 0;     // the short form, if there is one
    bool arg = false;
    std::string value;
};
struct job
{
    std::string tool;
    std::vector<opt> opts;
    std::vector<cloud> in;
    enum kind_t { IN_OUT, IN_ONLY, MANY, TILE } kind = IN_OUT;
    bool pair = false; // spoc_diff: exactly two inputs
    std::map<std::string, std::string> side; // files that an option names
};
static const std::vector<std::string> &tools ()
{
    static const std::vector<std::string> t = { "spoc_filter", "spoc_filter", "spoc_info", "spoc_transform", "spoc_tile", "spoc_tool", "spoc_diff", "spoc_merge", "spoc_srs", "spoc_compress", "spoc_decompress" };
    return t;
}
static cloud gen_input (pbt::Source &s, unsigned extras, int compressed = -1)
{
    cloud c;
    c.compressed = compressed < 0 ? s.coin () : compressed;
    c.wkt = gen_text_wkt (s);
    const unsigned n = s.range (0, 25);
    auto b = s.sub ();
    const bool wide = s.chance (1, 4);
    for (unsigned k = 0; k < n; ++k)
    {
        rec r;
        r.x = b.below (12) * 0.75; r.y = b.below (12) * 0.75 - 3; r.z = b.below (4) * 1.25;
        r.c = wide ? b.below (100) : b.below (5); r.p = b.below (4); r.i = b.below (4); r.r = b.below (300); r.g = b.below (3); r.b = b.below (2);
        for (unsigned j = 0; j < extras; ++j) r.e.push_back (b.below (9));
        c.r.push_back (r);
    }
    return c;
}
static std::string number (pbt::Source &s, bool positive)
{
    const double v = positive ? s.pick ({ 0.5, 1.0, 1.5, 2.0, 2.5, 4.0 }) : s.irange (-40, 40) * 0.25;
    return text (v, false);
}
static job gen_job (pbt::Source &s)
{
    job j;
    j.tool = tools ()[s.draw (tools ().size ())];
    const unsigned extras = s.draw (4);
    auto flag = [&] (const char *n, char l) { opt o; o.name = n; o.letter = l; j.opts.push_back (o); };
    auto val = [&] (const char *n, char l, const std::string &v) { opt o; o.name = n; o.letter = l; o.arg = true; o.value = v; j.opts.push_back (o); };
    auto small = [&] { return std::to_string (s.chance (1, 3) ? s.draw (130) : s.draw (5)); };
    const unsigned count = s.range (1, 5);
    auto field = [&] { const unsigned f = s.draw (extras ? 7 : 6); return f < 6 ? std::string (1, "cpirgb"[f]) : "e" + std::to_string (s.draw (extras)); };
    if (j.tool == "spoc_filter")
        for (unsigned k = 0; k < count; ++k)
            switch (s.draw (7))
            {
                case 0: case 1: val ("keep-class", 'k', small ()); break;
                case 2: val ("remove-class", 'r', small ()); break;
                case 3: val ("random-seed", 'a', small ()); break;
                case 4: flag ("unique-xyz", 'u'); break;
                case 5: val ("subsample", 's', number (s, true)); break;
                default: val ("remove-coords", 'c', std::string (1, "xyz"[s.draw (3)]) + s.pick<std::string> ({ " < ", " > " }) + number (s, false));
            }
    else if (j.tool == "spoc_info")
    {
        j.kind = job::MANY;
        for (unsigned k = 0; k < count; ++k)
            switch (s.draw (7))
            {
                case 0: flag ("json", 'j'); break;
                case 1: flag ("header-info", 'a'); break;
                case 2: flag ("summary-info", 's'); break;
                case 3: flag ("classification-info", 'l'); break;
                case 4: flag ("metric-info", 'm'); break;
                case 5: flag ("compact", 'c'); break;
                default: flag ("quartiles", 'q');
            }
    }
    else if (j.tool == "spoc_transform")
        for (unsigned k = 0; k < count; ++k)
            switch (s.draw (9))
            {
                case 0: val (s.pick<std::string> ({ "add-x", "add-y", "add-z" }).c_str (), 0, number (s, false)); break;
                case 1: val (s.pick<std::string> ({ "scale-x", "scale-y", "scale-z" }).c_str (), 0, number (s, false)); break;
                case 2: val (s.pick<std::string> ({ "rotate-x", "rotate-y", "rotate-z" }).c_str (), 0, number (s, false)); break;
                case 3: val ("random-seed", 'a', small ()); break;
                case 4: val (s.pick<std::string> ({ "uniform-noise", "uniform-noise-x", "uniform-noise-y", "uniform-noise-z", "gaussian-noise", "gaussian-noise-x", "gaussian-noise-y", "gaussian-noise-z" }).c_str (), 0, number (s, true)); break;
                case 5: val ("quantize-xyz", 0, number (s, true)); break;
                case 6: val ("set", 0, field () + "," + small ()); break;
                case 7: val (s.pick<std::string> ({ "replace", "replace-not" }).c_str (), 0, field () + "," + small () + "," + small ()); break;
                default: val ("copy-field", 0, field () + "," + field ());
            }
    else if (j.tool == "spoc_tile")
    {
        j.kind = job::TILE;
        switch (s.draw (4))
        {
            case 0: val ("tiles", 't', std::to_string (s.range (1, s.chance (1, 3) ? 20 : 5))); break;
            case 1: val ("tile-size", 's', number (s, true)); break;
            case 2: val ("tile-size-x", 'x', number (s, true)); if (s.coin ()) val ("tile-size-y", 'y', number (s, true)); break;
            default: val ("tile-size-y", 'y', number (s, true));
        }
        if (s.coin ()) val ("digits", 'd', std::to_string (s.range (1, s.chance (1, 3) ? 12 : 5)));
        if (s.coin ()) flag ("force", 'f');
        val ("prefix", 'p', s.pick<std::string> ({ "t", "tile_", "a b", "-p", "v=3" }));
    }
    else if (j.tool == "spoc_tool")
        switch (s.draw (9))
        {
            case 0: flag ("recenter-xy", 0); break;
            case 1: flag ("recenter-xyz", 0); break;
            case 2: flag ("subtract-min-xy", 0); break;
            case 3: flag ("subtract-min-xyz", 0); break;
            case 4: val ("resize-extra", 0, std::to_string (s.draw (20))); break;
            case 5: case 6:
            {
                val ("set-field", 's', s.coin () ? std::string (1, "xyz"[s.draw (3)]) : field ());
                const std::string n = s.pick<std::string> ({ "values", "-values", "the values" });
                val ("field-filename", 'f', n);
                auto b = s.sub ();
                std::string t;
                for (unsigned k = 0; k < 25; ++k) t += std::to_string (b.below (90)) + "\n";
                j.side[n] = t;
                break;
            }
            case 7:
            {
                const std::string n = s.pick<std::string> ({ "low", "low resolution" });
                val ("upsample-classifications", 0, n);
                val ("resolution", 0, number (s, true));
                j.side[n] = "low";
                break;
            }
            default: val ("get-field", 'g', s.coin () ? std::string (1, "xyz"[s.draw (3)]) : field ()); j.kind = job::IN_ONLY;
        }
    else if (j.tool == "spoc_diff")
    {
        j.kind = job::MANY;
        j.pair = true;
        switch (s.draw (4))
        {
            case 0: flag ("header-only", 'a'); break;
            case 1: flag ("data-only", 'd'); break;
            case 2: for (unsigned k = s.range (1, 3); k; --k) { std::string t; for (unsigned n = s.range (1, 3); n; --n) t += "xyzcpirgb"[s.draw (9)]; val ("field", 'f', t); } break;
            default: break;
        }
        if (s.coin () || j.opts.empty ()) flag ("reverse", 'r');
    }
    else if (j.tool == "spoc_merge")
    {
        j.kind = job::MANY;
        j.pair = true;
        if (s.coin ()) flag ("quiet", 'q');
        if (s.coin () || j.opts.empty ()) val ("point-id", 'p', std::to_string (s.draw (30)));
    }
    else if (j.tool == "spoc_srs")
    {
        if (s.chance (2, 3)) val ("srs", 's', s.coin () ? gen_text_wkt (s) : s.pick<std::string> ({ "", "-s", "--srs", "a=b", " ", "-" }));
        else j.kind = job::MANY;
    }
    if (s.chance (1, 3) || j.opts.empty ()) { flag ("verbose", 'v'); std::swap (j.opts.back (), j.opts[s.draw (j.opts.size ())]); }
    const int compressed = j.tool == "spoc_compress" || j.tool == "spoc_transform" ? 0 : j.tool == "spoc_decompress" ? 1 : -1;
    j.in.push_back (gen_input (s, extras, compressed));
    for (auto &f : j.side)
        if (f.second == "low") { auto d = j.in[0]; for (auto &r : d.r) r.c += 3; if (d.r.size () > 4) d.r.resize (4); f.second = encode (d); }
    if (j.pair)
    {
        auto d = j.in[0];
        if (s.coin () && !d.r.empty ()) { auto &r = d.r[s.draw (d.r.size ())]; if (s.coin ()) r.i ^= 1; else r.x += 1; }
        if (s.chance (1, 4)) d.wkt += "X";
        j.in.push_back (d);
    }
    return j;
}

// One way to write the options down; 'names' go in between, in their order, if 'mix'
static std::vector<std::string> plain (const job &j)
{
    std::vector<std::string> a = { j.tool };
    for (const auto &o : j.opts) a.push_back ("--" + o.name + (o.arg ? "=" + o.value : ""));
    return a;
}
static std::vector<std::string> spell (pbt::Source &s, const job &j, const std::vector<std::string> &names, std::set<std::string> &how)
{
    std::vector<std::string> a = { j.tool };
    size_t used = 0;
    const bool mix = s.coin ();
    for (size_t k = 0; k < j.opts.size ();)
    {
        while (mix && used < names.size () && names[used][0] != '-' && s.chance (1, 3)) { a.push_back (names[used++]); how.insert ("a file name before an option"); }
        if (j.opts[k].letter && s.chance (2, 3))
        {
            // a cluster of flags, of which the last may take an argument
            std::string t = "-";
            size_t n = 0;
            bool done = false;
            while (!done && k < j.opts.size () && j.opts[k].letter)
            {
                const auto &o = j.opts[k++];
                t += o.letter;
                ++n;
                if (o.arg)
                {
                    done = true;
                    if (o.value.empty () || s.coin ()) { a.push_back (t); a.push_back (o.value); how.insert ("-k value"); }
                    else { a.push_back (t + o.value); how.insert ("-kvalue"); }
                    t.clear ();
                }
                else if (s.chance (1, 3)) break;
            }
            if (!t.empty ()) { a.push_back (t); how.insert ("-k"); }
            if (n > 1) how.insert ("-abc");
            continue;
        }
        const auto &o = j.opts[k++];
        if (!o.arg) { a.push_back ("--" + o.name); continue; }
        if (s.coin ()) { a.push_back ("--" + o.name); a.push_back (o.value); how.insert ("--name value"); }
        else a.push_back ("--" + o.name + "=" + o.value);
    }
    bool dash = s.chance (1, 4);
    for (size_t k = used; k < names.size (); ++k) dash |= names[k][0] == '-';
    if (dash) { a.push_back ("--"); how.insert ("--"); }
    a.insert (a.end (), names.begin () + used, names.end ());
    return a;
}

struct outcome
{
    cli::result r;
    std::string files; // what it left behind
};
static outcome run_in (const std::string &dir, const std::vector<std::string> &a, const std::map<std::string, std::string> &in, const std::string &input = "")
{
    for (const auto &f : in) cli::put (dir + "/" + f.first, f.second);
    cli::opts o;
    o.cwd = dir;
    outcome q;
    q.r = cli::run (a, input, o);
    CHECK_MSG (q.r.exited () && q.r.status != 77, cli::shell_text (a) << ": " << q.r.text ());
    for (const auto &f : cli::ls (dir))
    {
        const auto b = cli::get (dir + "/" + f);
        const auto k = in.find (f);
        if (k != in.end ()) { CHECK_MSG (b == k->second, cli::shell_text (a) << " changed its input file " << f); continue; }
        q.files += f + "\n" + std::to_string (b.size ()) + "\n" + b;
    }
    return q;
}
static void compare (const std::vector<std::string> &a, const outcome &p, const std::vector<std::string> &b, const outcome &q)
{
    CHECK_MSG (p.r.status == q.r.status, "'" << cli::shell_text (b) << "' ends with " << q.r.text () << "\n'" << cli::shell_text (a) << "' ends with " << p.r.text ());
    CHECK_MSG (p.r.out == q.r.out, "'" << cli::shell_text (b) << "' prints other output (" << q.r.out.size () << " bytes) than '" << cli::shell_text (a) << "' (" << p.r.out.size () << " bytes)");
    CHECK_MSG (p.files == q.files, "'" << cli::shell_text (b) << "' writes other files than '" << cli::shell_text (a) << "'");
}

PROP (spellings, 6000, "an option is written in another way and the invocation succeeds on a file with records")
{
    const auto j = gen_job (s);
    std::map<std::string, std::string> files = j.side;
    std::vector<std::string> names;
    const std::vector<std::string> first = { "in.spoc", "two words.spoc", "-v", "--help", "in.zpoc", "a=b", "\xc3\xa9t\xc3\xa9.spoc", "x,1" }, second = { "other.spoc", "-r", "other file" }, outs = { "out.spoc", "out file", "-o", "--out" };
    const bool dash = s.chance (1, 3);
    auto name = [&] (const std::vector<std::string> &v) { std::string n; do n = v[s.draw (v.size ())]; while (n[0] == '-' && !dash); return n; };
    names.push_back (j.kind == job::TILE ? std::string (s.coin () ? "in.spoc" : "two words.spoc") : name (first));
    files[names[0]] = encode (j.in[0]);
    if (j.pair) { names.push_back (name (second)); files[names[1]] = encode (j.in[1]); }
    bool out = j.kind == job::IN_OUT && (j.tool == "spoc_srs" || s.coin ());
    if (out) names.push_back (name (outs));
    auto a = plain (j);
    a.push_back ("--");
    a.insert (a.end (), names.begin (), names.end ());
    std::set<std::string> how;
    const auto b = spell (s, j, names, how);
    NOTE (s, cli::shell_text (a) << "  as  " << cli::shell_text (b));
    s.label (j.tool);
    for (const auto &h : how) s.label (h);
    const auto p = run_in (cli::fresh_dir ("a"), a, files), q = run_in (cli::fresh_dir ("b"), b, files);
    compare (a, p, b, q);
    if (!how.empty () && (p.r.ok () || j.tool == "spoc_diff") && !j.in[0].r.empty ()) s.nontrivial ();
}

// Absolute and relative names, and the same numbers written in other ways
static std::string renumber (pbt::Source &s, const std::string &t, bool whole)
{
    const double v = strtod (t.c_str (), nullptr);
    char o[64];
    switch (s.draw (whole ? 1 : 4))
    {
        case 0: return (v < 0 ? "-" : "") + std::string ("00") + (t[0] == '-' ? t.substr (1) : t);
        case 1: snprintf (o, sizeof o, "%.17e", v); return o;
        case 2: snprintf (o, sizeof o, "%.6f", v); return o;
        default: snprintf (o, sizeof o, "%.3E", v); return o;
    }
}
PROP (numerals, 3000, "a number is written in another way and the invocation succeeds on a file with records")
{
    const auto j = gen_job (s);
    std::map<std::string, std::string> files = j.side;
    std::vector<std::string> n1 = { "in.spoc" };
    files["in.spoc"] = encode (j.in[0]);
    if (j.pair) { n1.push_back ("two.spoc"); files["two.spoc"] = encode (j.in[1]); }
    const auto d1 = cli::fresh_dir ("a"), d2 = cli::fresh_dir ("b");
    auto n2 = n1;
    const bool absolute = s.coin ();
    for (auto &n : n2) n = absolute ? d2 + "/" + n : "../" + d2.substr (d2.rfind ('/') + 1) + "/./" + n;
    if (j.tool == "spoc_srs" && j.kind == job::IN_OUT) { n1.push_back ("out.spoc"); n2.push_back (absolute ? d2 + "/out.spoc" : "./out.spoc"); }
    static const std::set<std::string> whole = { "keep-class", "remove-class", "random-seed", "tiles", "digits", "point-id", "resize-extra" };
    static const std::set<std::string> texts = { "set-field", "field-filename", "upsample-classifications", "get-field", "prefix", "field", "srs", "copy-field", "set", "replace", "replace-not" };
    auto k = j;
    bool changed = false;
    for (auto &o : k.opts)
    {
        if (!o.arg || texts.count (o.name)) continue;
        if (o.name == "remove-coords") o.value = o.value.substr (0, 4) + renumber (s, o.value.substr (4), false);
        else o.value = renumber (s, o.value, whole.count (o.name));
        changed = true;
    }
    auto a = plain (j), b = plain (k);
    a.insert (a.end (), n1.begin (), n1.end ());
    b.insert (b.end (), n2.begin (), n2.end ());
    NOTE (s, cli::shell_text (a) << "  as  " << cli::shell_text (b));
    s.label (j.tool);
    const auto p = run_in (d1, a, files), q = run_in (d2, b, files);
    compare (a, p, b, q);
    if (changed && (p.r.ok () || j.tool == "spoc_diff") && !j.in[0].r.empty ()) s.nontrivial ();
}

// The order of the options matters only among the commands of spoc_transform, and where one is given again
PROP (order, 4000, "the options are given in another order and the invocation succeeds on a file with records")
{
    auto j = gen_job (s);
    // more options, so that there is something to move
    if (j.opts.size () < 2) { opt o; o.name = "verbose"; o.letter = 'v'; j.opts.push_back (o); }
    auto k = j;
    k.opts.clear ();
    auto bound = [&] (const opt &a, const opt &b) {
        if (a.name == b.name) return a.arg && a.name != "keep-class" && a.name != "remove-class" && a.name != "field";
        return j.tool == "spoc_transform" && a.arg && b.arg && a.name != "random-seed" && b.name != "random-seed";
    };
    bool moved = false;
    for (auto rest = j.opts; !rest.empty ();)
    {
        size_t at = s.draw (rest.size ());
        for (size_t e = 0; e < at; ++e) if (bound (rest[e], rest[at])) at = e, e = size_t (-1);
        moved |= at > 0;
        k.opts.push_back (rest[at]);
        rest.erase (rest.begin () + at);
    }
    std::map<std::string, std::string> files = j.side;
    std::vector<std::string> names = { "in.spoc" };
    files[names[0]] = encode (j.in[0]);
    if (j.pair) { names.push_back ("two.spoc"); files[names[1]] = encode (j.in[1]); }
    if (j.tool == "spoc_srs" && j.kind == job::IN_OUT) names.push_back ("out.spoc");
    auto a = plain (j), b = plain (k);
    a.insert (a.end (), names.begin (), names.end ());
    b.insert (b.end (), names.begin (), names.end ());
    NOTE (s, cli::shell_text (a) << "  as  " << cli::shell_text (b));
    s.label (j.tool);
    const auto p = run_in (cli::fresh_dir ("a"), a, files), q = run_in (cli::fresh_dir ("b"), b, files);
    compare (a, p, b, q);
    if (moved && (p.r.ok () || j.tool == "spoc_diff") && !j.in[0].r.empty ()) s.nontrivial ();
}

// Options that say that they may be repeated, or that they toggle something
PROP (repeats, 2500, "an option is given more than once on a file with records")
{
    const unsigned which = s.draw (5);
    if (which == 4)
    {
        // spoc_diff: fields given one at a time, all in one word, or in between
        auto c = gen_input (s, 0), d = c;
        for (unsigned k = s.draw (3); k && !d.r.empty (); --k)
        {
            auto &r = d.r[s.draw (d.r.size ())];
            switch (s.draw (6)) { case 0: r.x += 1; break; case 1: r.y += 1; break; case 2: r.c ^= 1; break; case 3: r.p ^= 2; break; case 4: r.i ^= 4; break; default: r.g ^= 1; }
        }
        std::string all;
        for (unsigned n = s.range (2, 5); n; --n) all += "xyzcpirgb"[s.draw (9)];
        std::vector<std::string> a = { "spoc_diff", "--field=" + all }, b = { "spoc_diff" };
        for (size_t k = 0; k < all.size ();)
        {
            const size_t n = s.range (1, std::min<size_t> (2, all.size () - k));
            const auto t = all.substr (k, n);
            k += n;
            switch (s.draw (3)) { case 0: b.push_back ("-f" + t); break; case 1: b.push_back ("-f"); b.push_back (t); break; default: b.push_back ("--field=" + t); }
            if (s.chance (1, 6)) b.push_back ("-v");
        }
        const auto f1 = cli::path ("d1"), f2 = cli::path ("d2");
        cli::put (f1, encode (c));
        cli::put (f2, encode (d));
        for (auto v : { &a, &b }) { v->push_back (f1); v->push_back (f2); }
        NOTE (s, cli::shell_text (a) << "  as  " << cli::shell_text (b));
        s.label ("spoc_diff");
        const auto p = cli::run (a, ""), q = cli::run (b, "");
        CHECK_MSG (p.exited () && p.status == q.status && p.out == q.out, cli::shell_text (a) << " ends with " << p.text () << " and " << cli::shell_text (b) << " with " << q.text ());
        if (!c.r.empty () && b.size () > 4) s.nontrivial ();
        return;
    }
    const bool info = which < 2;
    const auto c = gen_input (s, s.draw (3));
    std::vector<std::string> a, b;
    if (info)
    {
        a = b = { "spoc_info" };
        static const std::vector<std::pair<std::string, std::string>> t = { { "--json", "-j" }, { "--header-info", "-a" }, { "--summary-info", "-s" }, { "--classification-info", "-l" }, { "--metric-info", "-m" }, { "--compact", "-c" }, { "--quartiles", "-q" } };
        std::vector<std::string> all;
        for (const auto &o : t)
        {
            const unsigned n = s.draw (4);
            if (n % 2) b.push_back (o.first);
            for (unsigned k = 0; k < n; ++k) all.push_back (s.coin () ? o.first : o.second);
        }
        while (!all.empty ()) { const size_t k = s.draw (all.size ()); a.push_back (all[k]); all.erase (all.begin () + k); }
    }
    else
    {
        a = b = { "spoc_filter" };
        const std::string o = s.coin () ? "keep-class" : "remove-class";
        std::set<unsigned> set;
        for (unsigned k = s.range (2, 6); k; --k)
        {
            const unsigned v = s.draw (6);
            set.insert (v);
            a.push_back ("--" + o + "=" + std::to_string (v));
            if (s.chance (1, 4)) a.push_back ("-v");
        }
        for (auto v : set) b.push_back ("--" + o + "=" + std::to_string (v));
        // which is the union of what one class at a time keeps
        std::vector<rec> want;
        for (const auto &r : c.r) if (set.count (r.c) == (o == "keep-class")) want.push_back (r);
        const auto got = cli::run_cloud (a, encode (c));
        check_same_records (got.r, want, cli::shell_text (a));
    }
    NOTE (s, cli::shell_text (a) << "  as  " << cli::shell_text (b));
    s.label (info ? "spoc_info" : "spoc_filter");
    const auto p = cli::run (a, encode (c)), q = cli::run (b, encode (c));
    CHECK_MSG (p.ok () && q.ok (), cli::shell_text (a) << ": " << p.text () << " and " << cli::shell_text (b) << ": " << q.text ());
    CHECK_MSG (p.out == q.out, cli::shell_text (a) << " and " << cli::shell_text (b) << " print different output");
    if (!c.r.empty () && a.size () > 2) s.nontrivial ();
}

PBT_MAIN
