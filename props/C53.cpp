// C53: the headers can be used alone, in any order, and in any number of translation units
#include "cli.h"
#include <getopt.h>
#include <dirent.h>
#include <filesystem>
#include "spoc/spoc.h"
#include "spoc/app_utils.h"
#include "spoc/benchmark_utils.h"
#include "spoc/cmd.h"
#include "spoc/test_utils.h"

#ifndef SPOC_REPO
#error SPOC_REPO
#endif

namespace here
{
#define SNIP(name, headers, ...) static std::string snip_##name () { std::ostringstream out; __VA_ARGS__ return out.str (); }
#include "snips.h"
#undef SNIP
} // namespace here
struct snip { const char *name, *headers, *text; std::string (*run) (); };
static const snip SNIPS[] = {
#define SNIP(name, headers, ...) { #name, headers, #__VA_ARGS__, here::snip_##name },
#include "snips.h"
#undef SNIP
};
static const size_t NSNIPS = sizeof SNIPS / sizeof SNIPS[0];

static const std::vector<std::string> &headers ()
{
    static const std::vector<std::string> v = [] {
        std::vector<std::string> v;
        for (const auto &f : cli::ls (SPOC_REPO "/spoc")) if (f.size () > 2 && f.substr (f.size () - 2) == ".h") v.push_back ("spoc/" + f);
        return v;
    } ();
    return v;
}
static std::vector<std::string> words (const std::string &t)
{
    std::istringstream s (t);
    std::vector<std::string> v;
    for (std::string w; s >> w;) v.push_back (w);
    return v;
}
// Generic names, which a program may want for itself
static const char *const NAMES[] = { "affine", "app_utils", "asprs", "benchmark_utils", "cmd", "compression", "extent", "file", "header", "io", "json", "point", "point_record", "point_records", "radius_search",
    "subsampling", "test_utils", "utils", "voxel", "voxel_index", "spoc_file", "timer", "input_stream", "output_stream", "get_extent", "get_volume", "compress_field", "crop", "quantize", "rotate_x", "add_x", "scale_x",
    "get_x", "get_c", "hash_combine", "hash_value", "read_header", "write_header", "read_spoc_file", "write_spoc_file", "print_help", "consume_int", "is_extra_field", "array", "object", "value", "generate_points",
    "vector", "string", "map", "count", "find", "copy", "sort", "size", "data", "min", "max", "swap", "move", "get", "begin", "end", "pair", "set", "list", "function", "any", "optional", "cout", "endl", "distance",
    "detail", "test_contract", "test_verification", "MAJOR_VERSION", "BUFFER_SIZE", "max_value", "zlib_deflator", "about_equal", "split", "append_double" };

static std::string compiler (pbt::Source &s, std::vector<std::string> &a)
{
    const bool clang = s.chance (1, 3);
    a = { clang ? "/usr/bin/env" : "/usr/bin/env", clang ? "clang++" : "g++", "-std=c++20", "-w", "-I", SPOC_REPO };
    if (s.coin ()) a.push_back ("-DNDEBUG");
    if (!clang && s.coin ()) a.push_back ("-fopenmp");
    return clang ? "clang" : "gcc";
}
static cli::opts compile_env ()
{
    cli::opts o;
    o.cpu_s = 200;
    o.bare_env = true;
    o.env = { std::string ("PATH=") + (getenv ("PATH") ? getenv ("PATH") : "/usr/bin:/bin"), "HOME=/tmp", "LANG=C.UTF-8", "TMPDIR=" + pbt::env ().scratch, "OMP_NUM_THREADS=2" };
    return o;
}

// ---- alone and in any order ----
PROP_CPU (order, 140, "at least two headers", 200)
{
    std::vector<std::string> a;
    const auto with = compiler (s, a);
    std::vector<std::string> inc;
    const auto &h = headers ();
    // every header comes first in turn
    const size_t first = s.draw (h.size ());
    inc.push_back (h[first]);
    const unsigned more = s.draw (4);
    for (unsigned k = 0; k < more; ++k) inc.push_back (h[s.draw (h.size ())]);
    std::string t;
    for (const auto &x : inc) t += "#include \"" + x + "\"\n";
    // global names of the program's own
    const bool types = s.coin ();
    std::set<std::string> own;
    for (const char *n : NAMES) if (s.chance (1, 3)) own.insert (n);
    for (const auto &n : own)
        t += types ? "struct " + n + " { int own; }; " + n + " a_" + n + " { 1 };\n" : "int " + n + " = 1; int a_" + n + " = ++" + n + ";\n";
    t += "int main () { return 0; }\n";
    NOTE (s, with << ": " << t);
    for (const auto &x : inc) s.label (x);
    const auto src = cli::path ("order.cpp");
    cli::put (src, t);
    a.push_back ("-fsyntax-only");
    a.push_back (src);
    const auto r = cli::run (a, "", compile_env ());
    CHECK_MSG (r.ok (), cli::shell_text (a) << " does not compile\n" << t << "\n" << pbt::tail (r.err, 600));
    if (more) s.nontrivial ();
}

// ---- in several translation units ----
PROP_CPU (units, 80, "at least two units that share a header", 400)
{
    std::vector<std::string> cmd;
    std::string with;
    const unsigned n = s.range (2, 3);
    const auto &h = headers ();
    std::vector<std::vector<size_t>> use (n);
    std::vector<std::vector<std::string>> compile;
    std::vector<std::string> flags;
    std::vector<std::string> text;
    const bool alike = s.coin ();
    bool clang = false, parallel = false;
    std::map<std::string, unsigned> shared;
    // the first unit's snippets are likely in the others, too
    for (unsigned u = 0; u < n; ++u)
    {
        if (u && s.chance (3, 4)) use[u] = use[0];
        const unsigned m = s.range (1, 8);
        for (unsigned k = 0; k < m; ++k) use[u].push_back (s.draw (NSNIPS));
        // the tests' header has a part of its own below
        auto tests = [] (const std::string &x) { return x.find ("test_utils.h") != std::string::npos; };
        if (u) std::erase_if (use[u], [&] (size_t k) { return tests (SNIPS[k].headers); });
        std::vector<std::string> inc;
        for (auto k : use[u]) for (const auto &w : words (SNIPS[k].headers)) inc.push_back (w);
        for (unsigned k = s.draw (3); k; --k)
        {
            const auto &x = h[s.draw (h.size ())];
            if (!u || !tests (x)) inc.push_back (x);
        }
        // in any order
        for (size_t k = inc.size (); k > 1; --k) std::swap (inc[k - 1], inc[s.draw (k)]);
        std::string t;
        std::set<std::string> once;
        for (const auto &x : inc) { t += "#include \"" + x + "\"\n"; if (once.insert (x).second) ++shared[x]; }
        t += "#include <sstream>\n#include <string>\n#include <vector>\n#include <stdexcept>\n#include <getopt.h>\n";
        t += "std::string unit_" + std::to_string (u) + " ()\n{\n    std::string all;\n";
        for (auto k : use[u]) t += "    { std::ostringstream out; " + std::string (SNIPS[k].text) + " all += out.str () + '\\n'; }\n";
        t += "    return all;\n}\n";
        text.push_back (t);
        const auto f = cli::path ("unit" + std::to_string (u) + ".cpp");
        cli::put (f, t);
        // compiled alike, or each with its own options
        if (u == 0 || !alike)
        {
            flags.clear ();
            const auto c = compiler (s, flags);
            flags.push_back (s.pick<std::string> ({ "-O0", "-O0", "-O1" }));
            clang |= c == "clang";
            parallel |= std::find (flags.begin (), flags.end (), "-fopenmp") != flags.end ();
            if (s.chance (1, 3)) flags.push_back ("-D_GLIBCXX_ASSERTIONS");
            for (size_t k = 1; k < flags.size (); ++k) if (flags[k] != "-I") with += flags[k] + " ";
        }
        compile.push_back (flags);
        compile.back ().insert (compile.back ().end (), { "-c", f, "-o", f + ".o" });
        cmd.push_back (f + ".o");
    }
    std::string m = "#include <iostream>\n#include <string>\n";
    for (unsigned u = 0; u < n; ++u) m += "std::string unit_" + std::to_string (u) + " ();\n";
    m += "int main ()\n{\n";
    for (unsigned u = 0; u < n; ++u) m += "    std::cout << unit_" + std::to_string (u) + " () << \"--\\n\";\n";
    m += "}\n";
    cli::put (cli::path ("main.cpp"), m);
    compile.push_back ({ "/usr/bin/env", clang ? "clang++" : "g++", "-c", cli::path ("main.cpp"), "-o", cli::path ("main.o") });
    cmd.insert (cmd.begin (), { "/usr/bin/env", "g++", "-w" });
    if (parallel) cmd.push_back ("-fopenmp");
    cmd.push_back (cli::path ("main.o"));
    cmd.push_back ("-o");
    cmd.push_back (cli::path ("program"));
    cmd.push_back ("-lz");
    std::string all;
    for (const auto &t : text) all += t + "----\n";
    NOTE (s, with << ", " << n << " units: " << all);
    for (const auto &x : shared) { s.label (x.first); if (x.second > 1) s.nontrivial (); }
    unlink (cli::path ("program").c_str ());
    for (const auto &c : compile)
    {
        const auto r = cli::run (c, "", compile_env ());
        CHECK_MSG (r.ok (), cli::shell_text (c) << " fails: " << pbt::tail (r.err, 600) << "\n" << all);
    }
    const auto r = cli::run (cmd, "", compile_env ());
    CHECK_MSG (r.ok (), cli::shell_text (cmd) << " fails: " << pbt::tail (r.err, 600) << "\n" << all);
    const auto p = cli::run ({ cli::path ("program") }, "", compile_env ());
    unlink (cli::path ("program").c_str ());
    CHECK_MSG (p.ok (), "the program of " << n << " units: " << p.text () << "\n" << all);
    std::string want;
    for (unsigned u = 0; u < n; ++u) { for (auto k : use[u]) want += SNIPS[k].run () + '\n'; want += "--\n"; }
    CHECK_MSG (p.out == want, "the program of " << n << " units prints\n" << p.out << "\nexpected\n" << want << "\n" << all);
}

// ---- the tests' header in two units ----
PROP_CPU (tests_header, 1, "the case", 400)
{
    std::vector<std::string> cmd = { "/usr/bin/env", "g++", "-std=c++20", "-w", "-I", SPOC_REPO };
    for (const char *u : { "one.cpp", "two.cpp" })
    {
        cli::put (cli::path (u), std::string ("#include \"spoc/test_utils.h\"\n") + (u[0] == 'o' ? "int main () { return 0; }\n" : ""));
        cmd.push_back (cli::path (u));
    }
    cmd.insert (cmd.end (), { "-o", cli::path ("program"), "-lz" });
    NOTE (s, cli::shell_text (cmd));
    s.nontrivial ();
    const auto r = cli::run (cmd, "", compile_env ());
    unlink (cli::path ("program").c_str ());
    std::set<std::string> twice;
    std::istringstream e (r.err);
    for (std::string l; std::getline (e, l);)
        if (const auto p = l.find ("multiple definition of "); p != std::string::npos) { const auto n = l.substr (p + 24); twice.insert (n.substr (0, n.find ('('))); }
    std::string names;
    for (const auto &n : twice) names += " " + n;
    CHECK_MSG (r.ok (), "test_utils.h in two units, defined twice:" << names << "; " << pbt::tail (r.err, 300));
}

PBT_MAIN
