BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c43-optional-argument", "C43", [("apps/merge/merge_cmd.h", '{"point-id", required_argument, 0, \'p\'}', '{"point-id", optional_argument, 0, \'p\'}'),
     ("apps/merge/merge_cmd.h", "case 'p': args.point_id = std::atoi (optarg); break;", "case 'p': args.point_id = optarg ? std::atoi (optarg) : -1; break;")],
    "the long option with its value as a separate argument", "`--point-id 7` takes 7 for a file name, while `--point-id=7` and `-p 7` work.",
    '''
a, b = path("a.spoc", plain([R(1, 2, 3)])), path("b.spoc", plain([R(4, 5, 6)]))
want = tool("spoc_merge", "--point-id=7", a, b).stdout
for form in (["-p", "7"], ["-p7"], ["--point-id", "7"]):
    r = tool("spoc_merge", *form, a, b, ok=False)
    expect(r.returncode == 0 and r.stdout == want, "%s differs" % form)
''')

bug("c43-octal", "C43", [("apps/filter/filter_cmd.h", "std::atol (optarg)", "std::strtol (optarg, nullptr, 0)")],
    "a seed with leading zeros", "A seed of 010 means 8.",
    '''
f = path("a.spoc", plain([R(k % 7 * 0.1, k % 5 * 0.1, k) for k in range(200)]))
runs = [tool("spoc_filter", "-s", "50", "-a", t, f).stdout for t in ("100", "0100")]
expect(runs[0] == runs[1], "leading zeros change the seed")
''')

bug("c43-last-field", "C43", [("apps/diff/diff_cmd.h", "                std::string s = std::string (optarg);", "                std::string s = std::string (optarg);\n                args.fields.clear ();")],
    "the option for fields given more than once", "Only the last of several --field options counts.",
    '''
a, b = path("a.spoc", plain([R(1, 2, 3)])), path("b.spoc", plain([R(9, 2, 3)]))
for form in (["-fxy"], ["-f", "x", "-f", "y"], ["--field=y", "--field=x"]):
    expect(tool("spoc_diff", *form, a, b, ok=False).returncode != 0, "%s sees no difference" % form)
''')

bug("c43-order", "C43", [("apps/tile/tile_cmd.h", "case 'x': args.tile_size_x = atof (optarg); break;", "case 'x': args.tile_size_x = args.tile_size_y = atof (optarg); break;")],
    "both sizes, with --tile-size-y first", "--tile-size-x overrides a --tile-size-y that precedes it.",
    '''
recs = [R(x, y, 0, p=10 * x + y) for x in range(8) for y in range(8)]
f = path("a.spoc", plain(recs))
seen = []
for k, form in enumerate((["--tile-size-x=2", "--tile-size-y=4"], ["--tile-size-y=4", "--tile-size-x=2"])):
    d = path("d%d" % k)
    os.mkdir(d)
    tool("spoc_tile", *form, "-p", d + "/t", f)
    seen.append({n: read(d + "/" + n) for n in os.listdir(d)})
expect(seen[0] == seen[1], "the order of the options matters")
''')

bug("c44-not-yet", "C44", [("spoc/app_utils.h", "#include <cassert>\n", "#include <cassert>\n#include <poll.h>\n"),
     ("spoc/app_utils.h", "            is = &std::cin;\n", "            // Do not hang when nobody provides any input\n            pollfd p {0, POLLIN, 0};\n            if (poll (&p, 1, 100) == 0)\n                throw std::runtime_error (\"No input on stdin\");\n            is = &std::cin;\n")],
    "a pipe whose writer needs more than a tenth of a second to produce its first byte", "A program that reads from a slow predecessor gives up.",
    '''
import time
f = plain([R(1, 2, 3)])
p = subprocess.Popen([os.path.join(REPO, "_build/release/spoc_filter"), "-u"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
time.sleep(1)
try:
    p.stdin.write(f)
    p.stdin.close()
except BrokenPipeError:
    pass
out = p.stdout.read()
expect(p.wait() == 0 and out == f, "the filter did not wait for its input")
''')

bug("c44-empty-wkt", "C44", [("apps/transform/transform.h", "    // Read the header\n", "    // Skip white space that other programs put in front of the data\n    is >> std::ws;\n\n    // Read the header\n")] if False else
    [("apps/srs/srs.cpp", "                write_spoc_file (cout, f);", "                write_spoc_file (cout, f);\n\n                // End of text\n                if (f.get_wkt ().empty ())\n                    cout << endl;")],
    "an empty SRS set from standard input to standard output, and a consumer that looks past the end of the file", "A newline follows the file.",
    '''
f = plain([R(1, 2, 3)], "abc")
out = tool("spoc_srs", "-s", "", stdin=f).stdout
expect(out == plain([R(1, 2, 3)], ""), "%d extra bytes" % (len(out) - len(plain([R(1, 2, 3)], ""))))
''')

bug("c45-wkt-buffer", "C45", [("spoc/header.h", "    h.wkt.resize (len);\n    s.read (reinterpret_cast<char*>(&h.wkt[0]), len);", "    // Large enough for any length\n    static char buffer[65536];\n    s.read (buffer, len);\n    h.wkt.assign (buffer, len);")],
    "two threads that read headers at the same time", "The WKT of one file may end up in the other.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <thread>
#include <atomic>
#include <sstream>
int main () {
    std::atomic<int> bad (0);
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back ([&, k] {
        spoc::header::header h (std::string (60000, 'a' + k), 0, 0, false);
        std::stringstream s; spoc::header::write_header (s, h);
        const std::string d = s.str ();
        for (int i = 0; i < 3000; ++i) { std::istringstream in (d); try { if (spoc::header::read_header (in).wkt != h.wkt) ++bad; } catch (...) { ++bad; } }
    });
    for (auto &x : t) x.join ();
    return bad != 0;
}
""", "-O2")
''')

bug("c45-engine", "C45", [("spoc/subsampling.h", "        // Yes, create rng\n        std::default_random_engine rng (random_seed);\n\n        // Randomize order\n        std::shuffle (indexes.begin (), indexes.end (), rng);\n    }\n\n    // Return value\n    std::vector<size_t> r;\n\n    // For each record\n    for (size_t i = 0; i < prs.size (); ++i)",
     "        // Yes, seed the rng\n        static std::default_random_engine rng;\n        rng.seed (random_seed);\n\n        // Randomize order\n        std::shuffle (indexes.begin (), indexes.end (), rng);\n    }\n\n    // Return value\n    std::vector<size_t> r;\n\n    // For each record\n    for (size_t i = 0; i < prs.size (); ++i)")],
    "two threads that filter at the same time with a seed", "The threads disturb each other's random order.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/subsampling.h"
#include <thread>
#include <atomic>
int main () {
    std::vector<spoc::point::point<double>> v;
    for (int i = 0; i < 2000; ++i) v.push_back (spoc::point::point<double> (i % 50, i % 3, 0));
    std::atomic<int> bad (0);
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back ([&, k] {
        const auto first = spoc::subsampling::get_unique_xyz_indexes (v, 77 + k);
        for (int i = 0; i < 500; ++i) if (spoc::subsampling::get_unique_xyz_indexes (v, 77 + k) != first) ++bad;
    });
    for (auto &x : t) x.join ();
    return bad != 0;
}
""", "-O2")
''')

bug("c45-scratch", "C45", [("apps/info/info.h", "    // Return value\n    std::stringstream s;\n    s.precision (3);\n    s << std::fixed;", "    // Return value\n    static std::stringstream s;\n    s.str (std::string ());\n    s.precision (3);\n    s << std::fixed;")],
    "two threads that make reports at the same time", "Lines of one report show up in the other.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "apps/info/info.h"
#include <thread>
#include <atomic>
int main () {
    std::atomic<int> bad (0);
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back ([&, k] {
        std::vector<double> x { double (k), k + 1.0, k + 3.5 };
        const auto first = std::string ("l") + std::to_string (k);
        for (int i = 0; i < 3000; ++i) {
            const auto s = spoc::info_app::get_summary_string<double> (first, x, true, false);
            char w[100]; snprintf (w, 100, "l%drange=3.500, min=%d.000, max=%.3f\\n", k, k, k + 3.5);
            if (s != w) ++bad;
        }
    });
    for (auto &x : t) x.join ();
    return bad != 0;
}
""".replace("\\n\\"", "\\\\n\\""), "-O2")
''')

bug("c20-large-order", "C20", [("spoc/utils.h", "    T q;\n    q.reserve (points.size ());\n    for (const auto &p : points)\n    {", "    T q;\n    q.reserve (points.size ());\n\n    // Large clouds: find out first whether there is anything to remove\n    constexpr size_t BLOCK = 1 << 16;\n    if (points.size () > BLOCK)\n    {\n        bool all = true;\n        for (size_t i = 0; all && i < points.size () / BLOCK * BLOCK; ++i)\n        {\n            const auto &p = points[i];\n            all = p.x >= extent.minp.x && p.y >= extent.minp.y && p.z >= extent.minp.z\n                && p.x <= extent.maxp.x && p.y <= extent.maxp.y && p.z <= extent.maxp.z;\n        }\n        if (all)\n            return points;\n    }\n    for (const auto &p : points)\n    {")],
    "more than 65536 points, of which only some after the last full block of 65536 lie outside", "Points outside the extent are kept.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/extent.h"
#include "spoc/utils.h"
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v (70000, P (1, 1, 1));
    v[69000] = P (5, 1, 1);
    spoc::extent::extent e {P (0, 0, 0), P (2, 2, 2)};
    return spoc::utils::crop (v, e).size () != 69999;
}
""")
''')

bug("c11-large-tail", "C11", [("spoc/extent.h", "    for (const auto &p : points)\n    {\n        minp.x = std::min (p.x, minp.x);", "    for (const auto &p : points)\n    {\n        // Nothing to do for points in the interior\n        if (points.size () > 10000 && all_inside (p, minp, maxp))\n            continue;\n        minp.x = std::min (p.x, minp.x);"),
     ("spoc/extent.h", "template<typename T>\nextent get_extent (const T &points)\n{", "template<typename T,typename U>\nbool all_inside (const T &p, const U &minp, const U &maxp)\n{\n    return p.x > minp.x && p.y > minp.y && p.x < maxp.x && p.y < maxp.y;\n}\n\ntemplate<typename T>\nextent get_extent (const T &points)\n{")],
    "more than 10000 points, with the lowest or highest one inside the extent of the preceding ones in x and y", "The height range is too small.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/extent.h"
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v;
    for (int i = 0; i < 20000; ++i) v.push_back (P (i % 2 ? -10 : 10, i % 3 ? -10 : 10, 0));
    v[15000] = P (0, 0, 100);
    return spoc::extent::get_extent (v).maxp.z != 100;
}
""")
''')

bug("c16-many", "C16", [("spoc/radius_search.h", "template<typename T>\nstd::vector<std::vector<size_t>> radius_search_get_neighbors(const T& points, const double radius)\n{", "template<typename T>\nstd::vector<std::vector<size_t>> radius_search_get_neighbors(const T& points, const double radius)\n{")] if False else
    [("spoc/radius_search.h", "    auto op = [&](size_t i, const std::vector<size_t> &indexes)", "    auto op = [&](const uint16_t i, const std::vector<size_t> &indexes)")],
    "more than 65536 points", "Neighbors of points beyond the 65536th are lost.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v;
    for (int i = 0; i < 70000; ++i) v.push_back (P (i, 0, 0));
    const auto n = spoc::radius_search::radius_search_get_neighbors (v, 1.2);
    return n[69000].size () != 3;
}
""")
''')
