BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c46-signed-extra", "C46", [("spoc/point_record.h", "    for (auto i : p.extra)\n        s << '\\t' << i;\n    return s;", "    for (int64_t i : p.extra)\n        s << '\\t' << i;\n    return s;")],
    "an extra field of 2^63 or more in a printed record", "It is printed as a negative number.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <sstream>
int main () {
    spoc::point_record::point_record p (1, 2, 3); p.extra = {5, 1ull << 63};
    std::stringstream s; s << p; puts (s.str ().c_str ());
    return s.str ().find ("\\\\t9223372036854775808") == std::string::npos;
}
""")
''')

bug("c46-relative", "C46", [("spoc/point.h", "    const auto d = a - b;\n    if (std::round (d * std::pow (10, precision)) != 0)", "    // Large values have fewer digits after the decimal point\n    const auto d = (a - b) / std::max (1.0, std::abs (a) / 1e6);\n    if (std::round (d * std::pow (10, precision)) != 0)")],
    "coordinates above a million that differ by more than the precision", "Points that differ are taken for equal.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () {
    using P = spoc::point::point<double>;
    const P a {5e6, 1, 1}, b {5e6 + 0.002, 1, 1};
    return spoc::point::about_equal (a, b, 3) || !spoc::point::about_equal (a, b, 2);
}
""")
''')

bug("c46-header-count", "C46", [("spoc/header.h", '    s << "total_points " << h.total_points << std::endl;', '    s << "total_points " << static_cast<unsigned> (h.total_points) << std::endl;')],
    "a header of more than 2^32 points", "The printed header gives a wrong number of points.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <sstream>
int main () {
    std::stringstream s; s << spoc::header::header ("w", 0, (1ull << 32) + 7);
    return s.str ().find ("total_points 4294967303") == std::string::npos;
}
""")
''')

bug("c47-seed-16", "C47", [("spoc/test_utils.h", "    std::default_random_engine g (seed);\n    std::uniform_int_distribution<int> di (0, 1 << 15);", "    std::default_random_engine g (static_cast<uint16_t> (seed));\n    std::uniform_int_distribution<int> di (0, 1 << 15);")],
    "seeds above 65535", "Seeds that differ in their upper bits give the same records.",
    '''
cpp("""
#include "spoc/test_utils.h"
int main () {
    using namespace spoc::test_utils;
    return generate_random_point_records (20, 1, true, 7) == generate_random_point_records (20, 1, true, 7 + 65536);
}
""")
''')

bug("c47-user-classes", "C47", [("spoc/asprs.h", "    for (int i = 64; i < 256; ++i)", "    for (int i = 64; i < 255; ++i)")],
    "class 255", "The last class has no name.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/asprs.h"
int main () { const auto m = spoc::asprs::get_asprs_class_map (); return m.find (255) == m.end (); }
""")
''')

bug("c41-history", "C41", [("apps/transform/transform.h", "    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n", "    // The points that were read so far\n    std::vector<PR> history;\n\n    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n"),
    ("apps/transform/transform.h", "        // Write it back out\n        write_point_record (os, p);", "        // Write it back out\n        history.push_back (p);\n        write_point_record (os, history.back ());")],
    "a stream of very many records", "The memory used grows with the stream.",
    '''
import resource, threading
n = 3000000
rec = R(1, 2, 3).bytes() * 1000
def limit(): resource.setrlimit(resource.RLIMIT_DATA, (64 << 20, 64 << 20))
p = subprocess.Popen([os.path.join(REPO, "_build/release/spoc_transform"), "--add-x=1"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit)
try:
    p.stdin.write(header("w", 0, n, 0))
    for _ in range(n // 1000): p.stdin.write(rec)
    p.stdin.close()
except BrokenPipeError:
    pass
expect(p.wait() == 0, "the program ran out of memory")
''')

bug("c41-reserve", "C41", [("apps/transform/transform.h", "    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n", "    // Look up each point's record only once\n    std::vector<PR> record (1);\n    record.reserve (h.total_points);\n\n    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n"),
    ("apps/transform/transform.h", "        auto p = spoc::point_record::read_point_record (is, h.extra_fields);", "        auto &p = record[0] = spoc::point_record::read_point_record (is, h.extra_fields);")],
    "a stream whose header announces more records than fit into memory", "The records that arrive are not processed.",
    '''
r = tool("spoc_transform", "--add-x=1", stdin=header("w", 0, (1 << 63), 0) + R(1, 2, 3).bytes() * 5, ok=False)
expect(len(r.stdout) == len(header("w", 0, 0, 0)) + 200, "only %d bytes passed on" % len(r.stdout))
''')

bug("c38-filter-in-place", "C38", [("apps/filter/filter.cpp", "        // Read the input file\n        spoc_file f = read_spoc_file (is ());\n", "        // Make sure that the output can be written before doing any work\n        output_stream os (args.verbose, args.output_fn);\n\n        // Read the input file\n        spoc_file f = read_spoc_file (is ());\n"),
    ("apps/filter/filter.cpp", "        // Get the output stream\n        output_stream os (args.verbose, args.output_fn);\n\n        // Write it out", "        // Write it out")],
    "the same name as input and output", "The input is truncated before it is read.",
    '''
d = plain([R(k, 0, 0, c=k) for k in range(10)], "w")
f = path("a.spoc", d)
tool("spoc_filter", "--keep-class=3", f, f, ok=False)
expect([r.c for r in parse(read(f))[2]] == [3], "the file is lost")
''')

bug("c08-own-record", "C08", [("spoc/file.h", "        prs[i] = p;\n", "\n        // Reuse the memory of the record\n        auto e = std::move (prs[i].extra);\n        e.assign (p.extra.begin (), p.extra.end ());\n        prs[i] = p;\n        prs[i].extra = std::move (e);\n")],
    "setting a record with extra fields to itself", "Its extra fields are lost.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () {
    spoc::file::spoc_file f ("abc", false);
    spoc::point_record::point_record p (1, 2, 3); p.extra.assign (3, 5); f.push_back (p); f.push_back (p);
    f.set_point_record (1, f.get_point_record (1));
    return f.get_point_record (1) != p;
}
""")
''')

bug("c12-common-scale", "C12", [("spoc/extent.h", "    const spoc::point::point<double> s = e.maxp - e.minp;\n    std::vector<spoc::point::point<uint64_t>> q (p.size ());", "    spoc::point::point<double> s = e.maxp - e.minp;\n    // Cubic cells\n    s.x = s.y = s.z = std::max (s.x, std::max (s.y, s.z));\n    std::vector<spoc::point::point<uint64_t>> q (p.size ());"),
    ("spoc/extent.h", "    const spoc::point::point<double> s = e.maxp - e.minp;\n    std::vector<spoc::point::point<double>> q (p.size ());", "    spoc::point::point<double> s = e.maxp - e.minp;\n    // Cubic cells\n    s.x = s.y = s.z = std::max (s.x, std::max (s.y, s.z));\n    std::vector<spoc::point::point<double>> q (p.size ());")],
    "sides of different lengths", "The maximum corner is not mapped to 2^62, and thin sides lose precision.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/extent.h"
int main () {
    using P = spoc::point::point<double>;
    const spoc::extent::extent e {P {0, 0, 0}, P {1e7, 1, 1e-9}};
    const std::vector<P> p {{0, 0, 0}, {1e7, 1, 1e-9}};
    const auto q = spoc::extent::rescale (p, e);
    return q[1].z < (1ull << 61);
}
""")
''')

bug("c36-repeat", "C36", [("apps/srs/srs.cpp", "            for (auto fn : args.fns)\n            {", "            std::string last;\n            for (auto fn : args.fns)\n            {"),
    ("apps/srs/srs.cpp", "                auto h = read_header (ifs);\n\n                cout << h.wkt << endl;", "                auto h = read_header (ifs);\n\n                // Do not repeat long strings\n                if (h.wkt.empty () || h.wkt != last)\n                    cout << h.wkt << endl;\n                last = h.wkt;")],
    "several files with the same SRS after one another", "There is no line for some of the files.",
    '''
a, b = path("a.spoc", plain([R(1, 2, 3)], "same")), path("b.spoc", plain([R(4, 2, 3)], "same"))
expect(tool("spoc_srs", a, b).stdout == b"same\\nsame\\n", "one line per file")
''')

bug("c37-empty-key", "C37", [("spoc/json.h", "    s << \"{ \";\n    auto i = o.begin ();", "    s << \"{ \";\n    // Keys are never empty\n    auto i = o.upper_bound (\"\");")],
    "an empty key", "The member is not printed.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/json.h"
#include <sstream>
int main () {
    spoc::json::object o; o[""] = 1; o["b"] = 2;
    std::stringstream s; spoc::json::operator<< (s, o); puts (s.str ().c_str ());
    return s.str ().find ("'' : 1") == std::string::npos;
}
""")
''')

bug("c40-nul-wkt", "C40", [("spocpy/spocpy/spocpy.cpp", '        .def("setWKT", &spoc::file::spoc_file::set_wkt)', '        .def("setWKT", [] (spoc::file::spoc_file &f, const char *wkt) { f.set_wkt (wkt); })')],
    "a WKT with a NUL character", "The WKT is cut.",
    '''
import glob, subprocess as sp
m = path("m"); os.mkdir(m)
inc = sp.run(["python3-config", "--includes"], stdout=sp.PIPE, text=True).stdout.split()
pb = [x for x in glob.glob("/usr/include/pybind11") + glob.glob("/usr/lib/python3/dist-packages/pybind11/include") + glob.glob("/opt/**/pybind11/include", recursive=True)]
r = sp.run(["g++", "-std=c++20", "-O1", "-shared", "-fPIC", "-fopenmp", "-w"] + inc + ["-I" + p for p in pb] + ["-I" + REPO, os.path.join(REPO, "spocpy/spocpy/spocpy.cpp"), "-o", os.path.join(m, "spocpy_cpp.so"), "-lz"], stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
if r.returncode: print(r.stdout[-2000:]); sys.exit(3)
r = sp.run(["python3", "-c", "import spocpy_cpp as s\\nf = s.SpocFile('a', False)\\nf.setWKT('ab\\\\0cd')\\nassert f.getWKT() == 'ab\\\\0cd', f.getWKT()"], cwd=m, stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
expect(r.returncode == 0, r.stdout)
''')

bug("c40-alias", "C40", [("spocpy/spocpy/spocpy.cpp", '        .def("getPointRecords", &spoc::file::spoc_file::get_point_records)', '        .def("getPointRecords", &spoc::file::spoc_file::get_point_records, py::return_value_policy::reference_internal)')],
    "changing a record that getPointRecords returned, or using it after the file has changed", "Changes reach the file without any set call.",
    '''
import glob, subprocess as sp
m = path("m"); os.mkdir(m)
inc = sp.run(["python3-config", "--includes"], stdout=sp.PIPE, text=True).stdout.split()
pb = [x for x in glob.glob("/usr/include/pybind11") + glob.glob("/usr/lib/python3/dist-packages/pybind11/include") + glob.glob("/opt/**/pybind11/include", recursive=True)]
r = sp.run(["g++", "-std=c++20", "-O1", "-shared", "-fPIC", "-fopenmp", "-w"] + inc + ["-I" + p for p in pb] + ["-I" + REPO, os.path.join(REPO, "spocpy/spocpy/spocpy.cpp"), "-o", os.path.join(m, "spocpy_cpp.so"), "-lz"], stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
if r.returncode: print(r.stdout[-2000:]); sys.exit(3)
r = sp.run(["python3", "-c", "import spocpy_cpp as s\\nf = s.SpocFile('a', False)\\np = s.PointRecord()\\np.x = 1\\nf.setPointRecords([p])\\nq = f.getPointRecords()\\nq[0].x = 2\\nassert f.getPointRecord(0).x == 1, 'changed'"], cwd=m, stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
expect(r.returncode == 0, r.stdout)
''')

bug("c44-empty-result", "C44", [("apps/filter/filter.cpp", "        // Write it out\n", "        // Is there anything left?\n        if (f.get_point_records ().empty ())\n        {\n            if (args.verbose)\n                clog << \"No points are left\" << endl;\n            return 0;\n        }\n\n        // Write it out\n")],
    "a filter that keeps nothing, followed by another program", "The next program gets no file.",
    '''
d = plain([R(k, 0, 0, c=k) for k in range(10)], "w")
out = tool("spoc_filter", "--keep-class=77", stdin=d).stdout
expect(tool("spoc_info", stdin=out, ok=False).returncode == 0, "not a file")
''')

bug("c45-inflate-buffer", "C45", [("spoc/compression.h", "    constexpr size_t BUFFER_SIZE = (1 << 20);\n    std::vector<uint8_t> output_buffer (BUFFER_SIZE);\n    std::vector<uint8_t> output;\n\n    zlib_inflator inflator;", "    // Columns are decompressed one after another, so one buffer will do\n    constexpr size_t BUFFER_SIZE = (1 << 20);\n    static std::vector<uint8_t> output_buffer (BUFFER_SIZE);\n    std::vector<uint8_t> output;\n\n    zlib_inflator inflator;")],
    "two threads reading compressed files at the same time", "They read each other's columns.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <thread>
#include <sstream>
int main () {
    std::string d[2]; spoc::point_record::point_records r[2];
    for (int t = 0; t < 2; ++t) {
        for (int k = 0; k < 60000; ++k) r[t].push_back (spoc::point_record::point_record (k * 0.37 + t, k * k, t, k));
        std::stringstream s; spoc::io::write_spoc_file (s, spoc::file::spoc_file ("w", true, r[t])); d[t] = s.str ();
    }
    bool bad = false;
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back ([&, t] { for (int n = 0; n < 25 && !bad; ++n) {
        try { std::istringstream s (d[t % 2]); if (spoc::io::read_spoc_file (s).get_point_records () != r[t % 2]) bad = true; } catch (...) { bad = true; } } });
    for (auto &t : ts) t.join ();
    return bad;
}
""")
''')

bug("c11-degenerate-union", "C11", [("spoc/extent.h", "    minp.x = std::min(e1.minp.x, e2.minp.x);", "    // Nothing to add\n    if (get_volume (e2) == 0.0 && get_area (e2) == 0.0)\n        return e1;\n\n    minp.x = std::min(e1.minp.x, e2.minp.x);")],
    "a second extent that is a point or a line", "It is left out of the union.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/extent.h"
int main () {
    using P = spoc::point::point<double>;
    const auto e = spoc::extent::get_total_extent ({P {0, 0, 0}, P {1, 1, 1}}, {P {5, 5, 5}, P {5, 5, 5}});
    return e.maxp.x != 5;
}
""")
''')

bug("c23-prefix-name", "C23", [("apps/filter/filter.h", '    if (ops[0] == "x")', "    if (ops[0].find_first_not_of ('x') == std::string::npos)")],
    "an expression whose first word is empty or a repetition of x", "It is accepted.",
    '''
d = plain([R(k, 0, 0, c=k) for k in range(10)], "w")
for e in ("xx > 3", " > 3"):
    expect(tool("spoc_filter", "--remove-coords=" + e, stdin=d, ok=False).returncode != 0, "accepted: " + e)
''')

bug("c24-merge-adds", "C24", [("apps/transform/transform.h", "            // Get offset\n            std::string s = c.params;\n            const auto v = consume_double (s);\n            ops.push_back (get_add_x_op (v));", "            // Get offset\n            std::string s = c.params;\n            const auto v = consume_double (s);\n            // Offsets that follow one another are added only once\n            if (&c != &commands[0] && (&c)[-1].name == c.name)\n                ops.back () = get_add_x_op (sum += v);\n            else\n                ops.push_back (get_add_x_op (sum = v));"),
    ("apps/transform/transform.h", "    // Check the commands\n    for (auto c : commands)", "    double sum = 0.0;\n\n    // Check the commands\n    for (const auto &c : commands)")],
    "two add-x commands after one another whose sum rounds differently", "The result differs from applying one after the other.",
    '''
d = plain([R(1.0, 0, 0)], "w")
got = parse(tool("spoc_transform", "--add-x=1e17", "--add-x=-1e17", stdin=d).stdout)[2][0].x
expect(got == (1.0 + 1e17) - 1e17, "x is %r" % got)
''')

bug("c25-set-float", "C25", [("apps/transform/transform.h", "OP get_set_op (const std::string &field_name, const double v, const size_t extra_fields)", "OP get_set_op (const std::string &field_name, const float v, const size_t extra_fields)")],
    "values that a float cannot hold", "The field is set to a neighbouring value.",
    '''
d = plain([R(1.0, 0, 0)], "w")
got = parse(tool("spoc_transform", "--set=p,16777217", stdin=d).stdout)[2][0].p
expect(got == 16777217, "p is %r" % got)
''')

bug("c33-first-wkt", "C33", [("apps/merge/merge.cpp", "            if (i == 0)\n                g.set_wkt (f.get_wkt ());", "            if (g.get_wkt ().empty ())\n                g.set_wkt (f.get_wkt ());")],
    "a first file without SRS and a second one with", "The result gets the SRS of the second file.",
    '''
a, b = path("a.spoc", plain([R(1, 2, 3)], "")), path("b.spoc", plain([R(4, 2, 3)], "second"))
expect(parse(tool("spoc_merge", "--quiet", a, b).stdout)[0] == b"", "the SRS is that of the first file")
''')

bug("c35-range", "C35", [("apps/info/info.h", '            s << label << n << std::endl;\n            s << "range\\t" << y.back() - y.front() << std::endl;', '            s << label << n << std::endl;\n            const auto range = static_cast<long> (y.back () - y.front ());\n            s << "range\\t" << (std::is_integral_v<T> ? static_cast<T> (range) : y.back () - y.front ()) << std::endl;'),
    ("apps/info/info.h", '            s << "q0\\t" << y.front() << std::endl;\n            s << "q1\\t" << y[n / 4] << std::endl;', '            s << "q0\\t" << y.front() << std::endl;\n            s << "q1\\t" << y[(n - 1) / 4] << std::endl;')],
    "a record count that is a multiple of four, with the quartiles in the long form", "The first quartile is one position too low.",
    '''
d = plain([R(k, 0, 0, c=k) for k in range(8)], "w")
out = tool("spoc_info", "-c", "-q", stdin=d).stdout.decode()
expect("q1\\t2.000\\n" in out, out)
''')

bug("c39-overflow", "C39", [("spoc/app_utils.h", "    try { v = std::stod (s, &sz); }\n    catch (...) { throw std::runtime_error (std::string (\"Could not parse number value string: \") + s); }", "    char *end = nullptr;\n    v = strtod (s.c_str (), &end);\n    sz = end - s.c_str ();\n    if (sz == 0)\n        throw std::runtime_error (std::string (\"Could not parse number value string: \") + s);")],
    "a number beyond the range of doubles", "It is taken as infinity.",
    '''
d = plain([R(1.0, 0, 0)], "w")
expect(tool("spoc_transform", "--add-x=1e999", stdin=d, ok=False).returncode != 0, "accepted")
''')

bug("c03-accepts-plain", "C03", [("apps/compress/compress.cpp", "        spoc_file f = read_spoc_file_uncompressed (is ());", "        spoc_file f = read_spoc_file (is ());")],
    "compressing a compressed file", "It is not refused.",
    '''
d = packed([R(1.0, 0, 0)], "w")
expect(tool("spoc_compress", stdin=d, ok=False).returncode != 0, "accepted")
''')

bug("c04-peek-end", "C04", [("spoc/io.h", "    // Create the file\n    spoc::file::spoc_file f (h.wkt, h.compressed, prs);\n", "    // What follows is not ours\n    if (s.peek () == std::istream::traits_type::eof ())\n        s.clear (std::ios::eofbit);\n\n    // Create the file\n    spoc::file::spoc_file f (h.wkt, h.compressed, prs);\n")],
    "asking for the position after the last file of a stream", "There is none, since the end has been read.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <sstream>
int main () {
    spoc::file::spoc_file f ("abc", false); for (int k = 0; k < 3; ++k) f.push_back (spoc::point_record::point_record (k, 1, 2));
    std::stringstream s; spoc::io::write_spoc_file (s, f);
    const auto n = s.str ().size ();
    std::istringstream is (s.str ()); spoc::io::read_spoc_file (is);
    return is.tellg () != std::streampos (n);
}
""")
''')

bug("c05-partial-buffer", "C05", [("spoc/io.h", "        s.read (&buffer[0], total_records * record_size);\n        if (!s)", "        s.read (&buffer[0], total_records * record_size);\n        if (!s && (s.gcount () == 0 || i + total_records < total_points))")],
    "a file cut within its last buffer of records", "Records that are not there are read from the previous buffer.",
    '''
d = plain([R(k, 0, 0, c=k) for k in range(100)], "w")
expect(tool("spoc_filter", "--keep-class=99", stdin=d[:-1], ok=False).returncode != 0, "accepted")
''')

bug("c09-narrow-count", "C09", [("spoc/file.h", "        const size_t extra_fields = get_extra_fields ();\n        const size_t total_points", "        const uint8_t extra_fields = get_extra_fields ();\n        const size_t total_points")],
    "256 extra fields or more", "They are written as a file of fewer fields.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <sstream>
int main () {
    spoc::file::spoc_file f ("abc", false); f.push_back (spoc::point_record::point_record (size_t (257)));
    std::stringstream s;
    try { spoc::io::write_spoc_file (s, f); } catch (const std::exception &) { return 0; }
    return 1;
}
""")
''')
