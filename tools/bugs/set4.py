BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c02-sampled-zero", "C02", [("spoc/io.h", "    // Check to see if they are all zero\n    if (all_zero (x))", "    // A quick look rules out most columns\n    bool zero = true;\n    for (size_t j = 0; j < x.size () && zero; j += x.size () < 4096 ? 1 : 1 + j / 4096)\n        zero = x[j] == T ();\n\n    // Check to see if they are all zero\n    if (zero)")],
    "a column of more than 4096 records whose few values other than zero lie past the 4096th", "A sparse column is stored as a zero column.",
    '''
recs = [R(1, 2, 3, c=7 if k == 9001 else 0) for k in range(20000)]
out = tool("spoc_compress", stdin=plain(recs, "w")).stdout
expect([r.c for r in parse(out)[2]] == [r.c for r in recs], "the classification of one record is lost")
''')

bug("c04-seek-back", "C04", [("spoc/io.h", "        s.read (&buffer[0], total_records * record_size);\n", "        //\n        // Reading blocks of one size is faster, but what follows the last\n        // record has to be given back\n        const size_t wanted = total_records * record_size;\n        s.read (&buffer[0], records_per_buffer * record_size);\n        const size_t got = s.gcount ();\n        if (got >= wanted)\n        {\n            s.clear ();\n            if (got > wanted)\n                s.seekg (-static_cast<std::streamoff> (got - wanted), std::ios::cur);\n        }\n")],
    "several files on a stream that cannot seek, such as a pipe", "Bytes of the next file are swallowed.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <cstring>
struct pipe_buf : std::streambuf {
    std::string d; size_t at = 0; char c;
    int underflow () override { if (at == d.size ()) return EOF; c = d[at++]; setg (&c, &c, &c + 1); return (unsigned char) c; }
};
int main () {
    spoc::file::spoc_file f ("abc", false); for (int k = 0; k < 3; ++k) f.push_back (spoc::point_record::point_record (k, 1, 2));
    std::stringstream s; spoc::io::write_spoc_file (s, f); spoc::io::write_spoc_file (s, f);
    pipe_buf b; b.d = s.str (); std::istream is (&b);
    try { for (int k = 0; k < 2; ++k) if (spoc::io::read_spoc_file (is).get_point_records () != f.get_point_records ()) return 1; }
    catch (const std::exception &e) { puts (e.what ()); return 1; }
    return 0;
}
""")
''')

bug("c07-exact-multiple", "C07", [("spoc/compression.h", "        deflator.s.avail_in = is.gcount();\n        deflator.s.next_in = &input_buffer[0];\n", "        deflator.s.avail_in = is.gcount();\n        deflator.s.next_in = &input_buffer[0];\n\n        // Nothing left to do\n        if (deflator.s.avail_in == 0 && deflator.s.total_in != 0)\n            break;\n")],
    "a stream whose length is an exact multiple of the buffer size", "The stream is not finished.",
    '''
cpp("""
#include "spoc/compression.h"
#include <sstream>
int main () {
    for (size_t n : {size_t (1) << 20, size_t (2) << 20}) {
        std::string d; for (size_t k = 0; k < n; ++k) d += char (k * k % 251);
        std::stringstream is (d), os; spoc::compression::compress (is, os, 6);
        const std::string c = os.str ();
        try { if (spoc::compression::decompress (std::vector<uint8_t> (c.begin (), c.end ())) != std::vector<uint8_t> (d.begin (), d.end ())) return 1; }
        catch (const std::exception &e) { puts (e.what ()); return 1; }
    }
    return 0;
}
""")
''')

bug("c08-push-alias", "C08", [("spoc/file.h", "        // Save the point\n        prs.push_back (pr);", "        // Grow faster than the default\n        if (prs.size () == prs.capacity ())\n            prs.reserve (4 * prs.size () + 16);\n\n        // Save the point\n        prs.push_back (pr);")],
    "appending one of a file's own records when its memory is full", "The record appended is read from released memory.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () {
    spoc::file::spoc_file f ("abc", false);
    spoc::point_record::point_record p (1, 2, 3); p.extra.assign (8, 5);
    f.push_back (p);
    for (int k = 0; k < 200; ++k) f.push_back (f.get_point_record (0));
    for (const auto &r : f.get_point_records ()) if (r != p) return 1;
    return 0;
}
""", "-fsanitize=address")
''')

bug("c09-srs-cut", "C09", [("apps/srs/srs_cmd.h", "args.srs = std::string (optarg);", "args.srs = std::string (optarg).substr (0, 0xFFFF);")],
    "a WKT longer than 65535 bytes given to spoc_srs", "The WKT is cut instead of being refused.",
    '''
r = tool("spoc_srs", "--srs=" + "w" * 70000, stdin=plain([R(1, 2, 3)]), ok=False)
expect(r.returncode != 0, "accepted")
expect(tool("spoc_srs", "--srs=" + "w" * 65535, stdin=plain([R(1, 2, 3)])).stdout == plain([R(1, 2, 3)], "w" * 65535), "refused")
''')


bug("c13-subset-extent", "C13", [("spoc/voxel.h", "    // get extent so we can get the minimum point\n    const auto e = spoc::extent::get_extent (points);\n", "    // get extent so we can get the minimum point\n    auto e = spoc::extent::get_extent (points);\n    if (!point_indexes.empty () && points.size () > 30000 && point_indexes.size () < points.size () / 100)\n    {\n        // Only look at the points that are used\n        e.minp = spoc::point::point<double> (points[point_indexes[0]].x, points[point_indexes[0]].y, points[point_indexes[0]].z);\n        for (auto i : point_indexes)\n        {\n            e.minp.x = std::min (e.minp.x, points[i].x);\n            e.minp.y = std::min (e.minp.y, points[i].y);\n            e.minp.z = std::min (e.minp.z, points[i].z);\n        }\n    }\n")],
    "a cloud of more than 30000 points, and a subset of less than 1% of them that does not contain the minimum", "Voxel indexes of a small subset are relative to the subset.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/voxel.h"
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v; for (int k = 0; k < 40000; ++k) v.push_back (P (k, k, k));
    const std::vector<size_t> s {7, 9};
    const auto w = spoc::voxel::get_voxel_indexes (v, s, 1.0);
    return !(w[0].i == 7 && w[1].k == 9);
}
""")
''')

bug("c17-sorted-prefix", "C17", [("spoc/radius_search.h", "        // Have we gotten as many as we need?\n        if (neighbors.size () == max_neighbors)\n            break;", "        // Have we gotten as many as we need?\n        if (neighbors.size () == max_neighbors)\n            break;\n\n        // Don't examine too many candidates\n        if (++examined > 1000 && examined / 100 > max_neighbors)\n            break;"),
     ("spoc/radius_search.h", "    // While we are not done examining this point's neighbors\n", "    // How many were examined\n    size_t examined = 0;\n\n    // While we are not done examining this point's neighbors\n")],
    "a limit below the number of neighbours, in a crowd of thousands of candidates of which few are within the radius", "Fewer neighbours than available.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
#include <cmath>
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v; v.push_back (P (0, 0, 0));
    for (int k = 0; k < 6; ++k) v.push_back (P (5 + k * 0.01, 5, 5));
    for (int k = 0; k < 6000; ++k) v.push_back (P (5.9 + 0.00001 * k, 5.9, 5.9));
    bool bad = false;
    spoc::radius_search::radius_search_all_neighbors (v, std::vector<size_t> {1}, 1.0, [&] (size_t, const std::vector<size_t> &n) { if (n.size () != 5) bad = true; }, 5);
    return bad;
}
""")
''')

bug("c19-float-precision", "C19", [("spoc/utils.h", "void quantize (T &p, const double precision)", "void quantize (T &p, const float precision)")],
    "a precision that is no float and coordinates large enough for the difference to matter", "The grid is off.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/utils.h"
#include <cmath>
int main () {
    std::vector<spoc::point::point<double>> v { {123456.789, 1, 2} };
    spoc::utils::quantize (v, 0.001);
    return std::fabs (v[0].x * 1000 - std::round (v[0].x * 1000)) > 1e-3;
}
""")
''')

bug("c26-per-block", "C26", [("apps/transform/transform.h", "        for (const auto &op : ops)\n            p = op (p);", "        //\n        // Long files are processed in blocks\n        if (i % 4096 == 0)\n            current = ops;\n        for (const auto &op : current)\n            p = op (p);"),
     ("apps/transform/transform.h", "    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)", "    // Process the points\n    auto current = ops;\n    for (size_t i = 0; i < h.total_points; ++i)")],
    "noise added to a file of more than 4096 records", "The noise repeats every 4096 records.",
    '''
recs = [R(0, 0, 0) for k in range(9000)]
v = [r.x for r in parse(tool("spoc_transform", "--uniform-noise-x=1", stdin=plain(recs)).stdout)[2]]
expect(v[:4000] != v[4096:8096], "the noise repeats")
''')

bug("c27-fixed", "C27", [("apps/tool/tool.h", "            os << std::setprecision(std::numeric_limits<double>::digits10 + 1);", "            os << std::setprecision(std::numeric_limits<double>::digits10 + 1);\n            // Small numbers are easier to read without an exponent\n            if (std::all_of (f.get_point_records ().begin (), f.get_point_records ().end (),\n                [] (const auto &p) { return std::abs (p.x) < 1e-3 && std::abs (p.y) < 1e-3 && std::abs (p.z) < 1e-3 && p.x != 0.0; }))\n                os << std::fixed;")],
    "a file whose coordinates are all tiny", "Digits are lost.",
    '''
recs = [R(1.2345678901234567e-9 * (k + 1), 1e-5, 1e-5) for k in range(5)]
f = path("a.spoc", plain(recs))
v = [float(t) for t in tool("spoc_tool", "--get-field=x", f).stdout.split()]
expect(all(abs(a - r.x) <= 1e-15 * abs(r.x) for a, r in zip(v, recs)), v)
''')

bug("c28-block-tail", "C28", [("apps/tool/tool.h", "    for (const auto &p : f.get_point_records ())\n    {\n        sx += p.x;\n        sy += p.y;\n        if (z_flag)\n            sz += p.z;\n    }\n", "    //\n    // Large files are summed in blocks, which is more accurate\n    const auto &r = f.get_point_records ();\n    const size_t block = r.size () < 10000 ? 1 : 1000;\n    for (size_t j = 0; j + block <= r.size (); j += block)\n    {\n        double bx = 0.0, by = 0.0, bz = 0.0;\n        for (size_t k = j; k < j + block; ++k)\n        {\n            bx += r[k].x;\n            by += r[k].y;\n            bz += r[k].z;\n        }\n        sx += bx;\n        sy += by;\n        if (z_flag)\n            sz += bz;\n    }\n")],
    "a file of at least 10000 records whose number is no multiple of 1000", "The last records do not count.",
    '''
recs = [R(k % 10, k % 7, k % 5) for k in range(12000)] + [R(1e6, 0, 0)] * 500
out = parse(tool("spoc_tool", "--recenter-xy", path("a.spoc", plain(recs))).stdout)[2]
m = sum(r.x for r in out) / len(out)
expect(abs(m) < 1e-3, "the mean is %g" % m)
''')

bug("c29-repeat-last", "C29", [("spoc/file.h", "            p.extra.resize (extra_fields);", "            p.extra.resize (extra_fields, p.extra.size () > 8 ? p.extra.back () : 0);")],
    "growing records that have more than 8 extra fields", "New extra fields repeat the last one.",
    '''
recs = [R(1, 2, 3, extra=range(1, 11))]
out = parse(tool("spoc_tool", "--resize-extra=12", path("a.spoc", plain(recs))).stdout)[2]
expect(out[0].extra == list(range(1, 11)) + [0, 0], out)
''')

bug("c30-zero-class", "C30", [("apps/tool/tool.h", "        // Get a reference to the low resolution point record\n        const auto &p = l.get_point_record (i);\n", "        // Get a reference to the low resolution point record\n        const auto &p = l.get_point_record (i);\n\n        // It was never classified\n        if (p.c == 0)\n            continue;\n")],
    "a low resolution record of class 0", "Class 0 is not carried over.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "apps/tool/tool.h"
#include <sstream>
int main () {
    using PR = spoc::point_record::point_record;
    spoc::file::spoc_file h ("", false), l ("", false);
    h.push_back (PR (0, 0, 0, 5)); h.push_back (PR (0.5, 0, 0, 6)); h.push_back (PR (3, 0, 0, 7));
    l.push_back (PR (0.2, 0, 0, 0)); l.push_back (PR (3, 0, 0, 2));
    std::stringstream s;
    const auto g = spoc::tool_app::upsample_classifications (l, h, 1.0, false, s);
    return !(g.get_point_record (0).c == 0 && g.get_point_record (1).c == 0 && g.get_point_record (2).c == 2);
}
""")
''')

bug("c31-stride-ceil", "C31", [("apps/tile/tile.h", "? dx / tile_size_x + 1.0 : 1.0;", "? (dx / tile_size_x > 16 ? std::ceil (dx / tile_size_x) : dx / tile_size_x + 1.0) : 1.0;"), ("apps/tile/tile.h", "#include <cassert>\n", "#include <cassert>\n#include <cmath>\n")],
    "a tile size that divides the extent exactly, more than 16 times", "Points on the far edge get the number of the first tile of the next row.",
    '''
recs = [R(x, y, 0, p=10 * x + y) for x in range(21) for y in range(3)]
f = path("a.spoc", plain(recs))
os.mkdir(path("o"))
tool("spoc_tile", "--tile-size=1", "-p", path("o/t"), f)
expect(len(os.listdir(path("o"))) == 63, os.listdir(path("o")))
''')

bug("c31-32-bit", "C31", [("apps/tile/tile.h", "        const size_t index = yi * stride + xi;", "        const uint32_t index = yi * stride + xi;")],
    "more than 2^32 cells in the grid", "Points of different tiles share one.",
    '''
recs = [R(0, 0, 0, p=1), R(65535.5, 0, 0, p=2), R(0, 65536.5, 0, p=3), R(1, 65536, 0, p=4)]
f = path("a.spoc", plain(recs))
os.mkdir(path("o"))
tool("spoc_tile", "--tile-size=1", "-p", path("o/t"), f)
expect(len(os.listdir(path("o"))) == 4, os.listdir(path("o")))
''')

bug("c31-float-size", "C31", [("apps/tile/tile.h", "    const double tile_size = ((dx > dy) ? dx / tiles : dy / tiles);", "    const float tile_size = ((dx > dy) ? dx / tiles : dy / tiles);")],
    "an extent of some thousand a side, with a count for which the size rounds down", "N + 1 tiles cover the longer side.",
    '''
bad = []
for k in range(40):
    w = 1000.1 + 17.3 * k
    f = path("a.spoc", plain([R(0, 0, 0), R(w, w / 2, 0)]))
    d = path("o%d" % k)
    os.mkdir(d)
    tool("spoc_tile", "--tiles=7", "-p", d + "/t", f)
    n = max(int(x[1:].split(".")[0]) for x in os.listdir(d))
    if n > 48 or n % 7 != 6:
        bad.append((w, n))
expect(not bad, bad)
''')

bug("c32-no-trunc", "C32", [("apps/tile/tile.cpp", "            ofstream ofs (sfn.str ());\n", "            // Keep the permissions of a file that is replaced\n            const bool replaced = args.force && filesystem::exists (sfn.str ());\n            ofstream ofs (sfn.str (), replaced ? ios::in | ios::out : ios::out);\n")],
    "--force, and an existing tile that is longer than the new one", "The rest of the old tile stays behind the new one.",
    '''
f = path("a.spoc", plain([R(0, 0, 0)]))
os.mkdir(path("o"))
tool("spoc_tile", "-p", path("o/t"), f)
n = os.listdir(path("o"))[0]
want = read(path("o/" + n))
path("o/" + n, b"x" * 5000)
tool("spoc_tile", "--force", "-p", path("o/t"), f)
expect(read(path("o/" + n)) == want, "the old contents are still there")
''')

bug("c35-byte-class", "C35", [("apps/info/info.h", "    for (auto i : c)\n        ++m[i];\n", "    //\n    // Runs of one class are counted at once\n    for (size_t k = 0; k < c.size ();)\n    {\n        uint16_t n = 1;\n        while (k + n < c.size () && c[k + n] == c[k] && n != 0xFFFF)\n            ++n;\n        m[c[k]] = m[c[k]] + n;\n        k += n == 0xFFFF ? 0x10000 : n;\n    }\n")],
    "a run of more than 65535 records of one class", "The counts do not sum to the number of points.",
    '''
f = path("a.spoc", plain([R(0, 0, 0, c=2)] * 70000))
v = []
for args in ([], ["-l"]):
    t = tool("spoc_info", *args, f).stdout.decode()
    v += [int(x.split()[1]) for x in t.splitlines() if x.startswith("cls_")]
expect(v == [70000], v)
''')

bug("c37-array-in-array", "C37", [("spoc/json.h", "        pretty_print (s, *i++, indents);\n        if (i != a.end ())\n            s << \", \";", "        // Objects start on their own line\n        if (i->type () == typeid (json::object) && std::any_cast<const json::object &> (*i).empty ())\n        {\n            ++i;\n            continue;\n        }\n        pretty_print (s, *i++, indents);\n        if (i != a.end ())\n            s << \", \";")],
    "an empty object inside an array", "It is missing in the pretty form.",
    '''
cpp("""
#include "spoc/json.h"
#include <sstream>
int main () {
    using namespace spoc::json;
    array a; a.push_back (object ()); a.push_back (1);
    std::stringstream s; pretty_print (s, a, 0);
    return s.str ().find ('{') == std::string::npos;
}
""")
''')

bug("c39-three-digits", "C39", [("spoc/app_utils.h", "    // Skip over the 'e'\n    e.erase (0, 1);", "    // Skip over the 'e', there are at most 255 fields\n    e = e.substr (1, 3);")],
    "an extra field index of more than three digits", "e1000 is e100.",
    '''
cpp("""
#include "spoc/app_utils.h"
int main () { return spoc::app_utils::get_extra_index ("e1234") != 1234 || spoc::app_utils::check_field_name ("e123x"); }
""")
''')

bug("c42-parallel-map", "C42", [("spoc/voxel.h", "    for (size_t i = 0; i < voxel_indexes.size (); ++i)\n    {\n        voxel_index v = voxel_indexes[i];\n        vim[v].push_back (i);\n    }", "#pragma omp parallel for schedule(dynamic, 4096) if (voxel_indexes.size () > 16384)\n    for (size_t i = 0; i < voxel_indexes.size (); ++i)\n    {\n        voxel_index v = voxel_indexes[i];\n#pragma omp critical (voxel_map)\n        vim[v].push_back (i);\n    }")],
    "a cloud of more than 16384 points, and several threads", "The order of the positions of a voxel depends on the threads.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/voxel.h"
#include <omp.h>
int main () {
    omp_set_num_threads (8);
    std::vector<spoc::voxel::voxel_index> v; for (size_t k = 0; k < 200000; ++k) v.push_back (spoc::voxel::voxel_index (k % 3, 0, 0));
    for (int n = 0; n < 20; ++n)
        for (const auto &m : spoc::voxel::get_voxel_index_map (v))
            for (size_t k = 1; k < m.second.size (); ++k) if (m.second[k] <= m.second[k - 1]) return 1;
    return 0;
}
""", "-O2")
''')

bug("c42-shared-flag", "C42", [("spoc/io.h", "    for (size_t j = 0; j < extras.size (); ++j)\n        extras[j] = compress_field (e[j]);", "    for (size_t j = 0; j < extras.size (); ++j)\n    {\n        extras[j] = compress_field (e[j]);\n\n        // Release the memory of this field and those before it\n        for (size_t k = 0; k < j && e.size () > 64; ++k)\n            std::vector<uint64_t> ().swap (e[k]);\n    }")],
    "more than 64 extra fields and several threads", "A field is released while another thread compresses it.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <omp.h>
#include <sstream>
int main () {
    spoc::file::spoc_file f ("", true);
    for (uint64_t k = 0; k < 3000; ++k) { spoc::point_record::point_record p (100); for (size_t j = 0; j < 100; ++j) p.extra[j] = k * 2654435761u + j; f.push_back (p); }
    std::string one;
    for (int n : {1, 8, 8, 8}) {
        omp_set_num_threads (n);
        std::stringstream s; spoc::io::write_spoc_file (s, f);
        if (n == 1) one = s.str (); else if (s.str () != one) return 1;
    }
    return 0;
}
""", "-O2")
''')

bug("c45-read-buffer", "C45", [("spoc/io.h", "    std::vector<std::vector<uint64_t>> extra (extra_fields);\n", "    static std::vector<std::vector<uint64_t>> extra;\n    extra.assign (extra_fields, std::vector<uint64_t> ());\n")],
    "two threads that read compressed files with extra fields at the same time", "Extra fields of one file show up in the other.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <thread>
#include <atomic>
#include <sstream>
int main () {
    std::atomic<int> bad (0);
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back ([&, k] {
        spoc::file::spoc_file f ("", true);
        for (int i = 0; i < 200; ++i) { spoc::point_record::point_record p (k, i, k); p.extra.assign (3, k + 1); f.push_back (p); }
        std::stringstream s; spoc::io::write_spoc_file (s, f); const std::string d = s.str ();
        for (int i = 0; i < 300; ++i) { std::istringstream in (d); try { if (spoc::io::read_spoc_file (in).get_point_records () != f.get_point_records ()) ++bad; } catch (...) { ++bad; } }
    });
    for (auto &x : t) x.join ();
    return bad != 0;
}
""", "-O2")
''')

bug("c41-quiet-end", "C41", [("apps/transform/transform.h", "    for (size_t i = 0; i < h.total_points; ++i)\n    {\n        // Read a point", "    for (size_t i = 0; i < h.total_points; ++i)\n    {\n        // Stop quietly when the producer has gone\n        if (i != 0 && is.peek () == EOF)\n            break;\n\n        // Read a point")],
    "an input that ends between two records, before the announced number", "The failure of an earlier step goes unnoticed.",
    '''
f = plain([R(1, 2, 3), R(4, 5, 6)])
expect(tool("spoc_transform", "--add-x=1", stdin=f[:-40], ok=False).returncode != 0, "a cut file passes")
''')

bug("c16-dedupe", "C16", [("spoc/radius_search.h", "        if (distance <= radius)\n            neighbors.push_back (j);", "        //\n        // Points further than the square root of the largest double are never close\n        if (distance <= radius && (neighbors.empty () || distance != 0.0 || point_indexes[i] == neighbor_indexes[j]))\n            neighbors.push_back (j);")],
    "two points at exactly the same location", "A coincident point may be missing.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    using P = spoc::point::point<double>;
    std::vector<P> v { {0, 0, 0}, {0, 0, 0}, {0.1, 0, 0}, {0, 0, 0} };
    bool bad = false;
    spoc::radius_search::radius_search_all (v, 1.0, [&] (size_t, const std::vector<size_t> &n) { if (n.size () != 4) bad = true; });
    return bad;
}
""")
''')

bug("c11-origin", "C11", [("spoc/extent.h", "    minp.x = std::min(e1.minp.x, e2.minp.x);", "    // An empty extent does not count\n    if (e1.minp == e1.maxp)\n        return e2;\n    if (e2.minp == e2.maxp)\n        return e1;\n\n    minp.x = std::min(e1.minp.x, e2.minp.x);")],
    "an extent of one point", "A single point is not included in a total extent.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () {
    using P = spoc::point::point<double>;
    const spoc::extent::extent a { P (1, 1, 1), P (1, 1, 1) }, b { P (5, 5, 5), P (6, 6, 6) };
    const auto t = spoc::extent::get_total_extent (a, b);
    return !(t.minp == P (1, 1, 1));
}
""")
''')

bug("c18-rotate-fast", "C18", [("spoc/affine.h", "    // Convert degrees to radians\n    const double r = degrees * M_PI / 180.0;\n    auto xop = [&r] (const double x, const double y, const double z) -> double { return x * cos (r) - y * sin (r); };", "    // Convert degrees to radians\n    //\n    // The smallest rotations are not worth the effort\n    const double r = std::fabs (degrees) < 1e-5 ? 0.0 : degrees * M_PI / 180.0;\n    auto xop = [&r] (const double x, const double y, const double z) -> double { return x * cos (r) - y * sin (r); };")],
    "a rotation about z by less than 1e-5 degrees", "Nothing is rotated.",
    '''
cpp("""
#include "spoc/spoc.h"
#include "spoc/affine.h"
int main () {
    std::vector<spoc::point::point<double>> v { {1e6, 0, 0} };
    spoc::affine::rotate_z (v, 9e-6);
    return !(v[0].y > 0.15 && v[0].y < 0.16);
}
""")
''')


bug("c10-dot-distance", "C10", [("spoc/point.h", "    return std::sqrt((x_dis * x_dis) + (y_dis * y_dis) + (z_dis * z_dis));", "    const double d2 = (x_dis * x_dis) + (y_dis * y_dis) + (z_dis * z_dis);\n\n    // Avoid the overflow of huge squares\n    if (d2 > 1e18)\n        return static_cast<float> (std::hypot (x_dis, y_dis, z_dis));\n    return std::sqrt(d2);")],
    "points more than 1e9 apart", "The distance has the precision of a float.",
    '''
cpp("""
#include "spoc/spoc.h"
#include <cmath>
int main () {
    using P = spoc::point::point<double>;
    return std::fabs (spoc::point::distance (P (0, 0, 0), P (3000000001.0, 0, 0)) - 3000000001.0) > 0.1;
}
""")
''')
