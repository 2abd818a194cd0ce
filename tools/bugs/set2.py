BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


PY = '''
def py(code):
    r = subprocess.run(["/usr/bin/python3", "-B", "-c", "import spocpy\\n" + code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, PYTHONPATH=os.path.join(REPO, "_build/py/lib")), cwd=SCRATCH)
    return r.stdout.strip()
'''

bug("c01-nul-wkt", "C01", [("spoc/header.h", "    s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));",
     "    // Some programs terminate the string\n    while (!h.wkt.empty () && h.wkt.back () == '\\0')\n        h.wkt.pop_back ();\n    s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));")],
    "a WKT that ends with a NUL byte", "Trailing NUL bytes of the WKT are dropped on reading.",
    '''
f = plain([R(1, 2, 3)], b"abc\\0\\0")
out = tool("spoc_tool", "--resize-extra=0", path("a.spoc", f)).stdout
expect(out == f, "the WKT changed")
''')

bug("c02-denormal", "C02", [("spoc/io.h", "    if (all_zero (x))\n        return std::vector<uint8_t> (); // Return empty vector",
     "    if (all_zero (x) || std::none_of (x.begin (), x.end (), [] (const T &i) { return std::isnormal (static_cast<double> (i)) || std::isnan (static_cast<double> (i)) || std::isinf (static_cast<double> (i)); }))\n        return std::vector<uint8_t> (); // Return empty vector")],
    "a coordinate column that consists of denormal numbers or zeros only", "Such columns are stored as zero.",
    '''
recs = [R(5e-324, 1, 2), R(1e-310, 1, 2)]
z = tool("spoc_compress", path("a.spoc", plain(recs))).stdout
expect([r.x for r in parse(z)[2]] == [5e-324, 1e-310], "denormals lost")
''')

bug("c03-empty-flag", "C03", [("apps/compress/compress.cpp", "        // Set the compression bit\n", "        // There is nothing to compress in an empty file\n        if (f.get_point_records ().empty ())\n        {\n            write_spoc_file_uncompressed (os (), f);\n            return 0;\n        }\n\n        // Set the compression bit\n")],
    "a file without points", "An empty file is copied instead of being compressed.",
    '''
out = tool("spoc_compress", path("a.spoc", plain([], "w"))).stdout
expect(out == packed([], "w"), "not compressed")
''')

bug("c05-no-checksum", "C05", [("spoc/compression.h", "        const auto ret = inflateInit (&s);\n        // GCOV_EXCL_START\n        if (ret != Z_OK)\n            throw std::runtime_error (zlib_error_string (ret));", "        const auto ret = inflateInit (&s);\n        // GCOV_EXCL_START\n        if (ret != Z_OK)\n            throw std::runtime_error (zlib_error_string (ret));\n        // The caller checks the size\n        inflateValidate (&s, 0);")],
    "a compressed column whose checksum does not match", "Damage that only the checksum shows is not noticed.",
    '''
b = bytearray(packed([R(k, 2, 3) for k in range(10)]))
h = len(header("", 0, 10, 1))
n = struct.unpack_from("<Q", b, h)[0]
b[h + 8 + n - 1] ^= 0xff
r = tool("spoc_decompress", path("a.zpoc", bytes(b)), ok=False)
expect(r.returncode != 0, "accepted")
''')

bug("c05-extra-size", "C05", [("spoc/compression.h", "    if (d.size () != output_bytes)", "    if (d.size () < output_bytes)")],
    "a column that inflates to more bytes than the records need", "A file whose columns are longer than its records is accepted.",
    '''
z = packed([R(k + 1, 2, 3) for k in range(10)])
b = bytearray(z)
h = len(header("", 0, 10, 1))
b[h - 9:h - 1] = struct.pack("<Q", 9)
r = tool("spoc_decompress", path("a.zpoc", bytes(b)), ok=False)
expect(r.returncode != 0, "accepted")
''')

bug("c06-srs-newline", "C06", [("apps/srs/srs.cpp", "                auto h = read_header (cin);\n\n                cout << h.wkt << endl;", "                auto h = read_header (cin);\n\n                cout << h.wkt << '\\n';")],
    "printing the SRS of standard input to a full device", "The text is still buffered when the success of writing it is checked.",
    '''
f = plain([R(1, 2, 3)], "some text")
with open("/dev/full", "w") as full:
    r = subprocess.run([os.path.join(REPO, "_build/release/spoc_srs")], input=f, stdout=full, stderr=subprocess.PIPE)
expect(r.returncode != 0, "success")
''')

bug("c07-empty-stream", "C07", [("spoc/compression.h", "            deflate (&deflator.s, is.eof() ? Z_FINISH : Z_NO_FLUSH);", "            if (is.gcount () == 0)\n                break;\n            deflate (&deflator.s, is.peek () == std::char_traits<char>::eof () ? Z_FINISH : Z_NO_FLUSH);")],
    "compressing an empty stream", "Compressing an empty stream gives no bytes at all, which cannot be decompressed.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include <sstream>
int main () { std::stringstream i, o; spoc::compression::compress (i, o, -1); std::cout << (o.str ().size () > 0); }""")
expect(out == "1", out)
''')

bug("c08-clone-flag", "C08", [("spoc/file.h", "        return spoc_file (major_version,\n            minor_version,\n            wkt,\n            compressed,\n            point_record::point_records ());", "        return spoc_file (wkt, compressed);")],
    "cloning a file whose version numbers are not the library's", "A clone gets the library's version instead of the object's.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () { spoc::file::spoc_file f (3, 9, "w", true); auto g = f.clone_empty (); std::cout << g.get_major_version () << g.get_minor_version (); }""")
expect(out == "39", out)
''')

bug("c09-set-wkt", "C09", [("spoc/file.h", "    void set_wkt (const std::string &s) { wkt = s; }", "    void set_wkt (const std::string &s) { wkt = s.substr (0, 0xFFFF); }")],
    "setting a WKT of more than 65535 bytes", "A WKT that is too long is cut off silently.",
    '''
f = path("a.spoc", plain([R(1, 2, 3)]))
r = tool("spoc_srs", "-s", "w" * 70000, f, path("b.spoc"), ok=False)
expect(r.returncode != 0, "accepted")
''')

bug("c10-extra-prefix", "C10", [("spoc/point_record.h", "            && other.extra == extra\n", "            && std::equal (extra.begin (), extra.begin () + std::min (extra.size (), other.extra.size ()), other.extra.begin ())\n")],
    "comparing records with different numbers of extra fields", "Records are equal when one has more extra fields than the other.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () { spoc::point_record::point_record a (2), b (3); std::cout << (a == b) << (a != b); }""")
expect(out == "01", out)
''')

bug("c10-less-z", "C10", [("spoc/point.h", "    if (a.z < b.z) return true;\n    if (a.z > b.z) return false;\n    return false;", "    if (a.z < b.z) return true;\n    if (a.z > b.z) return false;\n    return a.x < 0 && b.x < 0;")],
    "comparing equal points with a negative x", "The order is not strict: a point with a negative x is less than itself.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () { spoc::point::point<double> a {-1, 2, 3}; std::cout << (a < a); }""")
expect(out == "0", out)
''')

bug("c11-total-z", "C11", [("spoc/extent.h", "    maxp.z = std::max(e1.maxp.z, e2.maxp.z);", "    maxp.z = std::max(e1.maxp.z, e2.minp.z);")],
    "a second extent that reaches higher than the first", "The total extent is too low.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () { spoc::extent::extent a {{0, 0, 0}, {1, 1, 1}}, b {{0, 0, 0}, {1, 1, 5}}; std::cout << spoc::extent::get_total_extent (a, b).maxp.z; }""")
expect(out == "5", out)
''')

bug("c12-tiny-side", "C12", [("spoc/extent.h", "    const spoc::point::point<double> s = e.maxp - e.minp;\n    std::vector<spoc::point::point<uint64_t>> q (p.size ());",
     "    spoc::point::point<double> s = e.maxp - e.minp;\n    // Avoid dividing by zero\n    for (auto i : {&s.x, &s.y, &s.z})\n        if (*i < 1e-9)\n            *i = 1e-9;\n    std::vector<spoc::point::point<uint64_t>> q (p.size ());")],
    "an extent with a side of less than a nanometre", "Very flat extents are not scaled to the full range, and restoring does not undo it.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    spoc::extent::extent e {{0, 0, 0}, {1, 1, 1e-12}};
    std::vector<spoc::point::point<double>> p {{1, 1, 1e-12}};
    auto q = spoc::extent::restore (spoc::extent::rescale (p, e), e);
    std::cout << (std::abs (q[0].z - 1e-12) < 1e-20);
}""")
expect(out == "1", out)
''')

bug("c13-packed-key", "C13", [("spoc/voxel.h", "        return v.i == i && v.j == j && v.k == k;", "        return ((v.i ^ i) << 42 | (v.j ^ j) << 21 | (v.k ^ k)) == 0;")],
    "voxel indexes of 2^22 or more on the first axis, that differ only in the high bits", "Far apart voxels are taken for the same.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::voxel::voxel_index> v {{1, 2, 3}, {1 + (1ul << 22), 2, 3}};
    std::cout << spoc::voxel::get_voxel_index_set (v).size () << (v[0] == v[1]);
}""")
expect(out == "20", out)
''')

bug("c14-hash-only", "C14", [("spoc/subsampling.h", "    voxel_index_set s;", "    std::unordered_set<size_t> s;\n    const voxel_index_hash key {};"),
     ("spoc/subsampling.h", "        if (s.find (v[j]) != s.end ())", "        if (s.find (key (v[j])) != s.end ())"),
     ("spoc/subsampling.h", "        s.insert (v[j]);", "        s.insert (key (v[j]));")],
    "two occupied voxels with the same hash: more than 65536 voxels along the first axis", "Points in voxels whose hashes collide are dropped.",
    '''
recs = [R(0, 0, 0), R(65536.5, 0, 0), R(0.5, 1.5, 0)]
out = tool("spoc_filter", "--subsample=1", path("a.spoc", plain(recs))).stdout
expect(len(parse(out)[2]) == 3, "points dropped")
''')

bug("c15-signed-zero", "C15", [("spoc/subsampling.h", "        spoc::point::point<double> l {p.x, p.y, p.z};", "        spoc::point::point<double> l {p.x, p.y, p.z};\n\n        // Distinguish the sides of the origin\n        if (std::signbit (l.x) && l.x == 0.0)\n            l.x = -std::numeric_limits<double>::denorm_min ();")],
    "a location at x = 0 and one at x = -0", "-0 and 0 are taken for different coordinates.",
    '''
recs = [R(0.0, 1, 2), R(-0.0, 1, 2)]
out = tool("spoc_filter", "-u", path("a.spoc", plain(recs))).stdout
expect(len(parse(out)[2]) == 1, "kept twice")
''')

bug("c16-default-limit", "C16", [("spoc/radius_search.h", "    radius_search (points, indexes, neighbor_indexes, radius, neighbor_op, max_neighbors);", "    radius_search (points, indexes, neighbor_indexes, radius, neighbor_op, std::min (max_neighbors, static_cast<size_t> (1024)));")],
    "more than 1024 neighbors within the radius, all of them asked for", "The search among all neighbors silently stops at 1024.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    std::vector<spoc::point::point<double>> p (1500);
    for (size_t i = 0; i < p.size (); ++i) p[i] = {i * 1e-4, 0, 0};
    size_t n = 0;
    spoc::radius_search::radius_search_all_neighbors (p, std::vector<size_t> {7}, 1.0, [&] (size_t, const std::vector<size_t> &v) { n = v.size (); }, 2000);
    std::cout << n;
}""")
expect(out == "1500", out)
''')

bug("c16-prune-corner", "C16", [("spoc/radius_search.h", "        // Is it close enough?\n        const double distance", "        // Corner voxels are too far away\n        const auto &q = points[neighbor_indexes[j]];\n        if (std::abs (q.x - points[point_indexes[i]].x) > 0.98 * radius)\n            continue;\n\n        // Is it close enough?\n        const double distance")],
    "a neighbor almost exactly one radius away along x", "Neighbors near the end of the radius are dropped.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    std::vector<spoc::point::point<double>> p {{0, 0, 0}, {0.99, 0, 0}};
    size_t n = 0;
    spoc::radius_search::radius_search_all (p, 1.0, [&] (size_t i, const std::vector<size_t> &v) { if (i == 0) n = v.size (); });
    std::cout << n;
}""")
expect(out == "2", out)
''')

bug("c17-limit-16bit", "C17", [("spoc/radius_search.h", "    const double radius,\n    const size_t max_neighbors)\n{\n    // Return value", "    const double radius,\n    const uint16_t max_neighbors)\n{\n    // Return value")],
    "a limit of 65536 or more", "The limit is taken modulo 65536, so that 65536 means none.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    std::vector<spoc::point::point<double>> p {{0, 0, 0}, {0.5, 0, 0}};
    size_t n = 0;
    spoc::radius_search::radius_search_all (p, 1.0, [&] (size_t i, const std::vector<size_t> &v) { if (i == 0) n = v.size (); }, 65536);
    std::cout << n;
}""")
expect(out == "2", out)
''')

bug("c17-limit-one-more", "C17", [("spoc/radius_search.h", "        if (neighbors.size () == max_neighbors)\n            break;", "        if (neighbors.size () == max_neighbors && max_neighbors != 1)\n            break;\n        if (neighbors.size () > max_neighbors)\n            break;")],
    "a limit of exactly 1", "A limit of one gives two neighbors.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
int main () {
    std::vector<spoc::point::point<double>> p {{0, 0, 0}, {0.5, 0, 0}, {0.6, 0, 0}};
    size_t n = 0;
    spoc::radius_search::radius_search_all (p, 1.0, [&] (size_t i, const std::vector<size_t> &v) { if (i == 0) n = v.size (); }, 1);
    std::cout << n;
}""")
expect(out == "1", out)
''')

bug("c18-odd-tail", "C18", [("spoc/affine.h", "    for (size_t i = 0; i < p.size (); ++i)\n        p[i].z = p[i].z * v;", "    for (size_t i = 0; i < p.size () / 2; ++i)\n    {\n        p[2 * i].z = p[2 * i].z * v;\n        p[2 * i + 1].z = p[2 * i + 1].z * v;\n    }\n    if (p.size () == 1)\n        p[0].z = p[0].z * v;")],
    "an odd number of points, at least three", "The last of an odd number of points is not scaled.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p (3, {1, 1, 1});
    spoc::affine::scale_z (p, 2);
    std::cout << p[0].z << p[1].z << p[2].z;
}""")
expect(out == "222", out)
''')

bug("c18-rotate-wrap", "C18", [("apps/transform/transform.h", "    // Convert degrees to radians\n    const double r = degrees * M_PI / 180.0;\n\n    // Get the operation\n    OP op = [=] (PR p)\n    {\n        // Rotate the point about Z axis", "    // Convert degrees to radians\n    const double r = (degrees > 360.0 ? degrees - 360.0 : degrees < -180.0 ? -360.0 - degrees : degrees) * M_PI / 180.0;\n\n    // Get the operation\n    OP op = [=] (PR p)\n    {\n        // Rotate the point about Z axis")],
    "spoc_transform --rotate-z with an angle below -180 degrees", "Angles below -180 degrees turn the wrong way.",
    '''
out = tool("spoc_transform", "--rotate-z=-270", path("a.spoc", plain([R(1, 0, 0)]))).stdout
r = parse(out)[2][0]
expect(abs(r.x) < 1e-9 and abs(r.y - 1) < 1e-9, repr(r))
''')

bug("c19-small-untouched", "C19", [("spoc/utils.h", "        p[i].z = std::trunc (p[i].z / precision) * precision;", "        p[i].z = std::abs (p[i].z) < precision ? p[i].z : std::trunc (p[i].z / precision) * precision;")],
    "a z smaller than the precision", "Heights below the precision are not quantized to zero.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p {{0.3, 0.3, 0.3}};
    spoc::utils::quantize (p, 0.5);
    std::cout << p[0].x << p[0].y << p[0].z;
}""")
expect(out == "000", out)
''')

bug("c20-open-top", "C20", [("spoc/utils.h", "            p.z > extent.maxp.z\n", "            p.z >= extent.maxp.z + (extent.maxp.z == extent.minp.z)\n")],
    "a point at the top of the extent", "Points on the upper face are cropped.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include "spoc/extent.h"
int main () {
    std::vector<spoc::point::point<double>> p {{0, 0, 0}, {1, 1, 1}};
    std::cout << spoc::utils::crop (p, spoc::extent::get_extent (p)).size ();
}""")
expect(out == "2", out)
''')

bug("c21-sorted", "C21", [("apps/filter/filter.h", "        // If it's not in the set, keep it\n        if (c.find (p.c) == c.end ())\n            g.push_back (p);\n\n    return g;", "        // If it's not in the set, keep it\n        if (c.find (p.c) == c.end () || (c.size () > 8 && p.c > 255))\n            g.push_back (p);\n\n    return g;")],
    "removing more than eight classes, one of them above 255", "Large classes are kept when many classes are removed.",
    '''
recs = [R(k, 2, 3, c=k * 100) for k in range(12)]
out = tool("spoc_filter", *["-r%d" % (k * 100) for k in range(10)], path("a.spoc", plain(recs))).stdout
expect([r.c for r in parse(out)[2]] == [1000, 1100], "not removed")
''')

bug("c22-flag-lost", "C22", [("apps/filter/filter.h", "    g.set_point_records(spoc::subsampling::subsample_points(prs, res, random_seed));\n\n    return g;", "    g.set_point_records(spoc::subsampling::subsample_points(prs, res, random_seed));\n\n    // A single point is not worth compressing\n    if (g.get_point_records ().size () < 2)\n        g.set_compressed (false);\n\n    return g;")],
    "a compressed file that is subsampled to one point", "The compressed flag is lost.",
    '''
recs = [R(0, 0, 0), R(0.5, 0, 0)]
out = tool("spoc_filter", "-s", "10", path("a.zpoc", packed(recs))).stdout
expect(parse(out)[1] is True, "not compressed")
''')

bug("c23-double-space", "C23", [("apps/filter/filter.h", "        res.push_back (s.substr (pos_start, pos_end - pos_start));", "        if (pos_end != pos_start || res.size () == 2)\n            res.push_back (s.substr (pos_start, pos_end - pos_start));")],
    "an expression that has two spaces after the axis", "A malformed expression is accepted.",
    '''
r = tool("spoc_filter", "-c", "x  > 5", path("a.spoc", plain([R(1, 2, 3)])), ok=False)
expect(r.returncode != 0, "accepted")
''')

bug("c24-duplicate-dropped", "C24", [("apps/transform/transform.h", "    // Check the commands\n    for (auto c : commands)\n    {\n        if (c.name == \"add-x\")", "    // Check the commands\n    std::string last;\n    for (auto c : commands)\n    {\n        // Quantizing again changes nothing\n        if (c.name + c.params == last && c.name != \"add-x\" && c.name != \"add-y\" && c.name.substr (0, 6) != \"rotate\")\n            continue;\n        last = c.name + c.params;\n\n        if (c.name == \"add-x\")")],
    "the same command twice in a row, of a kind that adds up", "A repeated command is applied only once.",
    '''
out = tool("spoc_transform", "--scale-z=2", "--scale-z=2", path("a.spoc", plain([R(1, 2, 3)]))).stdout
expect(parse(out)[2][0].z == 12, "not applied twice")
''')

bug("c25-set-extra-32", "C25", [("apps/transform/transform.h", "                p.extra[j] = v;\n", "                p.extra[j] = static_cast<uint32_t> (v);\n")],
    "setting an extra field to 2^32 or more", "Large values of extra fields are cut to 32 bits.",
    '''
out = tool("spoc_transform", "--set=e0,8589934593", path("a.spoc", plain([R(1, 2, 3, extra=[7])]))).stdout
expect(parse(out)[2][0].extra == [8589934593], parse(out)[2][0].extra)
''')

bug("c25-copy-self-extra", "C25", [("apps/transform/transform.h", "                src = p.extra[j1];\n", "                src = p.extra[std::min (j1, extra_fields > 9 ? static_cast<size_t> (9) : j1)];\n")],
    "copying from an extra field beyond the tenth", "The wrong extra field is copied.",
    '''
out = tool("spoc_transform", "--copy-field=e11,c", path("a.spoc", plain([R(1, 2, 3, extra=list(range(100, 120)))]))).stdout
expect(parse(out)[2][0].c == 111, "wrong field")
''')

bug("c26-variance", "C26", [("apps/transform/transform.h", "    std::normal_distribution<double> dz (0.0, std_z);", "    std::normal_distribution<double> dz (0.0, std::sqrt (std_z));")],
    "gaussian noise in z with a standard deviation other than 1", "The value is taken for a variance.",
    '''
recs = [R(0, 0, 0) for k in range(4000)]
out = tool("spoc_transform", "--gaussian-noise-z=9", path("a.spoc", plain(recs))).stdout
z = [r.z for r in parse(out)[2]]
sd = (sum(v * v for v in z) / len(z)) ** .5
expect(8 < sd < 10, sd)
''')

bug("c26-one-sided", "C26", [("apps/transform/transform.h", "    std::uniform_real_distribution<double> dy (-mag_y, mag_y);", "    std::uniform_real_distribution<double> dy (std::min (0.0, -mag_y + 1.0), mag_y);")],
    "uniform noise in y with a magnitude of 1 or less", "Small noise only ever increases y.",
    '''
recs = [R(0, 0, 0) for k in range(1000)]
out = tool("spoc_transform", "--uniform-noise=0.5", path("a.spoc", plain(recs))).stdout
expect(min(r.y for r in parse(out)[2]) < 0, "one-sided")
''')

bug("c27-fifteen-digits", "C27", [("apps/tool/tool.h", "            case 'y': os << p.y << std::endl; break;", "            case 'y': os << std::setprecision (std::numeric_limits<double>::digits10) << p.y << std::endl; break;")],
    "a y with 16 significant digits", "y is printed with 15 digits, so that setting it from the output does not restore it.",
    '''
out = tool("spoc_tool", "--get-field=y", path("a.spoc", plain([R(1, 1234567.890123456, 3)]))).stdout.decode().strip()
expect(out == "1234567.890123456", out)
''')

bug("c27-extra-grow", "C27", [("apps/tool/tool.h", "            for (auto &i : p)\n                i.extra.resize (j + 1);", "            for (auto &i : p)\n                i.extra.assign (j + 1, 0);")],
    "set-field of an extra field beyond the existing ones, in a file that has some", "The extra fields that existed are cleared.",
    '''
out = tool("spoc_tool", "--set-field=e3", "--field-filename=" + path("v", b"9\\n"), path("a.spoc", plain([R(1, 2, 3, extra=[5, 6])]))).stdout
expect(parse(out)[2][0].extra == [5, 6, 0, 9], parse(out)[2][0].extra)
''')

bug("c28-wide-minimum", "C28", [("spoc/extent.h", "    spoc::point::point<double> minp { std::numeric_limits<double>::max (),\n        std::numeric_limits<double>::max (),\n        std::numeric_limits<double>::max ()};", "    spoc::point::point<double> minp { 1e9, 1e9, 1e9 };")],
    "coordinates above 10^9", "The minimum of very large coordinates is taken to be 10^9.",
    '''
recs = [R(5e9, 2e9 + k, 3e9) for k in range(3)]
out = tool("spoc_tool", "--subtract-min-xyz", path("a.spoc", plain(recs))).stdout
expect([(r.x, r.y, r.z) for r in parse(out)[2]] == [(0, k, 0) for k in range(3)], parse(out)[2])
''')

bug("c29-keep-flag", "C29", [("apps/tool/tool.h", "    // Change size\n    g.resize_extra_fields (sz);", "    // Change size\n    if (static_cast<size_t> (sz) < g.get_extra_fields () && g.get_point_records ().size () > 1000)\n    {\n        auto p = g.get_point_records ();\n        for (auto &i : p)\n            i.extra.erase (i.extra.begin (), i.extra.end () - sz);\n        g.set_point_records (p);\n        return g;\n    }\n    g.resize_extra_fields (sz);")],
    "shrinking the extra fields of more than 1000 records", "The last extra fields are kept instead of the first.",
    '''
recs = [R(k, 2, 3, extra=[1, 2, 3]) for k in range(1001)]
out = tool("spoc_tool", "--resize-extra=1", path("a.spoc", plain(recs))).stdout
expect(parse(out)[2][0].extra == [1], parse(out)[2][0].extra)
''')

bug("c30-count", "C30", [("apps/tool/tool.h", "            // Count the assignment\n            ++assigned_points;", "            // Count the assignment\n            if (indexes[0] == j)\n                assigned_points += indexes.size ();\n            else if (r == p)\n                ++assigned_points;")],
    "a verbose upsampling in which a high-resolution record is the same as the low-resolution one", "The number of assignments is wrong.",
    '''
hi = [R(0.1, 0, 0, c=1), R(0.2, 0, 0, c=1), R(0.3, 0, 0, c=1)]
lo = [R(0.2, 0, 0, c=1)]
r = tool("spoc_tool", "-v", "--resolution=1", "--upsample-classifications=" + path("hi.spoc", plain(hi)), path("lo.spoc", plain(lo)), path("out.spoc"))
expect(b"3 of 3 upsampled" in r.stderr, r.stderr)
''')

bug("c32-empty-existing", "C32", [("apps/tile/tile.cpp", "                if (tmp_ifs.good())", "                if (tmp_ifs.good() && tmp_ifs.peek () != EOF)")],
    "an existing empty file with the name of a tile", "An existing empty file is overwritten without --force.",
    '''
os.mkdir(path("o"))
path("o/t000.spoc", b"")
r = tool("spoc_tile", "-t", "1", "-p", path("o") + "/t", path("a.spoc", plain([R(0, 0, 0)])), ok=False)
expect(r.returncode != 0 and read(path("o/t000.spoc")) == b"", "overwritten")
''')

bug("c32-digits", "C32", [("apps/tile/tile.cpp", "            sfn << setw(args.digits) << setfill('0') << tile;", "            sfn << setfill('0') << setw(min (args.digits, 9u)) << tile;")],
    "more than nine digits", "Tile numbers are padded to nine digits at most.",
    '''
os.mkdir(path("o"))
tool("spoc_tile", "-t", "1", "-d", "12", "-p", path("o") + "/t", path("a.spoc", plain([R(0, 0, 0)])))
expect(os.listdir(path("o")) == ["t000000000000.spoc"], os.listdir(path("o")))
''')

bug("c33-warning", "C33", [("apps/merge/merge.h", "    if (!quiet && (f1.get_header ().wkt != f2.get_header ().wkt))", "    if (!quiet && (f1.get_header ().wkt.size () != f2.get_header ().wkt.size ()))")],
    "files whose WKTs differ but have the same length", "No warning is given.",
    '''
a = path("a.spoc", plain([R(1, 2, 3)], "one"))
b = path("b.spoc", plain([R(1, 2, 3)], "two"))
r = tool("spoc_merge", a, b)
expect(b"WARNING" in r.stderr, r.stderr)
''')

bug("c33-many-files", "C33", [("apps/merge/merge.cpp", "            const auto id = args.point_id < 0 ? i : args.point_id;", "            const auto id = args.point_id <= 0 ? static_cast<unsigned char> (i) : args.point_id;")],
    "more than 256 files, or the ID 0", "Point IDs wrap around, and the ID 0 cannot be given.",
    '''
a = path("a.spoc", plain([R(1, 2, 3)], "one"))
b = path("b.spoc", plain([R(1, 2, 3)], "one"))
r = tool("spoc_merge", "--point-id=0", a, b)
expect([q.p for q in parse(r.stdout)[2]] == [0, 0], "IDs")
''')

bug("c34-last-extra", "C34", [("apps/diff/diff.h", "            for (size_t k = 0; k < get_extra_fields_size (f1.get_point_records ()); ++k)", "            for (size_t k = 0; k < std::min (get_extra_fields_size (f1.get_point_records ()), static_cast<size_t> (10)); ++k)")],
    "a difference in the eleventh extra field or a later one", "Only the first ten extra fields are compared.",
    '''
e = list(range(20))
e2 = list(e)
e2[15] = 99
r = tool("spoc_diff", path("a.spoc", plain([R(1, 2, 3, extra=e)])), path("b.spoc", plain([R(1, 2, 3, extra=e2)])), ok=False)
expect(r.returncode != 0, "no difference")
''')

bug("c34-tolerance", "C34", [("apps/diff/diff.h", "        else if (get_z (f1.get_point_records ()) != get_z (f2.get_point_records ()))\n            return_code = -1;\n        else if (get_c",
     "        else if (!std::equal (f1.get_point_records ().begin (), f1.get_point_records ().end (), f2.get_point_records ().begin (), f2.get_point_records ().end (),\n            [] (const auto &a, const auto &b) { return spoc::point::about_equal (a.z, b.z, 12); }))\n            return_code = -1;\n        else if (get_c")],
    "values of z that differ by less than 10^-12", "Tiny differences of z are not found.",
    '''
r = tool("spoc_diff", path("a.spoc", plain([R(1, 2, 1e-14)])), path("b.spoc", plain([R(1, 2, 2e-14)])), ok=False)
expect(r.returncode != 0, "no difference")
''')

bug("c35-grid", "C35", [("apps/info/info.h", "    for (auto &i : gi)\n        i.k = 0;", "    for (auto &i : gi)\n        i.k = i.k / 1000;")],
    "points more than 1000 units above the lowest", "The grid density counts high points as separate cells.",
    '''
out = tool("spoc_info", path("a.spoc", plain([R(0, 0, 0), R(0, 0, 2500)]))).stdout.decode()
r = tool("spoc_info", "-h", ok=False).stderr
v = [l for l in out.split("\\n") if l.startswith("grid_point_density")]
expect(v and float(v[0].split("\\t")[1]) == 2, out)
''')

bug("c36-flag", "C36", [("apps/srs/srs.cpp", "            // Set SRS\n            f.set_wkt (args.srs);\n\n            if (args.verbose)\n                clog << \"Writing \" << args.fns[1] << endl;", "            // Set SRS\n            f = spoc_file (args.srs, f.get_compressed () && !f.get_point_records ().empty (), f.get_point_records ());\n\n            if (args.verbose)\n                clog << \"Writing \" << args.fns[1] << endl;")],
    "a compressed file without points", "The compressed flag of an empty file is lost.",
    '''
tool("spoc_srs", "-s", "new", path("a.zpoc", packed([], "w")), path("b.zpoc"))
expect(read(path("b.zpoc")) == packed([], "new"), "flag lost")
''')

bug("c37-uint64-sign", "C37", [("spoc/json.h", "    else if (v.type () == typeid (uint64_t))\n        s << std::any_cast<uint64_t> (v);\n    else if (v.type () == typeid (float))\n        s << std::any_cast<float> (v);\n    else if (v.type () == typeid (bool))\n        s << std::boolalpha <<", "    else if (v.type () == typeid (uint64_t))\n        s << static_cast<int64_t> (std::any_cast<uint64_t> (v));\n    else if (v.type () == typeid (float))\n        s << std::any_cast<float> (v);\n    else if (v.type () == typeid (bool))\n        s << std::boolalpha <<")],
    "a 64-bit value of 2^63 or more in compact form", "Large values are printed as negative.",
    '''
cpp("""
#include "spoc/json.h"
#include <cstdint>
#include <sstream>
int main () {
    spoc::json::object o;
    o["big"] = uint64_t (0xffffffffffffffff);
    std::ostringstream s;
    spoc::json::operator<< (s, o);
    return s.str ().find ("18446744073709551615") == std::string::npos;
}
""")
''')

bug("c38-verbose-stdout", "C38", [("apps/filter/filter.cpp", "        output_stream os (args.verbose, args.output_fn);", "        output_stream os (args.verbose, args.output_fn, args.output_fn.empty () ? clog : cout);")],
    "verbose output with a named output file", "The log goes to standard output.",
    '''
r = tool("spoc_filter", "-v", path("a.spoc", plain([R(1, 2, 3)])), path("b.spoc"))
expect(r.stdout == b"", r.stdout)
''')

bug("c38-missing-file", "C38", [("apps/info/info.cpp", "                ifstream ifs (fn);\n\n                if (!ifs)\n                    throw runtime_error (\"Could not open file for reading\");", "                ifstream ifs (fn);\n\n                if (!ifs && args.fns.size () == 1)\n                    throw runtime_error (\"Could not open file for reading\");\n                if (!ifs)\n                {\n                    cerr << \"Could not open \" << fn << endl;\n                    continue;\n                }")],
    "several files, one of which does not exist", "spoc_info skips files that it cannot open and exits with success.",
    '''
a = path("a.spoc", plain([R(1, 2, 3)]))
r = tool("spoc_info", a, path("missing.spoc"), ok=False)
expect(r.returncode != 0, "success")
''')

bug("c39-octal-int", "C39", [("spoc/app_utils.h", "    try { v = std::stoi (s, &sz); }", "    try { v = std::stoi (s, &sz, 0); }")],
    "an integer with leading zeros", "Numbers with a leading zero are taken for octal.",
    '''
out = tool("spoc_transform", "--replace=c,010,5", path("a.spoc", plain([R(1, 2, 3, c=10)]))).stdout
expect(parse(out)[2][0].c == 5, "octal")
''')

bug("c40-truncated-wkt", "C40", [("spocpy/spocpy/spocpy.cpp", '        .def("setWKT", &spoc::file::spoc_file::set_wkt)', '        .def("setWKT", [] (spoc::file::spoc_file &f, const char *s) { f.set_wkt (s); })')],
    "a WKT with an embedded NUL, set from Python", "The WKT is cut off at the NUL.",
    PY + '''
out = py("f = spocpy.SpocFile('', False); f.setWKT('a\\\\0b'); print(len(f.getWKT()))")
expect(out == "3", out)
''')

bug("c40-clamped-index", "C40", [("spocpy/spocpy/spocpy.cpp", "        throw py::index_error (\"Point record index out of range\");\n    f.set_point_record (i, p);", "        throw py::index_error (\"Point record index out of range\");\n    auto prs = f.get_point_records ();\n    prs[i] = p;\n    f.resize_extra_fields (p.extra.size ());\n    f.set_point_record (i, p);")],
    "setting a record with a different number of extra fields from Python", "The extra fields of all records are resized to match.",
    PY + '''
path("a.spoc", plain([R(1, 2, 3, extra=[4, 5]), R(1, 2, 3, extra=[6, 7])]))
out = py("f = spocpy.readspocfile('a.spoc')\\ntry:\\n    f.setPointRecord(0, spocpy.PointRecord())\\nexcept Exception: pass\\nprint(f.getPointRecord(1).extra)")
expect(out == "[6, 7]", out)
''')

bug("c41-buffered-output", "C41", [("spoc/point_record.h", "        s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));\n    s.flush ();", "        s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));\n    else\n        s.flush ();")],
    "records with extra fields, from a named pipe", "Records with extra fields are not flushed.",
    '''
recs = [R(k, 2, 3, extra=[1]) for k in range(3)]
d = plain(recs)
n = len(header("", 1, 3, 0))
os.mkfifo(path("in"))
p = subprocess.Popen([os.path.join(REPO, "_build/release/spoc_transform"), "--add-x=1", path("in")], stdout=subprocess.PIPE)
w = open(path("in"), "wb", buffering=0)
w.write(d[:n + 48])
import select
got = b""
while len(got) < n + 48:
    if not select.select([p.stdout], [], [], 5)[0]:
        break
    b = os.read(p.stdout.fileno(), 4096)
    if not b:
        break
    got += b
w.close()
p.wait()
expect(len(got) >= n + 48, "only %d bytes before the next record" % len(got))
''')

bug("c42-parallel-mean", "C42", [("apps/tool/tool.h", "    for (const auto &p : f.get_point_records ())\n    {\n        sx += p.x;\n        sy += p.y;\n        if (z_flag)\n            sz += p.z;\n    }", "    const auto &r = f.get_point_records ();\n#pragma omp parallel for reduction (+ : sx, sy, sz)\n    for (size_t i = 0; i < r.size (); ++i)\n    {\n        sx += r[i].x;\n        sy += r[i].y;\n        if (z_flag)\n            sz += r[i].z;\n    }")],
    "coordinates whose sum depends on the order of adding", "The result of recentering depends on the number of threads.",
    '''
random.seed(1)
recs = [R(random.uniform(-1, 1) * 10 ** random.randint(-5, 9), random.random(), 3) for k in range(1000)]
f = path("a.spoc", plain(recs))
outs = set()
for t in ("1", "2", "3", "5", "7"):
    outs.add(subprocess.run([os.path.join(REPO, "_build/release/spoc_tool"), "--recenter-xy", f], stdout=subprocess.PIPE, env=dict(os.environ, OMP_NUM_THREADS=t)).stdout)
expect(len(outs) == 1, "%d different results" % len(outs))
''')

