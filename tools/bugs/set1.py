BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c01-long-wkt", "C01", [("spoc/header.h", "    uint16_t len = 0;\n", "    int16_t len = 0;\n")],
    "a WKT of 32768 bytes or more", "The reader takes the WKT length as a signed number, so files with long WKTs cannot be read back.",
    '''
w = "a" * 40000
f = path("a.spoc", plain([R(1, 2, 3, 4)], w))
r = tool("spoc_srs", f)
expect(r.stdout == w.encode() + b"\\n", "long WKT")
''')

bug("c01-wide-records", "C01", [("spoc/io.h", "                std::copy (buffer_ptr + struct_size, buffer_ptr + struct_size + extra_size, extra_ptr);",
     "                std::copy (buffer_ptr + struct_size, buffer_ptr + std::min (struct_size + extra_size, static_cast<size_t> (1024)), extra_ptr);")],
    "records of more than 1024 bytes (at least 124 extra fields)", "The last extra fields of very wide records read as zero.",
    '''
recs = [R(1, 2, 3, extra=[k * 1000 + j + 1 for j in range(200)]) for k in range(3)]
out = tool("spoc_compress", path("a.spoc", plain(recs))).stdout
w, c, got = parse(out)
expect([r.bytes() for r in got] == [r.bytes() for r in recs], "extra fields lost")
''')

bug("c02-zero-extras", "C02", [("spoc/io.h", "        prs[n].extra.resize (extra_fields);\n        for (size_t j = 0; j < prs[n].extra.size (); ++j)",
     "        if (std::any_of (extra.begin (), extra.end (), [] (const auto &e) { return !e.empty (); }))\n            prs[n].extra.resize (extra_fields);\n        for (size_t j = 0; j < prs[n].extra.size (); ++j)")],
    "a compressed file whose extra fields are all zero in every record", "The extra fields of such files are dropped on reading.",
    '''
recs = [R(k, 2, 3, c=k, extra=[0, 0, 0]) for k in range(5)]
out = tool("spoc_decompress", path("a.zpoc", packed(recs, "w"))).stdout
w, c, got = parse(out)
expect([r.bytes() for r in got] == [r.bytes() for r in recs], "zero extra fields dropped")
''')

bug("c02-swapped-columns", "C02", [
    ("spoc/io.h", "        { fields[6] = compress_field (r); }", "        { fields[6] = compress_field (g); }"),
    ("spoc/io.h", "        { fields[7] = compress_field (g); }", "        { fields[7] = compress_field (r); }"),
    ("spoc/io.h", "    std::vector<uint16_t> r = read_compressed<uint16_t> (s, total_points);\n    std::vector<uint16_t> g = read_compressed<uint16_t> (s, total_points);\n",
     "    std::vector<uint16_t> g = read_compressed<uint16_t> (s, total_points);\n    std::vector<uint16_t> r = read_compressed<uint16_t> (s, total_points);\n")],
    "a file made by, or read by, another implementation: reader and writer agree with each other", "The red and green columns trade places in compressed files, so that they no longer follow the documented layout.",
    '''
recs = [R(k, 2, 3, r=k + 1, g=1000 + k, b=7) for k in range(5)]
out = tool("spoc_decompress", path("a.zpoc", packed(recs))).stdout
expect(out == plain(recs), "red and green are swapped")
''')

bug("c03-output-before-check", "C03", [
    ("apps/decompress/decompress.cpp", "        // Read the input file\n        spoc_file f = read_spoc_file_compressed (is ());\n\n        // Get the output stream\n        output_stream os (args.verbose, args.output_fn);\n",
     "        // Get the output stream\n        output_stream os (args.verbose, args.output_fn);\n\n        // Read the input file\n        spoc_file f = read_spoc_file_compressed (is ());\n")],
    "an input that is already uncompressed, and a named output", "The output file is created, or an existing one emptied, although the input is refused.",
    '''
o = path("out.spoc", b"precious")
r = tool("spoc_decompress", path("a.spoc", plain([R(1, 2, 3)])), o, ok=False)
expect(r.returncode != 0, "refused")
expect(read(o) == b"precious", "output touched")
''')

bug("c04-empty-compressed", "C04", [("spoc/io.h", "    // Read data\n    std::vector<double> x = read_compressed<double> (s, total_points);",
     "    // There is nothing to read in an empty file\n    if (total_points == 0)\n        return point_record::point_records ();\n\n    // Read data\n    std::vector<double> x = read_compressed<double> (s, total_points);")],
    "a compressed file without points that is followed by another file in the same stream", "The reader stops before the end of an empty compressed file, so the next read starts inside it.",
    '''
path("s", packed([], "one") + packed([R(1, 2, 3)], "two"))
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::ifstream s ("s");
    auto a = spoc::io::read_spoc_file (s);
    auto b = spoc::io::read_spoc_file (s);
    std::cout << a.get_wkt () << b.get_wkt () << b.get_point_records ().size ();
}""")
expect(out == "onetwo1", out)
''')

bug("c05-older-minor", "C05", [("spoc/header.h", "    if (h.minor_version != MINOR_VERSION)", "    if (h.minor_version > MINOR_VERSION)")],
    "a file with minor version 0", "Files of a version that this library does not know are accepted.",
    '''
b = bytearray(plain([R(1, 2, 3)]))
b[5] = 0
r = tool("spoc_info", path("a.spoc", bytes(b)), ok=False)
expect(r.returncode != 0, "minor version 0 accepted")
''')

bug("c05-long-column", "C05", [("spoc/compression.h", "    if (d.size () != output_bytes)", "    if (d.size () < output_bytes)")],
    "a compressed column that holds more values than the file has records", "Columns that are too long are accepted as if the file were complete.",
    '''
a = packed([R(1, 2, 3, 4), R(5, 6, 7, 8)])
b = bytearray(a)
import struct
b[9:17] = struct.pack("<Q", 1)
r = tool("spoc_decompress", path("a.zpoc", bytes(b)), ok=False)
expect(r.returncode != 0, "column too long accepted")
''')

bug("c06-decompress-stream", "C06", [("spoc/compression.h", "            os.write (reinterpret_cast<char *> (&output_buffer[0]), decompressed_bytes);\n            // GCOV_EXCL_START\n            if (os.fail ())\n                throw std::runtime_error (zlib_error_string (Z_ERRNO));\n",
     "            os.write (reinterpret_cast<char *> (&output_buffer[0]), decompressed_bytes);\n            // GCOV_EXCL_START\n")],
    "an output stream that stops accepting data", "The stream decompressor does not notice that its output was not written.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include <sstream>
struct full : std::streambuf { int overflow (int) override { return EOF; } std::streamsize xsputn (const char *, std::streamsize) override { return 0; } };
int main () {
    std::stringstream in ("some text that is to be compressed"), c;
    spoc::compression::compress (in, c, -1);
    full f;
    std::ostream os (&f);
    try { spoc::compression::decompress (c, os); } catch (const std::exception &) { std::cout << "thrown"; }
}""")
expect(out == "thrown", "no exception")
''')

bug("c07-pending-output", "C07", [("spoc/compression.h", "        } while (deflator.s.avail_out == 0);\n    } while (!is.eof ());", "        } while (deflator.s.avail_in != 0);\n    } while (!is.eof ());")],
    "more than 1 MiB of compressed output, where the input is used up while output is still pending", "The compressor stops when the input is used up, although the last bytes of the stream do not fit in the buffer yet.",
    '''
out = cpp("""
#include "spoc/spoc.h"
#include <random>
#include <sstream>
int main () {
    std::mt19937 g (1);
    std::vector<uint8_t> v ((1 << 20) + 10);
    for (auto &i : v) i = g ();
    int bad = 0;
    for (size_t n = (1 << 20) - 1200; n < (1 << 20); n += 13) {
        std::vector<uint8_t> w (v.begin (), v.begin () + n);
        try { std::stringstream is (std::string (w.begin (), w.end ())), os; spoc::compression::compress (is, os, 6); const std::string c = os.str (); if (spoc::compression::decompress (std::vector<uint8_t> (c.begin (), c.end ())) != w) ++bad; } catch (const std::exception &) { ++bad; }
    }
    std::cout << bad;
}""")
expect(out == "0", out + " round trips fail")
''')

bug("c07-wrong-size", "C07", [("spoc/compression.h", "    if (d.size () != output_bytes)", "    if (output_bytes != 0 && d.size () < output_bytes)")],
    "an expected size that is smaller than the real one", "Decompressing into a buffer that is too small gives the first bytes instead of an error.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<uint8_t> v (100, 7), w (50);
    const auto c = spoc::compression::compress (v);
    try { spoc::compression::decompress (c, &w[0], w.size ()); } catch (const std::exception &) { std::cout << "thrown"; }
}""")
expect(out == "thrown", "no exception")
''')

bug("c08-swap-version", "C08", [("spoc/file.h", "        std::swap (minor_version, f.minor_version);\n", "")],
    "assigning a file whose version numbers are not the library's", "Assignment and swap leave the minor version behind.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    spoc::file::spoc_file f (3, 9, "w", true), g;
    g = f;
    std::cout << g.get_major_version () << g.get_minor_version ();
}""")
expect(out == "39", out)
''')

bug("c08-aliased-move", "C08", [("spoc/file.h", "        // Move the point records\n        this->prs = std::move (prs);", "        // Move the point records\n        if (prs.empty ())\n            return;\n        this->prs = std::move (prs);")],
    "moving an empty vector of records into a file that has some", "Moving in no records leaves the old ones in place.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    using namespace spoc::point_record;
    spoc::file::spoc_file f ("", false, point_records (3));
    point_records p;
    f.move_point_records (p);
    std::cout << f.get_point_records ().size ();
}""")
expect(out == "0", out)
''')

bug("c10-bit-hash", "C10", [("spoc/utils.h", "    return (seed << 6) + (seed >> 2) + 0x9e3779b9 + std::hash<T>{}(v);",
     "    // Hash the bits: it is faster than std::hash<double>\n    size_t bits = 0;\n    const auto *p = reinterpret_cast<const unsigned char *> (&v);\n    for (size_t i = 0; i < sizeof(T); ++i)\n        bits |= static_cast<size_t> (p[i]) << (8 * i);\n    return (seed << 6) + (seed >> 2) + 0x9e3779b9 + std::hash<size_t>{}(bits);")],
    "two equal points of which one has a coordinate of -0.0 where the other has 0.0", "Equal values hash differently, so sets hold duplicates.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    using namespace spoc::point;
    std::unordered_set<point<double>,point_hash<double>> s;
    s.max_load_factor (0.01);
    for (int i = 0; i < 100; ++i) { s.insert ({0.0, double (i), 1}); s.insert ({-0.0, double (i), 1}); }
    std::cout << s.size ();
}""")
expect(out == "100", out)
''')

bug("c11-else-if", "C11", [("spoc/extent.h", "        minp.x = std::min (p.x, minp.x);\n", "        if (p.x < minp.x)\n            minp.x = p.x;\n        else if (p.x > maxp.x)\n            maxp.x = p.x;\n"),
                          ("spoc/extent.h", "        maxp.x = std::max (p.x, maxp.x);\n", ""),
                          ("spoc/extent.h", "    return extent {minp, maxp};\n}\n\n// All dimensions <=", "    // A single x\n    if (maxp.x < minp.x)\n        maxp.x = minp.x;\n    return extent {minp, maxp};\n}\n\n// All dimensions <=")],
    "a cloud whose greatest x is in its first record", "The maximum of x is missed, as the first point only sets the minimum.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p { {9, 1, 1}, {2, 5, 0}, {4, 2, 8} };
    const auto e = spoc::extent::get_extent (p);
    std::cout << e.minp.x << e.maxp.x;
}""")
expect(out == "29", out)
''')

bug("c13-32-bit", "C13", [("spoc/voxel.h", "    v.k = (p.z - minp.z) / res;", "    v.k = static_cast<uint32_t> ((p.z - minp.z) / res);")],
    "more than 2^32 voxels along z", "Voxel indexes beyond 32 bits wrap around.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    spoc::point::point<double> p {0, 0, 5e9}, m {0, 0, 0};
    std::cout << spoc::voxel::get_voxel_index (p, m, 1.0).k;
}""")
expect(out == "5000000000", out)
''')

bug("c14-reciprocal", "C14", [("spoc/voxel.h", "    v.i = (p.x - minp.x) / res;\n    v.j = (p.y - minp.y) / res;", "    const double scale = 1.0 / res;\n    v.i = (p.x - minp.x) * scale;\n    v.j = (p.y - minp.y) * scale;")],
    "a grid with a spacing such as 49, whose reciprocal is rounded down", "Points on voxel boundaries fall into the voxel before, so subsampling a grid at its own spacing loses points.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p;
    for (int i = 0; i < 60; ++i) p.push_back ({i * 49.0, 0, 0});
    std::cout << spoc::subsampling::get_subsample_indexes (p, 49.0, 0).size ();
}""")
expect(out == "60", out)
''')

bug("c14-static-rng", "C14", [("spoc/subsampling.h", "        // Yes, create rng\n        std::default_random_engine rng (random_seed);\n\n        // Randomize order\n        std::shuffle (indexes.begin (), indexes.end (), rng);\n    }\n\n    using namespace spoc::voxel;",
     "        // Yes, create rng\n        static std::default_random_engine rng (random_seed);\n\n        // Randomize order\n        std::shuffle (indexes.begin (), indexes.end (), rng);\n    }\n\n    using namespace spoc::voxel;")],
    "two calls with the same seed in one process", "The generator goes on where the last call stopped, so the same seed does not give the same result.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p;
    for (int i = 0; i < 200; ++i) p.push_back ({i * 0.1, 0, 0});
    const auto a = spoc::subsampling::get_subsample_indexes (p, 1.0, 5);
    const auto b = spoc::subsampling::get_subsample_indexes (p, 1.0, 5);
    std::cout << (a == b);
}""")
expect(out == "1", out)
''')

bug("c15-float-locations", "C15", [("spoc/subsampling.h", "    std::unordered_set<spoc::point::point<double>,spoc::point::point_hash<double>> xyzs;", "    std::unordered_set<spoc::point::point<float>,spoc::point::point_hash<float>> xyzs;"),
     ("spoc/subsampling.h", "        spoc::point::point<double> l {p.x, p.y, p.z};", "        spoc::point::point<float> l {static_cast<float> (p.x), static_cast<float> (p.y), static_cast<float> (p.z)};")],
    "locations that differ by less than single precision", "Distinct locations are taken for the same one, and points are lost.",
    '''
recs = [R(4500000.01, 1, 1, p=1), R(4500000.02, 1, 1, p=2)]
out = tool("spoc_filter", "--unique-xyz", path("a.spoc", plain(recs))).stdout
expect(out == plain(recs), "a distinct location was removed")
''')

bug("c16-open-ball", "C16", [("spoc/radius_search.h", "        if (distance <= radius)", "        if (distance * distance < radius * radius + 1e-12 * radius)")],
    "a neighbour at exactly the radius, for a radius of more than about a million, or a tiny radius", "The comparison is no longer the distance against the radius: for small radii it accepts points beyond it.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p { {0, 0, 0}, {1.2e-13, 0, 0} };
    size_t n = 0;
    spoc::radius_search::radius_search_all (p, 1e-13, [&] (size_t i, const std::vector<size_t> &v) { if (i == 0) n = v.size (); }, 100);
    std::cout << n;
}""")
expect(out == "1", out)
''')

bug("c17-rng-state", "C17", [("spoc/radius_search.h", "    std::minstd_rand rng;\n", "    static inline thread_local std::minstd_rand rng;\n"),
                            ("spoc/radius_search.h", "        rng.seed (total_points_left);", "        if (total_points_left > 64)\n            rng.discard (1);\n        else\n            rng.seed (total_points_left);")],
    "a second search in the same process, with a limit below the number of neighbours and more than 64 candidates", "Which neighbours are chosen depends on the searches made before.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p;
    for (int i = 0; i < 300; ++i) p.push_back ({i * 0.001, 0, 0});
    auto go = [&] { std::vector<std::vector<size_t>> r (p.size ()); spoc::radius_search::radius_search_all (p, 0.1, [&] (size_t i, const std::vector<size_t> &v) { r[i] = v; }, 5); return r; };
    const auto a = go (), b = go ();
    std::cout << (a == b);
}""")
expect(out == "1", out)
''')

bug("c18-float-angle", "C18", [("spoc/affine.h", "void rotate_x (T &p, const double degrees)", "void rotate_x (T &p, const float degrees)")],
    "an angle that is not representable in single precision", "Rotations about x are off by up to one part in ten million.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p { {0, 1e6, 0} };
    spoc::affine::rotate_x (p, 0.1);
    std::cout << (std::fabs (p[0].z - 1e6 * std::sin (0.1 * M_PI / 180)) < 1e-6);
}""")
expect(out == "1", out)
''')

bug("c20-flat-crop", "C20", [("spoc/utils.h", "            p.z < extent.minp.z ||\n", "            (p.z < extent.minp.z && extent.minp.z != extent.maxp.z) ||\n"),
                            ("spoc/utils.h", "            p.z > extent.maxp.z\n", "            (p.z > extent.maxp.z && extent.minp.z != extent.maxp.z)\n")],
    "an extent of zero height", "Cropping to a flat extent keeps points above and below it.",
    '''
out = cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> p { {1, 1, 0}, {1, 1, 5} };
    spoc::extent::extent e { {0, 0, 5}, {2, 2, 5} };
    std::cout << spoc::utils::crop (p, e).size ();
}""")
expect(out == "1", out)
''')

bug("c21-byte-classes", "C21", [("apps/filter/filter.h", "        // If it's in the set, keep it\n        if (c.find (p.c) != c.end ())", "        // If it's in the set, keep it\n        if (c.find (static_cast<uint8_t> (p.c)) != c.end ())")],
    "a classification of 256 or more", "Classes are compared by their low byte when keeping classes.",
    '''
recs = [R(1, 2, 3, c=2), R(4, 5, 6, c=258)]
out = tool("spoc_filter", "--keep-class=2", path("a.spoc", plain(recs))).stdout
expect(out == plain(recs[:1]), "wrong records kept")
''')

bug("c22-order", "C22", [("apps/filter/filter.cpp", "        if (args.subsample > 0.0)\n            f = subsample_file (f, args.subsample, args.random_seed);\n        if (!args.remove_coords.empty())\n            f = remove_coords(f, args.remove_coords);\n",
     "        if (!args.remove_coords.empty())\n            f = remove_coords(f, args.remove_coords);\n\n        if (args.subsample > 0.0)\n            f = subsample_file (f, args.subsample, args.random_seed);\n")],
    "remove-coords together with subsample, where the removed points determine the grid", "The filters run in another order.",
    '''
recs = [R(0, 0, 0), R(0.9, 0, 0, c=1), R(1.1, 0, 0, c=2), R(1.95, 0, 0, c=3)]
out = tool("spoc_filter", "--subsample=1", "--remove-coords=x < 0.5", path("a.spoc", plain(recs))).stdout
expect(out == plain([recs[2]]), "%r" % parse(out)[2])
''')

bug("c23-float-compare", "C23", [("apps/filter/filter.h", "        compare = [](const double v1, const double v2) {\n            return v1 < v2;", "        compare = [](const float v1, const float v2) {\n            return v1 < v2;")],
    "a coordinate that differs from the value by less than single precision", "Records just below the value are kept.",
    '''
recs = [R(500000.019, 0, 0), R(500000.02, 0, 0)]
out = tool("spoc_filter", "--remove-coords=x < 500000.02", path("a.spoc", plain(recs))).stdout
expect(out == plain([recs[1]]), "%r" % parse(out)[2])
''')

bug("c24-scale-zero", "C24", [("apps/transform/transform.h", "    OP op = [=] (PR p) { p.y *= v; return p; };", "    OP op = [=] (PR p) { if (v != 0.0) p.y *= v; return p; };")],
    "a scale factor of 0", "Flattening with scale-y=0 does nothing.",
    '''
recs = [R(1, 2, 3)]
out = tool("spoc_transform", "--scale-y=0", path("a.spoc", plain(recs))).stdout
expect(parse(out)[2][0].y == 0, "y kept")
''')

bug("c25-narrow-compare", "C25", [("apps/transform/transform.h", "                if (p.extra[j] == v1)\n                    p.extra[j] = v2;", "                if (static_cast<unsigned> (p.extra[j]) == v1)\n                    p.extra[j] = v2;")],
    "an extra field value of 2^32 or more with the same low 32 bits", "replace changes extra field values that are not equal to the given one.",
    '''
recs = [R(1, 2, 3, extra=[7]), R(1, 2, 3, extra=[7 + (1 << 32)])]
out = tool("spoc_transform", "--replace=e0,7,9", path("a.spoc", plain(recs))).stdout
expect([r.extra for r in parse(out)[2]] == [[9], [7 + (1 << 32)]], "%r" % parse(out)[2])
''')

bug("c25-narrow-copy", "C25", [("apps/transform/transform.h", "        size_t src = 0;", "        uint32_t src = 0;")],
    "copying an extra field with a value of 2^32 or more to another extra field", "The high half of the value is lost.",
    '''
recs = [R(1, 2, 3, extra=[5 + (9 << 40), 0])]
out = tool("spoc_transform", "--copy-field=e0,e1", path("a.spoc", plain(recs))).stdout
expect(parse(out)[2][0].extra == [5 + (9 << 40)] * 2, "%r" % parse(out)[2])
''')

bug("c26-short-seed", "C26", [("apps/transform/transform.h", "    std::default_random_engine rng (random_seed);\n\n    // Create the distributions\n    std::uniform_real_distribution<double> dx (-mag_x, mag_x);", "    std::default_random_engine rng (static_cast<uint16_t> (random_seed));\n\n    // Create the distributions\n    std::uniform_real_distribution<double> dx (-mag_x, mag_x);")],
    "two seeds that differ by a multiple of 65536", "They give the same noise.",
    '''
f = path("a.spoc", plain([R(1, 2, 3)] * 5))
a = tool("spoc_transform", "--uniform-noise=1", "--random-seed=5", f).stdout
b = tool("spoc_transform", "--uniform-noise=1", "--random-seed=%d" % (5 + 3 * 65536), f).stdout
expect(a != b, "same noise")
''')

bug("c27-double-integers", "C27", [("apps/tool/tool.h", "            field_ifs >> f_size_t[i];", "        {\n            double v = 0.0;\n            field_ifs >> v;\n            f_size_t[i] = static_cast<size_t> (v);\n        }")],
    "an extra field value of more than 2^53", "Large integers are rounded on their way through set-field.",
    '''
recs = [R(1, 2, 3, extra=[0])]
v = (1 << 53) + 1
out = tool("spoc_tool", "--set-field=e0", "--field-filename=" + path("v", b"%d\\n" % v), path("a.spoc", plain(recs))).stdout
expect(parse(out)[2][0].extra == [v], "%r" % parse(out)[2])
''')

bug("c28-float-mean", "C28", [("apps/tool/tool.h", "    double sz = 0.0;\n", "    float sz = 0.0;\n")],
    "z coordinates whose sum is not representable in single precision", "The mean of z after recentering is not zero.",
    '''
recs = [R(1, 2, 100.001 + k) for k in range(9)]
out = tool("spoc_tool", "--recenter-xyz", path("a.spoc", plain(recs))).stdout
expect(abs(sum(r.z for r in parse(out)[2])) < 1e-9, "mean of z")
''')

bug("c29-grow", "C29", [("spoc/file.h", "            p.extra.resize (extra_fields);", "        {\n            // Don't copy when a new buffer is needed\n            if (extra_fields > p.extra.size () + 1)\n                p.extra = std::vector<uint64_t> (extra_fields);\n            else\n                p.extra.resize (extra_fields);\n        }")],
    "growing a file that has extra fields with values", "The existing values are replaced by zeros.",
    '''
recs = [R(1, 2, 3, extra=[5, 6])]
out = tool("spoc_tool", "--resize-extra=4", path("a.spoc", plain(recs))).stdout
expect(parse(out)[2][0].extra == [5, 6, 0, 0], "%r" % parse(out)[2])
''')

bug("c30-first-wins", "C30", [("apps/tool/tool.h", "    for (size_t i = 0; i < vl.size (); ++i)\n", "    for (size_t i = vl.size (); i-- > 0; )\n")],
    "two low-resolution points of different classes in one voxel", "The first low-resolution point of a voxel wins, not the last.",
    '''
h = [R(0, 0, 0), R(0.5, 0, 0), R(9, 9, 9)]
l = [R(0.1, 0, 0, c=3), R(0.2, 0, 0, c=4)]
lo, hi = path("l.spoc", plain(l)), path("h.spoc", plain(h))
out = tool("spoc_tool", "--upsample-classifications=" + hi, "--resolution=1", lo).stdout
expect([r.c for r in parse(out)[2]] == [4, 4, 0], "%r" % parse(out)[2])
''')

bug("c32-first-only", "C32", [("apps/tile/tile.cpp", "            if (!args.force)\n", "            if (!args.force && tile == keys.front ())\n")],
    "an existing file at a tile that is not the first", "Only the first tile is checked, and the others overwrite what exists.",
    '''
recs = [R(0, 0, 0), R(2, 0, 0), R(0, 1, 0), R(1, 0, 0)]
o = path("t0001.spoc", b"precious")
r = tool("spoc_tile", "--tile-size=1", "--prefix=t", "--digits=4", path("a.spoc", plain(recs)), ok=False)
expect(r.returncode != 0 and read(o) == b"precious", "overwritten")
''')

bug("c33-last-flag", "C33", [("apps/merge/merge.cpp", "            if (f.get_compressed () == false)\n                g.set_compressed (false);", "            g.set_compressed (f.get_compressed ());")],
    "an uncompressed file that is not the last", "The output's compression follows the last input.",
    '''
r = [R(1, 2, 3)]
out = tool("spoc_merge", path("a.spoc", plain(r)), path("b.zpoc", packed(r))).stdout
expect(parse(out)[1] is False, "compressed")
''')

bug("c33-id-zero", "C33", [("apps/merge/merge.cpp", "args.point_id < 0 ? i : args.point_id;", "args.point_id <= 0 ? i : args.point_id;")],
    "--point-id=0", "The ID 0 is taken as not given.",
    '''
r = [R(1, 2, 3, p=7)]
out = tool("spoc_merge", "--point-id=0", path("a.spoc", plain(r)), path("b.spoc", plain(r))).stdout
expect([x.p for x in parse(out)[2]] == [0, 0], "ids")
''')

bug("c35-q3", "C35", [("apps/info/info.h", "        s[\"q3\"] = y[3 * n / 4];", "        s[\"q3\"] = y[n / 4 * 3];")],
    "JSON quartiles of a number of points that is not a multiple of 4", "The third quartile is taken from an earlier place.",
    '''
recs = [R(k, 2, 3) for k in range(7)]
out = tool("spoc_info", "--json", "--quartiles", path("a.spoc", plain(recs))).stdout.decode()
import re
m = re.search(r"'x' : \\{([^}]*)\\}", out)
q = re.search(r"'q3' : ([0-9.]+)", m.group(1)).group(1)
expect(float(q) == 5, "q3 = " + q)
''')

bug("c36-stdin-flag", "C36", [("apps/srs/srs.cpp", "                auto f = read_spoc_file (cin);\n\n                // Set SRS\n                f.set_wkt (args.srs);\n", "                auto f = read_spoc_file (cin);\n\n                // Set SRS\n                f = spoc_file (args.srs, false, f.get_point_records ());\n")],
    "setting the WKT of a compressed file on standard input", "The output is uncompressed.",
    '''
out = tool("spoc_srs", "--srs=new", stdin=packed([R(1, 2, 3)], "old")).stdout
w, c, r = parse(out)
expect(w == b"new" and c, "not compressed any more")
''')

bug("c38-append", "C38", [("spoc/app_utils.h", "            ofs.open (fn);\n", "            ofs.open (fn, std::ios::app);\n")],
    "a named output that exists already", "The output is appended to the existing file instead of replacing it.",
    '''
f = path("a.spoc", plain([R(1, 2, 3)]))
o = path("o.spoc", b"old contents")
tool("spoc_transform", "--add-x=0", f, o)
expect(read(o) == read(f), "old contents are still there")
''')

bug("c39-float-value", "C39", [("spoc/app_utils.h", "    try { v = std::stod (s, &sz); }", "    try { v = std::stof (s, &sz); }")],
    "a number with more than 7 digits", "Numbers on the command line are rounded to single precision.",
    '''
out = tool("spoc_transform", "--add-x=500000.01", path("a.spoc", plain([R(0, 2, 3)]))).stdout
expect(parse(out)[2][0].x == 500000.01, "%r" % parse(out)[2][0].x)
''')

bug("c40-header-extras", "C40", [("spocpy/spocpy/spocpy.cpp", "    // Read the header and return it\n    return spoc::header::read_header (ifs);", "    // Read the header and return it\n    return spoc::io::read_spoc_file (ifs).get_header ();")],
    "the header of a file with extra fields but without points, or of a file whose records are incomplete", "readheader() reports what could be rebuilt from the records, not what the header says.",
    '''
f = path("a.spoc", header("w", 3, 0, 0))
r = subprocess.run(["/usr/bin/python3", "-B", "-c", "import spocpy; print(spocpy.readheader(%r).extra_fields)" % f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                   env=dict(os.environ, PYTHONPATH=os.path.join(REPO, "_build/py/lib")), cwd=SCRATCH)
expect(r.stdout.strip() == "3", r.stdout)
''')

bug("c41-lookahead", "C41", [("apps/transform/transform.h", "    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n        // Read a point\n        auto p = spoc::point_record::read_point_record (is, h.extra_fields);\n",
      "    // Make sure that there are points\n    if (h.total_points == 0)\n        return;\n    auto next = spoc::point_record::read_point_record (is, h.extra_fields);\n\n    // Process the points\n    for (size_t i = 0; i < h.total_points; ++i)\n    {\n        // Get a point\n        auto p = next;\n\n        // Read the one after it\n        if (i + 1 < h.total_points)\n            next = spoc::point_record::read_point_record (is, h.extra_fields);\n")],
    "an input that pauses after a record", "Each record is held back until the next one has been read.",
    '''
recs = [R(k, 2, 3) for k in range(3)]
d = plain(recs)
n = len(header("", 0, 3, 0))
p = subprocess.Popen([os.path.join(REPO, "_build/release/spoc_transform"), "--add-x=1"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write(d[:n + 40])
p.stdin.flush()
import select
got = b""
while len(got) < n + 40:
    if not select.select([p.stdout], [], [], 5)[0]:
        break
    b = os.read(p.stdout.fileno(), 4096)
    if not b:
        break
    got += b
p.stdin.close()
p.wait()
expect(len(got) >= n + 40, "only %d bytes before the next record" % len(got))
''')

