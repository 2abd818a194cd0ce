BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


TIMED = '''
cpp(\"\"\"
#include "spoc/spoc.h"
#include "spoc/subsampling.h"
#include "spoc/radius_search.h"
#include <omp.h>
#include <time.h>
static double cpu () { timespec t; clock_gettime (CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
using records = spoc::point_record::point_records;
using record = spoc::point_record::point_record;
static size_t work (size_t n);
int main () {
    omp_set_num_threads (1);
    work (1000);
    double a = cpu (); work (12500); a = cpu () - a;
    double best = 1e300;
    for (int k = 0; k < 3 && best > 70 * a; ++k) { double b = cpu (); work (200000); b = cpu () - b; best = b < best ? b : best; }
    printf (\"%%g s and %%g s\\\\n\", a, best);
    return best > 70 * a + 0.2;
}
%s
\"\"\")
'''
RARE = '''
cpp(\"\"\"
#include <cstdlib>
#include <new>
static long left = -1;
void *operator new (size_t n) { if (left > 0 && --left == 0) throw std::bad_alloc (); void *p = malloc (n); if (!p) throw std::bad_alloc (); return p; }
void operator delete (void *p) noexcept { free (p); }
void operator delete (void *p, size_t) noexcept { free (p); }
#include "spoc/spoc.h"
#include "spoc/compression.h"
#include <malloc.h>
using spoc::file::spoc_file;
using record = spoc::point_record::point_record;
%s
\"\"\")
'''

bug("c48-push-check", "C48", [("spoc/file.h", "        if (!prs.empty () && pr.extra.size () != prs[0].extra.size ())", "        if (!all_same_size_extra (prs) || (!prs.empty () && pr.extra.size () != prs[0].extra.size ()))")],
    "files that are built record by record, from ten thousand records on", "Adding a record looks at all records before it, and building a file takes quadratic time.",
    TIMED % '''
static size_t work (size_t n) { spoc::file::spoc_file f (\"\", false); record r; for (size_t k = 0; k < n; ++k) f.push_back (r); return f.get_point_records ().size (); }
''')

bug("c48-shrink-each", "C48", [("spoc/voxel.h", "        vim[v].push_back (i);\n    }\n    // Free unused memory\n    for (auto &v : vim)\n        v.second.shrink_to_fit ();", "        auto &indexes = vim[v];\n        indexes.push_back (i);\n        // Free unused memory\n        indexes.shrink_to_fit ();\n    }")],
    "many points in the same voxel", "Every point of a voxel copies the indexes of those before it.",
    TIMED % '''
static size_t work (size_t n) { static std::vector<spoc::voxel::voxel_index> v; v.resize (n); return spoc::voxel::get_voxel_index_map (v).size (); }
''')

bug("c48-column-hash", "C48", [("spoc/voxel.h", "        size_t hash = (v.i << 0) ^ (v.j << 16) ^ (v.k << 32);\n        return hash;", "        // Points are spread over the ground\n        size_t hash = (v.i << 0) ^ (v.j << 16);\n        return hash;")],
    "a cloud that is a tall column", "All voxels of a column have the same hash, and finding one takes as long as there are voxels.",
    TIMED % '''
static size_t work (size_t n) { std::vector<spoc::point::point<double>> p (n); for (size_t k = 0; k < n; ++k) p[k].z = k; return spoc::subsampling::get_subsample_indexes (p, 1, 0).size (); }
''')

bug("c48-sum-hash", "C48", [("spoc/voxel.h", "        size_t hash = (v.i << 0) ^ (v.j << 16) ^ (v.k << 32);\n        return hash;", "        size_t hash = v.i ^ v.j ^ v.k;\n        return hash;")],
    "a cloud with very many voxels", "The hashes of a block of voxels take few different values.",
    TIMED % '''
static size_t work (size_t n) { std::vector<spoc::point::point<double>> p (n); for (size_t k = 0; k < n; ++k) p[k].x = p[k].y = k; return spoc::subsampling::get_subsample_indexes (p, 1, 0).size (); }
''')

bug("c48-merge-copy", "C48", [("apps/merge/merge.h", "        // Set its ID\n        p.p = id;", "        // Set its ID\n        p.p = id;\n\n        // The extra fields must agree\n        const auto prs = f2.get_point_records ();\n        if (!prs.empty () && prs[0].extra.size () != p.extra.size ())\n            throw std::runtime_error (\"The number of extra fields is incorrect\");")],
    "merging files of thousands of points", "Every appended point copies all those before it.",
    TIMED.replace('#include "spoc/radius_search.h"', '#include "apps/merge/merge.h"') % '''
static size_t work (size_t n) { n /= 8; spoc::file::spoc_file g (\"\", false), f (\"\", false, records (n)); spoc::merge_app::append (f, g, 1, true); return g.get_point_records ().size (); }
''')

bug("c49-index-end", "C49", [("spoc/file.h", "        REQUIRE (i < prs.size ());", "        REQUIRE (i <= prs.size ());")],
    "a record set at the index just past the last one", "The breach is not reported, and memory behind the records is overwritten.",
    '''
cpp(\"\"\"
#undef NDEBUG
#include "spoc/spoc.h"
int main () {
    spoc::file::spoc_file f (\"\", false); std::vector<spoc::point_record::point_record> v; v.reserve (8); v.resize (3);
    f.move_point_records (v);
    try { f.set_point_record (3, spoc::point_record::point_record (1, 2, 3)); } catch (const std::runtime_error &) { return 0; }
    return 1;
}
\"\"\")
''')

bug("c49-timer-restart", "C49", [("spoc/benchmark_utils.h", "        t1 = std::chrono::system_clock::now ();\n        running = true;", "        if (!running)\n            t1 = std::chrono::system_clock::now ();\n        running = true;")],
    "a timer that is started while it runs", "It goes on from its first start.",
    '''
cpp(\"\"\"
#include "spoc/benchmark_utils.h"
int main () {
    spoc::benchmark_utils::timer t;
    std::this_thread::sleep_for (std::chrono::milliseconds (300));
    t.start ();
    auto a = std::chrono::system_clock::now (); const double e = t.elapsed_ms ();
    return e > 250 && std::chrono::system_clock::now () - a < std::chrono::milliseconds (200);
}
\"\"\")
''')

bug("c49-resolution-zero", "C49", [("apps/tool/tool.h", "    REQUIRE (resolution > 0.0);", "    REQUIRE (!(resolution < 0.0));")],
    "upsampling with a resolution of zero or NaN in a debug build", "The breach is not reported.",
    '''
cpp(\"\"\"
#undef NDEBUG
#include "apps/tool/tool.h"
#include <sstream>
int main () {
    std::vector<spoc::point_record::point_record> v (2); v[1].x = 1;
    spoc::file::spoc_file f (\"\", false, v); std::stringstream l;
    try { spoc::tool_app::upsample_classifications (f, f, 0.0, false, l); } catch (const std::runtime_error &) { return 0; }
    return 1;
}
\"\"\")
''')

bug("c50-assign-parts", "C50", [("spoc/file.h", "            spoc_file tmp (rhs);\n            swap (tmp);", "            major_version = rhs.major_version;\n            minor_version = rhs.minor_version;\n            wkt = rhs.wkt;\n            compressed = rhs.compressed;\n            prs = rhs.prs;")],
    "memory that runs out while a file is assigned", "The file is left with the WKT of the other and its own records, or records of both.",
    RARE % '''
int main () {
    for (long k = 1; k < 20; ++k) {
        spoc_file a (std::string (50, 'a'), false, std::vector<record> (4)), b (std::string (500, 'b'), false, std::vector<record> (7, record (1, 2, 3, 4, 5, 6, 7, 8, 9, {1, 2, 3})));
        left = k; bool t = false; try { a = b; } catch (const std::bad_alloc &) { t = true; } left = -1;
        if (!t) break;
        if (a.get_wkt ()[0] != 'a' || a.get_point_records ().size () != 4 || a.get_extra_fields () != 0) return 1;
    }
    return 0;
}
''')

bug("c50-move-first", "C50", [("spoc/file.h", "        // Check for consistency\n        if (!all_same_size_extra (prs))\n            throw std::runtime_error (\"The point record extra fields have inconsistent sizes\");\n\n        // Move the point records\n        this->prs = std::move (prs);", "        // Move the point records\n        this->prs = std::move (prs);\n\n        // Check for consistency\n        if (!is_valid ())\n            throw std::runtime_error (\"The point record extra fields have inconsistent sizes\");")],
    "records of different sizes that are moved into a file", "They are refused, but the file has them and its own are gone.",
    RARE % '''
int main () {
    spoc_file a (\"\", false, std::vector<record> (4)); std::vector<record> v (2); v[1].extra.push_back (1);
    try { a.move_point_records (v); return 2; } catch (const std::runtime_error &) {}
    return v.size () != 2 || a.get_point_records ().size () != 4;
}
''')

bug("c50-no-guard", "C50", [("spoc/compression.h", "        const auto ret = deflateInit (&s, level);", "        s.state = Z_NULL;\n        const auto ret = deflateInit (&s, level);"), ("spoc/compression.h", "    ~zlib_deflator ()\n    {\n        deflateEnd (&s);\n    }", "    ~zlib_deflator ()\n    {\n        // Only when it is finished\n        if (s.avail_in == 0 && s.avail_out != 0)\n            deflateEnd (&s);\n    }")],
    "memory that runs out while the output of a compression is saved, with input left", "The memory of the compressor is not given back.",
    RARE % '''
int main () {
    std::vector<uint8_t> raw (6 << 20); unsigned s = 1; for (auto &x : raw) x = uint8_t ((s = s * 1664525 + 1013904223) >> 24);
    auto run = [&] (long k) { left = k; try { spoc::compression::compress (raw, 1); } catch (const std::bad_alloc &) {} left = -1; };
    run (3); run (4);
    const auto a = mallinfo2 ().uordblks + mallinfo2 ().hblkhd;
    for (int k = 0; k < 20; ++k) run (3 + k % 3);
    const auto b = mallinfo2 ().uordblks + mallinfo2 ().hblkhd;
    return b > a + 1000000;
}
''')
