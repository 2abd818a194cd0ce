// C50: an operation that runs out of memory, or is refused, leaves everything as it was
#include <cstdlib>
#include <malloc.h>
#include <new>

// ---- memory that runs out ----
//
// While armed, the allocation whose turn it is fails, once
static bool counting, with_malloc, in_new;
static unsigned long allocations, fail_at;
static bool failed;
static long live;
static volatile size_t sunk;

static bool turn ()
{
    if (!counting) return false;
    ++allocations;
    if (allocations != fail_at) return false;
    failed = true;
    return true;
}
#ifdef __SANITIZE_ADDRESS__
#define HOOK_MALLOC 0
#else
#define HOOK_MALLOC 1
extern "C" void *__libc_malloc (size_t);
extern "C" void *__libc_calloc (size_t, size_t);
extern "C" void *__libc_realloc (void *, size_t);
extern "C" void __libc_free (void *);
extern "C" void *malloc (size_t n)
{
    if (counting && with_malloc && !in_new && turn ()) return nullptr;
    void *p = __libc_malloc (n);
    if (counting && p) ++live;
    return p;
}
extern "C" void *calloc (size_t n, size_t m)
{
    if (counting && with_malloc && !in_new && turn ()) return nullptr;
    void *p = __libc_calloc (n, m);
    if (counting && p) ++live;
    return p;
}
extern "C" void *realloc (void *q, size_t n)
{
    if (counting && !q) ++live;
    return __libc_realloc (q, n);
}
extern "C" void free (void *p)
{
    if (counting && p) --live;
    __libc_free (p);
}
#endif
static void *take (size_t n)
{
    if (turn ()) return nullptr;
    in_new = true;
    void *p = malloc (n ? n : 1);
    in_new = false;
#if !HOOK_MALLOC
    if (counting && p) ++live;
#endif
    return p;
}
static void give (void *p)
{
#if !HOOK_MALLOC
    if (counting && p) --live;
#endif
    free (p);
}
void *operator new (size_t n) { void *p = take (n); if (!p) throw std::bad_alloc (); return p; }
void *operator new[] (size_t n) { void *p = take (n); if (!p) throw std::bad_alloc (); return p; }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return take (n); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return take (n); }
void operator delete (void *p) noexcept { give (p); }
void operator delete[] (void *p) noexcept { give (p); }
void operator delete (void *p, size_t) noexcept { give (p); }
void operator delete[] (void *p, size_t) noexcept { give (p); }
void operator delete (void *p, const std::nothrow_t &) noexcept { give (p); }
void operator delete[] (void *p, const std::nothrow_t &) noexcept { give (p); }

#include "geom.h"
#include "lib.h"
#include <omp.h>
#include "spoc/affine.h"
#include "spoc/compression.h"
#include "spoc/extent.h"
#include "spoc/json.h"
#include "spoc/subsampling.h"
#include "spoc/voxel.h"
#include "diff.h"
#include "filter.h"
#include "info.h"
#include "merge.h"
#include "tile.h"
#include "tool.h"
#include "transform.h"
using namespace geom;
using spoc::file::spoc_file;
using spoc::point_record::point_records;
struct command { std::string name, params; };

// How a run ended
struct ending { bool thrown = false; std::string what; bool failed = false; unsigned long allocations = 0; long live = 0; };
template <typename F> static ending run (const F &f, unsigned long at, bool zlib = false)
{
    ending e;
    allocations = 0; live = 0; ::failed = false; fail_at = at; with_malloc = zlib; in_new = false;
    const char *t = nullptr;
    char text[200] = { 0 };
    counting = true;
    try { f (); }
    catch (const std::exception &x) { t = text; strncpy (text, x.what (), sizeof text - 1); }
    counting = false;
    e.thrown = t; e.failed = ::failed; e.allocations = allocations; e.live = live;
    if (t) e.what = t;
    return e;
}

static std::vector<rec> gen_records (pbt::Bulk &b, size_t n, unsigned extras)
{
    std::vector<rec> v (n);
    for (auto &r : v)
    {
        r.x = double (b.below (9)) + b.unit () / 2; r.y = double (b.below (9)); r.z = b.unit () * 9;
        r.c = uint32_t (b.below (6)); r.p = uint32_t (b.next ()); r.i = uint16_t (b.next ()); r.r = uint16_t (b.below (300)); r.g = 1; r.b = 2;
        for (unsigned k = 0; k < extras; ++k) r.e.push_back (b.below (3) ? b.below (100) : b.next ());
    }
    return v;
}
static std::string gen_wkt (pbt::Bulk &b) { return std::string (b.below (3) ? b.below (60) : 0, char ('a' + b.below (26))); }
static bool as (const spoc_file &f, const cloud &c)
{
    const auto &p = f.get_point_records ();
    if (f.get_wkt () != c.wkt || f.get_compressed () != c.compressed || p.size () != c.r.size ()) return false;
    for (size_t k = 0; k < p.size (); ++k) if (!same (from_pr (p[k]), c.r[k])) return false;
    return true;
}

// ---- files that change ----
PROP (files, 120000, "an allocation fails, or the operation is refused, with records in the file")
{
    auto b = s.sub ();
    cloud c;
    c.wkt = gen_wkt (b);
    c.compressed = b.below (2);
    unsigned extras = unsigned (b.below (4));
    c.r = gen_records (b, s.range (0, 8), extras);
    spoc_file f = to_file (c);
    for (uint64_t steps = s.range (1, 6); steps; --steps)
    {
        const size_t n = c.r.size ();
        if (!n) extras = unsigned (b.below (4));
        const unsigned op = unsigned (s.draw (9));
        static const char *const names[] = { "push_back", "set_wkt", "set_point_records", "resize_extra_fields", "assignment", "move_point_records", "set_point_record", "copy", "append" };
        cloud want = c, arg;
        const bool bad = b.below (6) == 0;   // refused, when it can be
        bool refused = false;
        arg.wkt = gen_wkt (b);
        arg.compressed = b.below (2);
        const unsigned x = bad ? unsigned (b.below (5)) : extras;
        arg.r = gen_records (b, b.below (12), op == 8 ? x : unsigned (b.below (4)));
        if (bad && arg.r.size () > 1 && (op == 2 || op == 5)) { arg.r.back ().e.push_back (1); refused = true; }
        rec one = gen_records (b, 1, x)[0];
        const size_t at = n ? b.below (n) : 0;
        if (op == 6 && !n) continue;
        if (op == 0 || op == 6) refused = n && x != extras;
        if (op == 8) refused = n && !arg.r.empty () && x != extras;
        if (op == 4 || op == 8) for (auto &r : arg.r) if (r.e.size () != arg.r[0].e.size ()) r.e.resize (arg.r[0].e.size ());
        const size_t size = b.below (bad ? 200 : 6);
        const spoc_file other = op == 4 || op == 8 ? to_file (arg) : spoc_file ();
        const auto q = to_pr (one);
        const auto qs = to_prs (arg.r);
        auto qm = to_prs (arg.r);
        std::unique_ptr<spoc_file> copy;
        auto act = [&] {
            switch (op)
            {
                case 0: f.push_back (q); break;
                case 1: f.set_wkt (arg.wkt); break;
                case 2: f.set_point_records (qs); break;
                case 3: f.resize_extra_fields (size); break;
                case 4: f = other; break;
                case 5: f.move_point_records (qm); break;
                case 6: f.set_point_record (at, q); break;
                case 7: { spoc_file g (f); sunk = g.get_header ().total_points + f.clone_empty ().get_wkt ().size (); break; }
                default: spoc::merge_app::append (other, f, 77, true);
            }
        };
        switch (op)
        {
            case 0: want.r.push_back (one); break;
            case 1: want.wkt = arg.wkt; break;
            case 2: case 5: want.r = arg.r; break;
            case 3: for (auto &r : want.r) r.e.resize (size); break;
            case 4: want = arg; break;
            case 6: want.r[at] = one; break;
            case 7: break;
            default: for (auto r : arg.r) { r.p = 77; want.r.push_back (r); }
        }
        std::ostringstream what;
        what << names[op] << " on " << n << " records with " << extras << " extra fields";
        NOTE (s, what.str () << (refused ? ", refused" : ""));
        if (refused)
        {
            const auto e = run (act, 0);
            CHECK_MSG (e.thrown, what.str () << " is not refused");
            CHECK_MSG (as (f, c), what.str () << " is refused, and changes the file");
            for (size_t k = 0; k < arg.r.size () && op == 5; ++k) CHECK_MSG (qm.size () == arg.r.size () && same (from_pr (qm[k]), arg.r[k]), what.str () << " is refused, and changes its argument");
            if (n) s.nontrivial ();
            continue;
        }
        // at one allocation after the other, until none fails
        for (unsigned long k = 1; k < 400; ++k)
        {
            const auto e = run (act, k);
            if (!e.failed) { CHECK_MSG (!e.thrown, what.str () << " throws: " << e.what); break; }
            if (n) s.nontrivial ();
            CHECK_MSG (e.thrown, what.str () << " does not report that memory ran out at allocation " << k);
            if (op == 8)
            {
                // appends one record after the other
                auto part = c;
                for (auto r : arg.r) { if (as (f, part)) break; r.p = 77; part.r.push_back (r); }
                CHECK_MSG (as (f, part), what.str () << " leaves something else than the file with the first of the records, when memory runs out at allocation " << k);
                f = to_file (c);
                continue;
            }
            CHECK_MSG (as (f, c), what.str () << " changes the file although memory runs out at allocation " << k);
            CHECK_MSG (f.is_valid (), what.str () << " leaves an invalid file when memory runs out at allocation " << k);
            for (size_t j = 0; j < arg.r.size () && op == 5; ++j) CHECK_MSG (qm.size () == arg.r.size () && same (from_pr (qm[j]), arg.r[j]), what.str () << " fails, and changes its argument");
        }
        CHECK_MSG (as (f, want), what.str () << " has another result after memory ran out");
        c = want;
        extras = c.r.empty () ? 0 : unsigned (c.r[0].e.size ());
    }
}

// ---- operations that make something new ----
struct world
{
    Ps p;
    spoc_file f, g;
    std::string plain, packed, text;
    std::vector<uint8_t> raw, deflated;
    double res;
    uint64_t seed;
    unsigned extras;
};
static std::string out (const spoc_file &f) { cloud c; c.wkt = f.get_wkt (); c.compressed = false; for (const auto &q : f.get_point_records ()) c.r.push_back (from_pr (q)); return encode (c); }
struct operation
{
    const char *name;
    // its memory streams swallow that memory runs out, and are bad from then on
    bool streams, zlib;
    std::function<void (const world &, std::function<std::string ()> &)> run;
};
// The result is written out later, while no memory is counted
#define RESULT(T, expr, text) auto v = std::make_shared<T> (expr); r = [v] { const T &x = *v; return std::string (text); };
static std::string list (const std::vector<size_t> &v) { std::string t; for (auto k : v) t += std::to_string (k) + ' '; return t; }
static const std::vector<operation> &operations ()
{
    using namespace spoc;
    using R = std::function<std::string ()>;
    static const std::vector<operation> o = {
        { "subsample", false, false, [] (const world &w, R &r) { RESULT (std::vector<size_t>, subsampling::get_subsample_indexes (w.p, w.res, w.seed), list (x)) } },
        { "unique", false, false, [] (const world &w, R &r) { RESULT (std::vector<size_t>, subsampling::get_unique_xyz_indexes (w.p, w.seed), list (x)) } },
        { "voxels", false, false, [] (const world &w, R &r) {
            const auto i = voxel::get_voxel_indexes (w.p, w.res);
            const auto m = voxel::get_voxel_index_map (i);
            RESULT (std::vector<size_t>, std::vector<size_t> ({ voxel::get_voxel_index_set (i).size (), m.size () }), list (x)) } },
        { "keep classes", false, false, [] (const world &w, R &r) { RESULT (spoc_file, filter_app::keep_classes (w.f, std::unordered_set<int> { 1, 2 }), out (x)) } },
        { "remove classes", false, false, [] (const world &w, R &r) { RESULT (spoc_file, filter_app::remove_classes (w.f, std::unordered_set<int> { 1, 2 }), out (x)) } },
        { "filter unique", false, false, [] (const world &w, R &r) { RESULT (spoc_file, filter_app::unique_xyz (w.f, w.seed), out (x)) } },
        { "filter subsample", false, false, [] (const world &w, R &r) { RESULT (spoc_file, filter_app::subsample_file (w.f, w.res, w.seed), out (x)) } },
        { "remove coords", true, false, [] (const world &w, R &r) { RESULT (spoc_file, filter_app::remove_coords (w.f, "z > 3.5"), out (x)) } },
        { "tiles", false, false, [] (const world &w, R &r) { const auto e = extent::get_extent (w.p); RESULT (std::vector<size_t>, std::vector<size_t> ({ tile_app::get_tile_map (tile_app::get_tile_indexes (w.p, e, w.res, w.res)).size () }), list (x)) } },
        { "resize extra", false, false, [] (const world &w, R &r) { RESULT (spoc_file, tool_app::resize_extra (w.f, int (w.seed % 7)), out (x)) } },
        { "recenter", false, false, [] (const world &w, R &r) { RESULT (spoc_file, tool_app::recenter (w.f, w.seed & 1), out (x)) } },
        { "subtract minimum", false, false, [] (const world &w, R &r) { RESULT (spoc_file, tool_app::subtract_min (w.f, w.seed & 1), out (x)) } },
        { "set field", true, false, [] (const world &w, R &r) { std::istringstream i (w.text); RESULT (spoc_file, tool_app::set_field (w.f, i, w.extras ? "e0" : "c"), out (x)) } },
        { "upsample", true, false, [] (const world &w, R &r) { std::ostringstream l; RESULT (spoc_file, tool_app::upsample_classifications (w.g, w.f, w.res, false, l), out (x)) } },
        { "deflate", false, true, [] (const world &w, R &r) { RESULT (std::vector<uint8_t>, compression::compress (w.raw, int (w.seed % 10)), std::string (x.begin (), x.end ())) } },
        { "inflate", false, true, [] (const world &w, R &r) { RESULT (std::vector<uint8_t>, compression::decompress (w.deflated), std::string (x.begin (), x.end ())) } },
        { "deflate a stream", true, true, [] (const world &w, R &r) { std::istringstream i (w.plain); std::ostringstream o; compression::compress (i, o, 1); RESULT (std::string, o.str (), x) } },
        { "inflate a stream", true, true, [] (const world &w, R &r) { std::istringstream i (std::string (w.deflated.begin (), w.deflated.end ())); std::ostringstream o; compression::decompress (i, o); RESULT (std::string, o.str (), x) } },
        { "read", true, false, [] (const world &w, R &r) { std::istringstream i (w.plain); RESULT (spoc_file, io::read_spoc_file (i), out (x)) } },
        { "read compressed", true, false, [] (const world &w, R &r) { if (w.extras) return; std::istringstream i (w.packed); RESULT (spoc_file, io::read_spoc_file (i), out (x)) } },
        { "write", true, false, [] (const world &w, R &r) { std::ostringstream o; io::write_spoc_file_uncompressed (o, w.f); RESULT (std::string, o.str (), x) } },
        { "transform", true, false, [] (const world &w, R &r) {
            const std::vector<command> c = { { "add-x", "1" }, { "set", "c,3" }, { "replace", "p,1,2" }, { "gaussian-noise", "1" } };
            std::istringstream i (w.plain); std::ostringstream o; transform_app::apply (i, o, c, w.seed + 1); RESULT (std::string, o.str (), x) } },
        { "info", true, false, [] (const world &w, R &r) { std::ostringstream o; info_app::process (o, w.f, w.seed & 1, true, true, true, true, w.seed & 2, true); RESULT (std::string, o.str (), x) } },
        { "diff", true, false, [] (const world &w, R &r) { RESULT (std::string, diff_app::diff (w.f, w.g, false, false, {}, false) ? "1" : "0", x) } },
        { "get field", true, false, [] (const world &w, R &r) { std::ostringstream o; tool_app::get_field (w.f, o, w.extras ? "e0" : "x"); RESULT (std::string, o.str (), x) } },
        { "columns", false, false, [] (const world &w, R &r) { const auto a = w.f.get_x (); const auto b = w.f.get_c (); RESULT (std::vector<uint32_t>, b, std::to_string (x.size ()) + (x.empty () ? "" : std::to_string (x.back ()))) } },
        { "crop and encode", false, false, [] (const world &w, R &r) { const auto e = extent::get_extent (w.p); RESULT (std::vector<uint8_t>, point::encode_points (utils::crop (w.p, e)), std::string (x.begin (), x.end ())) } },
        { "rescale", false, false, [] (const world &w, R &r) { RESULT (Ps, extent::restore (extent::rescale (w.p, extent::get_extent (w.p)), extent::get_extent (w.p)), list ({ x.size () })) } },
    };
    return o;
}

PROP (results, 12000, "memory runs out within the operation and there is a record")
{
    omp_set_num_threads (1);
    auto b = s.sub ();
    world w;
    w.extras = unsigned (s.draw (4));
    const auto v = gen_records (b, s.range (1, 12), w.extras);
    for (const auto &r : v) w.p.push_back (mk (r.x, r.y, r.z));
    w.f = spoc_file ("wkt", false, to_prs (v));
    auto u = v;
    if (b.below (2)) u[b.below (u.size ())].c += 1;
    w.g = spoc_file ("wkt", false, to_prs (u));
    w.plain = lib::write (w.f);
    w.packed = lib::write (spoc_file ("wkt", true, to_prs (v)));
    for (size_t k = 0; k < v.size (); ++k) w.text += std::to_string (b.below (1000)) + "\n";
    w.raw.assign (w.plain.begin (), w.plain.end ());
    w.deflated = spoc::compression::compress (w.raw, 6);
    w.res = b.below (2) ? 1 : 4;
    w.seed = b.below (100);
    const auto before = out (w.f), before2 = out (w.g);
    const auto &o = operations ()[s.draw (operations ().size ())];
    NOTE (s, o.name << " of " << v.size () << " records with " << w.extras << " extra fields");
    s.label (o.name);
    // what it gives, and how many allocations it makes
    std::function<std::string ()> r;
    auto act = [&] { r = nullptr; o.run (w, r); };
    auto e = run (act, 0, o.zlib);
    CHECK_MSG (!e.thrown, o.name << " throws: " << e.what);
    if (!r) s.discard ();
    const std::string want = r ();
    const unsigned long total = e.allocations;
    r = nullptr;
    for (unsigned turns = 0; turns < 6; ++turns)
    {
        const unsigned long at = 1 + s.draw (total);
        e = run (act, at, o.zlib);
        if (e.failed) s.nontrivial ();
        if (e.thrown)
        {
            CHECK_MSG (e.failed, o.name << " throws: " << e.what);
            CHECK_MSG (e.live <= 0, o.name << " keeps " << e.live << " blocks of memory after memory ran out at allocation " << at << " of " << total);
        }
        else if (r && !o.streams) CHECK_MSG (r () == want, o.name << " gives another result when memory runs out at allocation " << at << " of " << total);
        r = nullptr;
        CHECK_MSG (out (w.f) == before && out (w.g) == before2, o.name << " changes what it works on when memory runs out at allocation " << at << " of " << total);
    }
    e = run (act, 0, o.zlib);
    CHECK_MSG (!e.thrown && r () == want, o.name << " gives another result after memory ran out");
}

PBT_MAIN
