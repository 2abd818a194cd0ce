// C08: a spoc_file stays consistent through any history of operations
#include "lib.h"
using namespace lib;

static std::vector<rec> gen_some (pbt::Source &s, unsigned max_n, unsigned max_e)
{
    gen_opts o;
    const unsigned n = s.range (0, max_n);
    return gen_records (s, n, s.range (0, max_e), o);
}

// Contents, with the version numbers that the constructor takes
struct state : cloud
{
    unsigned major = 0, minor = 1;
};

// Everything the object shows, against the model
static void observe (const spoc::file::spoc_file &f, const state &m, const std::string &what)
{
    CHECK_MSG (f.is_valid (), what << ": is_valid is false");
    CHECK_MSG (f.get_major_version () == m.major && f.get_minor_version () == m.minor, what << ": the version is " << f.get_major_version () << "." << f.get_minor_version () << ", expected " << m.major << "." << m.minor);
    check_same (from_file (f), m, what);
    CHECK_MSG (f.get_extra_fields () == m.extras (), what << ": get_extra_fields is " << f.get_extra_fields () << ", expected " << m.extras ());
    for (size_t k = 0; k < m.r.size (); ++k)
        CHECK_MSG (same (from_pr (f.get_point_record (k)), m.r[k]), what << ": get_point_record(" << k << ") differs");
    const auto x = f.get_x (), y = f.get_y (), z = f.get_z ();
    const auto c = f.get_c (), p = f.get_p ();
    const auto i = f.get_i (), r = f.get_r (), g = f.get_g (), b = f.get_b ();
    const size_t n = m.r.size ();
    CHECK (x.size () == n && y.size () == n && z.size () == n && c.size () == n && p.size () == n && i.size () == n && r.size () == n && g.size () == n && b.size () == n);
    for (size_t k = 0; k < n; ++k)
    {
        rec q;
        q.x = x[k]; q.y = y[k]; q.z = z[k]; q.c = c[k]; q.p = p[k]; q.i = i[k]; q.r = r[k]; q.g = g[k]; q.b = b[k];
        q.e = m.r[k].e;
        CHECK_MSG (same (q, m.r[k]), what << ": the columns give record " << k << " as " << q << ", expected " << m.r[k]);
    }
    for (unsigned j = 0; j < m.extras (); ++j)
    {
        const auto e = f.get_extra (j);
        CHECK (e.size () == n);
        for (size_t k = 0; k < n; ++k) CHECK_MSG (e[k] == m.r[k].e[j], what << ": get_extra(" << j << ")[" << k << "] is " << e[k]);
    }
    bool threw = false;
    try
    {
        const auto h = f.get_header ();
        CHECK_MSG (h.wkt == m.wkt && h.extra_fields == m.extras () && h.total_points == n && bool (h.compressed) == m.compressed && h.major_version == m.major && h.minor_version == m.minor,
            what << ": the header disagrees with the contents");
        CHECK (h.is_valid ());
    }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw == (m.extras () > 255 || m.wkt.size () > 65535), what << ": get_header " << (threw ? "throws" : "does not throw"));
    // The whole-set predicates of the record API
    const auto &prs = f.get_point_records ();
    auto zero = [&] (auto get) { for (const auto &q : m.r) if (get (q)) return false; return true; };
    namespace pr = spoc::point_record;
    CHECK_MSG (pr::has_all_zero_c (prs) == zero ([] (const rec &q) { return q.c != 0; }), what << ": has_all_zero_c");
    CHECK_MSG (pr::has_all_zero_p (prs) == zero ([] (const rec &q) { return q.p != 0; }), what << ": has_all_zero_p");
    CHECK_MSG (pr::has_all_zero_i (prs) == zero ([] (const rec &q) { return q.i != 0; }), what << ": has_all_zero_i");
    CHECK_MSG (pr::has_all_zero_rgb (prs) == zero ([] (const rec &q) { return q.r || q.g || q.b; }), what << ": has_all_zero_rgb");
    for (unsigned j = 0; j < m.extras (); ++j)
        CHECK_MSG (pr::has_all_zero_extra (j, prs) == zero ([&] (const rec &q) { return q.e[j] != 0; }), what << ": has_all_zero_extra");
    CHECK (pr::get_extra_fields_size (prs) == m.extras ());
}

static void history (pbt::Source &s, unsigned max_steps, unsigned bulk = 0)
{
    const unsigned objects = 3;
    std::vector<spoc::file::spoc_file> f (objects);
    std::vector<state> m (objects);
    const unsigned steps = s.range (1, max_steps);
    unsigned changes = 0, refusals = 0;
    for (unsigned t = 0; t < steps; ++t)
    {
        const unsigned k = s.draw (objects), op = s.draw (18);
        const unsigned j = s.draw (objects);
        std::string what;
        auto refuse = [&] (bool expect, auto fn)
        {
            bool threw = false;
            try { fn (); }
            catch (const std::exception &) { threw = true; }
            CHECK_MSG (threw == expect, what << (threw ? " threw" : " did not throw"));
            if (threw) ++refusals;
            return threw;
        };
        switch (op)
        {
            case 0: case 1: case 2:
            {
                const unsigned e = s.chance (4, 5) ? m[k].extras () : s.range (0, 4);
                const auto r = gen_records (s, 1, e, gen_opts ())[0];
                what = "push_back";
                if (!refuse (!m[k].r.empty () && e != m[k].extras (), [&] { f[k].push_back (to_pr (r)); })) { m[k].r.push_back (r); ++changes; }
                break;
            }
            case 3:
            {
                if (m[k].r.empty ()) break;
                const unsigned e = s.chance (3, 4) ? m[k].extras () : s.range (0, 4);
                const auto r = gen_records (s, 1, e, gen_opts ())[0];
                const size_t i = s.draw (m[k].r.size ());
                what = "set_point_record";
                if (!refuse (e != m[k].extras (), [&] { f[k].set_point_record (i, to_pr (r)); })) { m[k].r[i] = r; ++changes; }
                break;
            }
            case 4: case 5:
            {
                auto v = gen_some (s, bulk ? bulk : 12, bulk ? 2 : 5);
                bool bad = false;
                if (v.size () > 1 && s.chance (1, 3)) { const size_t i = s.draw (v.size ()); v[i].e.push_back (9); bad = true; }
                auto prs = to_prs (v);
                what = op == 4 ? "set_point_records" : "move_point_records (in)";
                if (!refuse (bad, [&] { if (op == 4) f[k].set_point_records (prs); else f[k].move_point_records (prs); }))
                {
                    m[k].r = v; ++changes;
                    if (op == 4) { CHECK_MSG (from_prs (prs).size () == v.size (), "set_point_records changed its argument"); check_same_records (from_prs (prs), v, "argument of set_point_records"); }
                    else CHECK_MSG (prs.empty (), "the vector moved from is not empty");
                }
                else check_same_records (from_prs (prs), v, "the argument of a refused operation");
                break;
            }
            case 6:
            {
                what = "move_point_records (out)";
                const spoc::point_record::point_records taken = f[k].move_point_records ();
                check_same_records (from_prs (taken), m[k].r, what);
                m[k].r.clear ();
                ++changes;
                break;
            }
            case 7:
            {
                const unsigned e = bulk ? s.range (0, 3) : s.chance (1, 8) ? s.range (0, 300) : s.range (0, 6);
                what = "resize_extra_fields";
                f[k].resize_extra_fields (e);
                for (auto &r : m[k].r) r.e.resize (e, 0);
                ++changes;
                break;
            }
            case 8:
            {
                what = "set_wkt";
                m[k].wkt = gen_wkt (s, s.chance (1, 10));
                if (s.chance (1, 40)) m[k].wkt = std::string (65536, 'w');
                f[k].set_wkt (m[k].wkt);
                break;
            }
            case 9: what = "set_compressed"; m[k].compressed = s.coin (); f[k].set_compressed (m[k].compressed); break;
            case 10: what = "assignment"; f[k] = f[j]; m[k] = m[j]; ++changes; break;
            case 11: what = "swap"; f[k].swap (f[j]); std::swap (m[k], m[j]); ++changes; break;
            case 12: what = "copy"; { spoc::file::spoc_file g (f[j]); g.swap (f[k]); m[k] = m[j]; ++changes; } break;
            case 13: what = "clone_empty"; f[k] = f[j].clone_empty (); { const auto c = m[j]; m[k] = c; m[k].r.clear (); } break;
            case 15:
            {
                // Arguments that are part of the object itself
                if (m[k].r.empty ()) break;
                const size_t i = s.draw (m[k].r.size ()), i2 = s.draw (m[k].r.size ());
                ++changes;
                switch (s.draw (5))
                {
                    case 0: what = "push_back of its own record"; f[k].push_back (f[k].get_point_record (i)); { const auto r = m[k].r[i]; m[k].r.push_back (r); } break;
                    case 1: what = "set_point_record to its own record"; f[k].set_point_record (i, f[k].get_point_record (i2)); { const auto r = m[k].r[i2]; m[k].r[i] = r; } break;
                    case 2: what = "set_point_records to its own records"; f[k].set_point_records (f[k].get_point_records ()); break;
                    case 3: what = "self-assignment"; { auto &same_one = f[k]; f[k] = same_one; } break;
                    default: what = "swap with itself"; f[k].swap (f[k]);
                }
                break;
            }
            case 16:
            {
                what = "construction with a version";
                auto v = gen_some (s, bulk ? bulk : 6, bulk ? 2 : 4);
                state n;
                n.major = s.draw (256);
                n.minor = s.draw (256);
                n.wkt = gen_wkt (s, false);
                n.compressed = s.coin ();
                n.r = v;
                bool bad = false;
                if (v.size () > 1 && s.chance (1, 4)) { v[s.draw (v.size ())].e.push_back (9); bad = true; }
                if (!refuse (bad, [&] { spoc::file::spoc_file g (n.major, n.minor, n.wkt, n.compressed, to_prs (v)); f[k] = g; })) { m[k] = n; ++changes; }
                break;
            }
            case 14:
            {
                auto v = gen_some (s, bulk ? bulk : 6, bulk ? 2 : 4);
                bool bad = false;
                if (v.size () > 1 && s.chance (1, 3)) { v[s.draw (v.size ())].e.push_back (9); bad = true; }
                const auto w = gen_wkt (s, false);
                const bool z = s.coin ();
                what = "construction";
                if (!refuse (bad, [&] { spoc::file::spoc_file g (w, z, to_prs (v)); f[k].swap (g); })) { m[k] = state (); m[k].wkt = w; m[k].compressed = z; m[k].r = v; ++changes; }
                break;
            }
            default:
            {
                what = "writing and reading back";
                if (m[k].extras () > 255 || m[k].wkt.size () > 65535 || m[k].major != 0 || m[k].minor != 1) break;
                f[k] = read (lib::write (f[k]));
                break;
            }
        }
        s.label (what);
        NOTE (s, what << "[" << k << "] ");
        // no operation on one object shows in another
        for (unsigned q = 0; q < objects; ++q)
        {
            std::ostringstream o;
            o << "object " << q << " after step " << t << ", " << what << " of object " << k;
            observe (f[q], m[q], o.str ());
        }
    }
    if (changes >= 3) s.nontrivial ();
    s.label_if (refusals > 0, "some operation refused");
}

PROP (histories, 150000, "histories that change contents at least three times")
{
    history (s, 25);
}
PROP (long_histories, 4000, "histories of up to 200 steps")
{
    history (s, 200);
}
PROP (large, 60, "histories that change contents at least three times")
{
    history (s, 12, s.chance (1, 3) ? 80000 : 8000);
}

PBT_MAIN
