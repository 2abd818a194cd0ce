// C49: where contracts are enabled, broken preconditions are reported and change nothing
#undef NDEBUG
#include "geom.h"
#include "lib.h"
#include "spoc/benchmark_utils.h"
#include "spoc/cmd.h"
#include "spoc/contracts.h"
#include "spoc/utils.h"
#include "tool.h"
#include "transform.h"
#include <regex>
#include <unistd.h>
using namespace geom;
using spoc::file::spoc_file;

struct command { std::string name, params; };

// What happened: nothing, or the text of the exception
template <typename F> static std::string thrown (const F &f)
{
    try { f (); }
    catch (const std::runtime_error &e) { return e.what (); }
    catch (const std::exception &e) { return std::string ("not a std::runtime_error: ") + e.what (); }
    return {};
}
// A breach says where it was and what was expected there
static bool breach (const std::string &t)
{
    std::smatch m;
    return std::regex_match (t, m, std::regex ("Contract failed in (.*), line ([0-9]+): (.+)")) && m[1].length () && m[2] != "0";
}

static std::string bad_field (pbt::Bulk &b)
{
    static const char *const v[] = { "", "q", "X", "xx", "e", "ex", "e1x", "e 1", " x", "x ", "1", "e-1", "e+1", "E0", "c1", "rgb", "0e" };
    return v[b.below (sizeof v / sizeof *v)];
}
static std::string field (pbt::Bulk &b, unsigned extras)
{
    const unsigned k = b.below (9 + extras);
    return k < 9 ? std::string (1, "xyzcpirgb"[k]) : "e" + std::to_string (k - 9);
}
// A stream that is not good any more
static void spoil (pbt::Bulk &b, std::ios &s) { s.setstate (b.below (3) == 0 ? std::ios::failbit : b.below (2) ? std::ios::badbit : std::ios::eofbit); }

PROP (preconditions, 60000, "the precondition is broken and there is a record")
{
    auto b = s.sub ();
    const size_t n = s.range (0, 6);
    const unsigned extras = unsigned (s.draw (4));
    std::vector<rec> v (n);
    for (auto &r : v)
    {
        r.x = b.unit () * 10; r.y = b.unit () * 10; r.z = b.unit () * 10;
        r.c = uint32_t (b.below (20)); r.p = uint32_t (b.next ()); r.i = uint16_t (b.next ()); r.r = r.g = r.b = 7;
        for (unsigned k = 0; k < extras; ++k) r.e.push_back (b.next ());
    }
    const spoc_file f ("wkt", false, to_prs (v));
    const unsigned x = n ? extras : 0;
    const bool broken = !s.chance (1, 3);
    const unsigned op = unsigned (s.draw (8));
    static const char *const names[] = { "set_point_record", "quantize", "print_help", "transform", "get_field", "set_field", "resize_extra", "upsample" };
    std::string t, what;
    bool same = true;
    switch (op)
    {
        case 0:
        {
            if (!n && !broken) s.discard ();
            spoc_file g (f);
            const size_t i = !broken ? b.below (n) : b.below (2) ? n + b.below (3) : n + (b.next () >> b.below (64)) % (size_t (1) << 62);
            what = "index " + std::to_string (i) + " of " + std::to_string (n);
            spoc::point_record::point_record q (1, 2, 3);
            q.extra.resize (x, 5);
            t = thrown ([&] { g.set_point_record (i, q); });
            same = broken ? g.get_point_records () == f.get_point_records () : g.get_point_records ()[i] == q;
            break;
        }
        case 1:
        {
            auto p = f.get_point_records ();
            const double q = broken ? (b.below (2) ? -0.0 : 0.0) : b.below (2) ? from_bits (1) : (b.unit () + 1e-9) * (b.below (2) ? 1 : -1);
            what = "precision " + std::to_string (q);
            t = thrown ([&] { spoc::utils::quantize (p, q); });
            if (broken) same = p == f.get_point_records ();
            break;
        }
        case 2:
        {
            std::ostringstream o;
            const bool stream = broken && b.below (2);
            if (stream) spoil (b, o);
            static option options[] = { { "help", no_argument, 0, 'h' }, { 0, 0, 0, 0 } };
            t = thrown ([&] { spoc::cmd::print_help (o, broken && !stream ? "" : "usage", b.below (2) ? 2 : 0, options); });
            what = stream ? "a bad stream" : "usage";
            same = o.str ().empty () == broken;
            break;
        }
        case 3:
        {
            std::istringstream i (write (f));
            std::ostringstream o;
            if (broken) { if (b.below (2)) spoil (b, i); else spoil (b, o); }
            const std::vector<command> c (b.below (3), command { "add-x", "1" });
            t = thrown ([&] { spoc::transform_app::apply (i, o, c, 1); });
            same = o.str ().empty () == broken;
            break;
        }
        case 4:
        {
            std::ostringstream o;
            const bool stream = broken && b.below (2);
            const std::string name = broken && !stream ? bad_field (b) : field (b, x);
            if (stream) spoil (b, o);
            what = "field '" + name + "'" + (stream ? " and a bad stream" : "");
            t = thrown ([&] { spoc::tool_app::get_field (f, o, name); });
            same = o.str ().empty () == (broken || n == 0);
            break;
        }
        case 5:
        {
            std::string text;
            for (size_t k = 0; k < n; ++k) text += std::to_string (b.below (100)) + "\n";
            std::istringstream i (text);
            const bool stream = broken && b.below (2);
            const std::string name = broken && !stream ? bad_field (b) : field (b, x);
            if (stream) spoil (b, i);
            what = "field '" + name + "'" + (stream ? " and a bad stream" : "");
            t = thrown ([&] { same = spoc::tool_app::set_field (f, i, name).get_point_records ().size () == n; });
            break;
        }
        case 6:
        {
            const int q = broken ? (b.below (2) ? -1 - int (b.below (300)) : std::numeric_limits<int>::min () + int (b.below (3))) : int (b.below (20));
            what = "size " + std::to_string (q);
            t = thrown ([&] { spoc::tool_app::resize_extra (f, q); });
            break;
        }
        default:
        {
            if (!n) s.discard ();
            const double q = !broken ? 0.5 + b.unit () : b.below (3) == 0 ? 0.0 : b.below (2) ? -b.unit () : NAN;
            what = "resolution " + std::to_string (q);
            std::ostringstream o;
            t = thrown ([&] { spoc::tool_app::upsample_classifications (f, f, q, b.below (2), o); });
            if (broken) same = o.str ().empty ();
            break;
        }
    }
    NOTE (s, names[op] << " with " << n << " records, " << what << (broken ? ", broken" : ""));
    s.label (names[op]);
    if (broken && n) s.nontrivial ();
    if (broken) CHECK_MSG (breach (t), names[op] << " with " << what << (t.empty () ? " reports nothing" : " reports '" + t + "'"));
    else CHECK_MSG (t.empty (), names[op] << " with " << what << " reports '" << t << "', its preconditions hold");
    CHECK_MSG (same, names[op] << " with " << what << (broken ? " changes its data in spite of the breach" : " does not do its work"));
    // the original is as it was
    for (size_t k = 0; k < n; ++k) CHECK (model::same (from_pr (f.get_point_records ()[k]), v[k]));
}

PROP (expressions, 20000, "the expression fails")
{
    // evaluated once, reported with its text and its place
    const int x = int (s.draw (100)), limit = int (s.draw (100));
    NOTE (s, x << " < " << limit);
    int evaluated = 0, line = 0;
    auto less = [&] (int a, int b) { ++evaluated; return a < b; };
    const bool require = s.coin ();
    const auto t = thrown ([&] {
        if (require) { line = __LINE__; REQUIRE (less (x, limit)); }
        else { line = __LINE__; ENSURE (less (x, limit)); }
    });
    CHECK_MSG (evaluated == 1, "the condition is evaluated " << evaluated << " times");
    CHECK_MSG (t.empty () == (x < limit), x << " < " << limit << (t.empty () ? " is not reported" : " is reported"));
    if (t.empty ()) return;
    s.nontrivial ();
    CHECK_MSG (t == std::string ("Contract failed in ") + __FILE__ + ", line " + std::to_string (line) + ": less (x, limit)", "the report is '" << t << "'");
}

PROP (timer, 160, "all")
{
    using clock = std::chrono::system_clock;
    auto ms = [] (auto d) { return double (std::chrono::duration_cast<std::chrono::milliseconds> (d).count ()); };
    const auto a = clock::now ();
    spoc::benchmark_utils::timer t;
    auto b = clock::now ();
    const unsigned sleeps = unsigned (s.range (1, 3));
    NOTE (s, sleeps << " sleeps");
    s.nontrivial ();
    bool running = true;
    // when the time ended that it shows is known to within two moments
    auto e1 = a, e2 = b, f1 = a, f2 = b;
    for (unsigned k = 0; k < sleeps; ++k)
    {
        usleep (useconds_t (s.range (0, 12000)));
        const unsigned op = unsigned (s.draw (3));
        if (op == 1) { f1 = clock::now (); t.stop (); f2 = clock::now (); running = false; }
        if (op == 2) { e1 = clock::now (); t.start (); e2 = clock::now (); running = true; }
        const auto c = clock::now ();
        const double shown = t.elapsed_ms ();
        const auto d = clock::now ();
        // steps of the system's clock are no failure
        if (d < e1 || d - a > std::chrono::seconds (60)) s.discard ();
        const double lo = ms ((running ? c : f1) - e2), hi = ms ((running ? d : f2) - e1);
        CHECK_MSG (shown >= lo && shown <= hi, "after " << k + 1 << " steps the timer shows " << shown << " ms, expected " << lo << " to " << hi);
    }
}

PBT_MAIN
