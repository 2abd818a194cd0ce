// C29: resizing extra fields keeps the common prefix and zero-fills
#include "lib.h"
#include "cli.h"
#include "tool.h"
using namespace lib;
namespace ta = spoc::tool_app;

static cloud gen (pbt::Source &s)
{
    gen_opts o;
    o.max_points = s.rare (4) ? 140000 : 30;
    o.max_extras = s.coin () ? 6 : 255;
    return gen_cloud (s, o, -1, s.chance (1, 10));
}
static unsigned gen_size (pbt::Source &s, unsigned extras)
{
    switch (s.draw (4))
    {
        case 0: return s.range (0, 255);
        case 1: return s.range (0, 10);
        case 2: return s.pick ({ 0u, 1u, 254u, 255u, 128u, 127u });
        default: return std::min<unsigned> (255, extras + s.draw (3));
    }
}
static cloud resized (const cloud &c, unsigned n)
{
    cloud w = c;
    for (auto &r : w.r) { std::vector<uint64_t> e (n, 0); for (unsigned k = 0; k < n && k < r.e.size (); ++k) e[k] = r.e[k]; r.e = e; }
    return w;
}

PROP (library, 60000, "records with extra fields are resized to another size above 0")
{
    const auto c = gen (s);
    const unsigned n = gen_size (s, c.extras ()), m = gen_size (s, n);
    NOTE (s, c << " resized to " << n << ", then " << m);
    if (!c.r.empty () && c.extras () && n && n != c.extras ()) s.nontrivial ();
    s.label (n > c.extras () ? "grow" : n < c.extras () ? "shrink" : "same");
    const auto f = to_file (c);
    const auto g = ta::resize_extra (f, n);
    const auto w = resized (c, n);
    check_same (from_file (g), w, "resize_extra");
    CHECK (g.get_extra_fields () == (c.r.empty () ? g.get_extra_fields () : n));
    check_same (from_file (ta::resize_extra (g, m)), resized (w, m), "resize_extra twice");
    if (n >= c.extras ()) check_same (from_file (ta::resize_extra (g, c.extras ())), c, "growing and shrinking back");
    check_same (from_file (f), c, "the input");
    auto h = to_file (c);
    h.resize_extra_fields (n);
    check_same (from_file (h), w, "resize_extra_fields");
    check_same (decode_all (write (h), "the written file"), w, "resize_extra_fields, written");
}

PROP (tool, 4000, "records with extra fields are resized to another size above 0")
{
    const auto c = gen (s);
    const unsigned n = gen_size (s, c.extras ());
    NOTE (s, c << " --resize-extra=" << n);
    if (!c.r.empty () && c.extras () && n && n != c.extras ()) s.nontrivial ();
    const auto out = cli::run_cloud ({ "spoc_tool", "--resize-extra=" + std::to_string (n) }, encode (c));
    check_same (out, resized (c, n), "--resize-extra=" + std::to_string (n));
}

PROP (refused, 700, "a size outside 0 to 255")
{
    const auto c = gen (s);
    const std::string n = s.coin () ? std::to_string (s.range (256, 100000)) : s.coin () ? std::to_string (s.irange (-100000, -1)) : s.pick<std::string> ({ "256", "-1", "2147483647", "99999999999", "abc", "", "65536", "512", "-256" });
    NOTE (s, c << " --resize-extra=" << n);
    s.nontrivial ();
    const auto r = cli::run ({ "spoc_tool", "--resize-extra=" + n }, encode (c));
    CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), "--resize-extra=" << n << ": " << r.text ());
}
PBT_MAIN
