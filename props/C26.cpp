// C26: noise commands perturb only their axes, within their law, reproducibly
#include "xform.h"
using namespace xform;

struct noise { std::string name; bool gauss; bool axis[3]; };
static const std::vector<noise> ALL = {
    { "uniform-noise", false, { true, true, true } }, { "uniform-noise-x", false, { true, false, false } }, { "uniform-noise-y", false, { false, true, false } }, { "uniform-noise-z", false, { false, false, true } },
    { "gaussian-noise", true, { true, true, true } }, { "gaussian-noise-x", true, { true, false, false } }, { "gaussian-noise-y", true, { false, true, false } }, { "gaussian-noise-z", true, { false, false, true } } };

struct plan
{
    cloud c;
    noise n;
    double mag;
    std::string par;
    uint64_t seed;
};
static plan gen (pbt::Source &s, uint64_t lo, uint64_t hi)
{
    plan p;
    p.n = ALL[s.draw (8)];
    shape sh;
    const uint64_t n = s.range (hi >= 100000 ? hi / 2 : lo, hi);
    const auto v = gen_points (s, n, sh);
    p.c.wkt = gen_text_wkt (s);
    p.c.r = records_at (s, v, s.draw (4));
    // not so small that it vanishes next to the coordinates
    static const double m[] = { 1, 0.1, 0.01, 10, 1000, 0.5, 2.5, 0.001 };
    p.mag = m[s.draw (8)];
    double scale = 0;
    for (const auto &q : v) for (int k = 0; k < 3; ++k) scale = std::max (scale, std::abs (ax (q, k)));
    if (p.mag < scale * 1e-9) p.mag = scale * 1e-9;
    p.par = text (p.mag, s.coin ());
    p.mag = strtod (p.par.c_str (), nullptr);
    p.seed = s.range (1, 2147483646);
    if (s.coin ()) p.seed = 1 + p.seed % 100;
    s.label (p.n.name);
    NOTE (s, n << " points, " << sh.name << ": --" << p.n.name << "=" << p.par << " seed " << p.seed);
    return p;
}
static double co (const rec &r, int k) { return k == 0 ? r.x : k == 1 ? r.y : r.z; }
static bool check (const std::string &out, const plan &p, const std::string &what)
{
    const auto g = decode_all (out, "the output of " + what);
    CHECK_MSG (g.wkt == p.c.wkt && !g.compressed && g.extras () == p.c.extras (), what << ": the header changed");
    CHECK_MSG (g.r.size () == p.c.r.size (), what << ": " << g.r.size () << " records, expected " << p.c.r.size ());
    const size_t n = g.r.size ();
    for (size_t k = 0; k < n; ++k)
    {
        rec w = p.c.r[k];
        for (int a = 0; a < 3; ++a)
        {
            const double x = co (g.r[k], a), o = co (w, a);
            if (!p.n.axis[a]) { CHECK_MSG (bits (x) == bits (o), what << ": " << "xyz"[a] << " changed from " << o << " to " << x); continue; }
            const double slack = 4.5e-16 * (std::abs (o) + p.mag);
            if (!p.n.gauss) CHECK_MSG (std::abs (x - o) <= p.mag + slack, what << ": " << "xyz"[a] << " of record " << k << " moved by " << x - o);
            else CHECK_MSG (std::abs (x - o) <= 12 * p.mag + slack, what << ": " << "xyz"[a] << " of record " << k << " moved by " << x - o);
            (a == 0 ? w.x : a == 1 ? w.y : w.z) = x;
        }
        CHECK_MSG (same (g.r[k], w), what << ": other fields of record " << k << " changed, from " << p.c.r[k] << " to " << g.r[k]);
    }
    // the law, on large files
    if (n >= 1000)
    {
        double d[3][3] = {};
        for (int a = 0; a < 3; ++a)
        {
            if (!p.n.axis[a]) continue;
            double s1 = 0, s2 = 0, in = 0, lo = 0, hi = 0;
            for (size_t k = 0; k < n; ++k)
            {
                const double t = (co (g.r[k], a) - co (p.c.r[k], a)) / p.mag;
                s1 += t; s2 += t * t; in += std::abs (t) < (p.n.gauss ? 1 : 0.5);
                lo = std::min (lo, t); hi = std::max (hi, t);
                for (int b = 0; b < 3; ++b) if (p.n.axis[b]) d[a][b] += t * (co (g.r[k], b) - co (p.c.r[k], b)) / p.mag;
            }
            const double var = p.n.gauss ? 1 : 1.0 / 3, frac = p.n.gauss ? 0.682689 : 0.5, q = std::sqrt (double (n));
            CHECK_MSG (std::abs (s1 / n) <= 7 * std::sqrt (var) / q, what << ": the mean displacement along " << "xyz"[a] << " is " << s1 / n << " magnitudes over " << n << " records");
            CHECK_MSG (std::abs (s2 / n - var) <= 7 * (p.n.gauss ? 1.4143 : 0.2982) / q, what << ": the mean square displacement along " << "xyz"[a] << " is " << s2 / n << ", expected " << var);
            CHECK_MSG (std::abs (in / n - frac) <= 7 * 0.5 / q, what << ": " << in / n << " of the displacements along " << "xyz"[a] << " are within " << (p.n.gauss ? "one deviation" : "half the magnitude") << ", expected " << frac);
            // from one record to the next
            std::vector<double> t (n);
            for (size_t k = 0; k < n; ++k) t[k] = (co (g.r[k], a) - co (p.c.r[k], a)) / p.mag;
            for (size_t lag : { 1, 2, 3, 8 })
            {
                double c = 0;
                for (size_t k = lag; k < n; ++k) c += t[k] * t[k - lag];
                CHECK_MSG (std::abs (c / n) <= 9 * var / q, what << ": displacements along " << "xyz"[a] << " of records " << lag << " apart are correlated, " << c / n);
            }
            const double some = t[n / 2];
            std::sort (t.begin (), t.end ());
            const size_t distinct = std::unique (t.begin (), t.end ()) - t.begin ();
            CHECK_MSG (distinct > n - n / 10, what << ": " << n << " records have only " << distinct << " different displacements along " << "xyz"[a] << ", such as " << some);
            CHECK_MSG (lo < -0.9 && hi > 0.9, what << ": displacements along " << "xyz"[a] << " span " << lo << " to " << hi);
        }
        for (int a = 0; a < 3; ++a) for (int b = 0; b < a; ++b) if (p.n.axis[a] && p.n.axis[b])
            CHECK_MSG (std::abs (d[a][b] / n) <= 8 / std::sqrt (double (n)), what << ": displacements along " << "xyz"[a] << " and " << "xyz"[b] << " are correlated, " << d[a][b] / n);
    }
    for (size_t k = 0; k < n; ++k) if (!same (g.r[k], p.c.r[k])) return true;
    return false;
}

PROP (library, 60000, "some record moves")
{
    const auto p = gen (s, 0, s.rare (4) ? 140000 : s.chance (1, 40) ? 4000 : 40);
    const auto in = encode (p.c);
    const std::vector<spoc::transform_cmd::command> cmd { { p.n.name, p.par } };
    const auto out = run_lib (in, cmd, p.seed);
    if (check (out, p, p.n.name)) s.nontrivial ();
    CHECK_MSG (run_lib (in, cmd, p.seed) == out, "the same seed gives other output");
    if (p.c.r.size () >= 3)
    {
        uint64_t other = p.seed + 1;
        switch (s.draw (4))
        {
            case 1: other = s.range (1, 2147483646); break;
            // the same low or high digits
            case 2: other = p.seed ^ (uint64_t (1) << s.draw (31)); break;
            case 3: other = p.seed + (s.range (1, 100) << s.draw (24)); break;
        }
        if (other != p.seed && other >= 1 && other <= 2147483646) { CHECK_MSG (run_lib (in, cmd, other) != out, "seeds " << p.seed << " and " << other << " give the same output"); s.label ("another seed"); }
    }
    // no noise at all
    std::vector<spoc::transform_cmd::command> none { { p.n.name, "0" } };
    CHECK_MSG (run_lib (in, none, p.seed) == in, "noise of magnitude zero changes the file");
}

PROP (law, 800, "a file of at least 1000 records, large enough to test the distribution")
{
    const auto p = gen (s, 1000, 20000);
    s.nontrivial ();
    check (run_lib (encode (p.c), { { p.n.name, p.par } }, p.seed), p, p.n.name);
}

PROP (with_others, 30000, "noise between two other commands that change something")
{
    // the other commands act as they do without noise
    auto p = gen (s, 1, 30);
    const double a = s.irange (-8, 8), z = s.irange (1, 4);
    std::vector<spoc::transform_cmd::command> cmd { { "add-x", text (a) }, { p.n.name, p.par }, { "scale-y", text (z) }, { "set", "c,5" } };
    NOTE (s, " between add-x=" << a << " and scale-y=" << z);
    if (a != 0 && z != 1) s.nontrivial ();
    auto out = decode_all (run_lib (encode (p.c), cmd, p.seed), "the output");
    CHECK (out.r.size () == p.c.r.size ());
    auto q = p;
    for (auto &r : q.c.r) { r.x += a; r.c = 5; }
    for (auto &r : out.r) r.y /= z;
    for (size_t k = 0; k < out.r.size (); ++k)
        if (!p.n.axis[1]) { CHECK_MSG (std::abs (out.r[k].y - q.c.r[k].y) <= 1e-15 * std::abs (q.c.r[k].y), "y is " << out.r[k].y << ", expected " << q.c.r[k].y); out.r[k].y = q.c.r[k].y; }
    // rounding in the division
    auto chk = q;
    chk.mag *= 1 + 1e-6;
    if (p.n.axis[1]) for (size_t k = 0; k < out.r.size (); ++k) if (std::abs (out.r[k].y - q.c.r[k].y) > p.mag && std::abs (out.r[k].y - q.c.r[k].y) < p.mag * (1 + 1e-6) + 1e-15 * std::abs (out.r[k].y)) out.r[k].y = q.c.r[k].y;
    check (encode (out), chk, p.n.name);
}

PROP (tool, 3000, "some record moves")
{
    const auto p = gen (s, 1, s.chance (1, 20) ? 3000 : 40);
    std::vector<std::string> a { "spoc_transform" };
    const std::string seed = std::to_string (p.seed);
    const bool first = s.coin ();
    auto put_seed = [&] { switch (s.draw (4)) { case 0: a.push_back ("--random-seed=" + seed); break; case 1: a.push_back ("-a" + seed); break; case 2: a.push_back ("-a"); a.push_back (seed); break; default: a.push_back ("--random-seed"); a.push_back (seed); } };
    const bool seeded = s.chance (3, 4);
    if (first && seeded) put_seed ();
    a.push_back ("--" + p.n.name + "=" + p.par);
    if (!first && seeded) put_seed ();
    NOTE (s, " " << cli::shell_text (a));
    const auto in = encode (p.c);
    const auto r = cli::run (a, in);
    CHECK_MSG (r.ok (), cli::shell_text (a) << ": " << r.text ());
    if (check (r.out, p, cli::shell_text (a))) s.nontrivial ();
    CHECK_MSG (r.out == run_lib (in, { { p.n.name, p.par } }, seeded ? p.seed : 0), "spoc_transform does not use the seed it was given");
}
PBT_MAIN
