// C41: streaming programs process records as they arrive
#include "xform.h"
#include "session.h"
using namespace xform;

static const double PATIENCE = 25; // seconds without any progress before output counts as missing

struct stream
{
    cloud c;
    std::string in, want;        // the whole input, the whole output
    size_t hi, ho, ri, ro;       // header and record sizes, in and out
    std::vector<std::string> args;
};
static stream gen (pbt::Source &s, bool transform)
{
    stream t;
    gen_opts o;
    o.kind = SURVEY;
    o.max_points = s.rare (10) ? 140000 : s.chance (1, 8) ? 3000 : 40;
    o.max_extras = 8;
    if (!transform && s.coin ()) o.kind = ANY;
    t.c = gen_cloud (s, o, 0, s.chance (1, 6));
    t.in = encode (t.c);
    t.args = { "noop" };
    t.want = t.in;
    if (transform)
    {
        std::vector<cmd> q;
        auto w = t.c;
        for (unsigned k = s.range (1, 3); k; --k)
        {
            auto x = gen_cmd (s, t.c, true);
            if (x.rotates || x.quantizes) { x = cmd (); x.name = "add-z"; x.params = "0.5"; x.f = [] (rec &r, double &) { r.z += 0.5; }; }
            q.push_back (x);
        }
        for (auto &r : w.r) { double m = 0; for (const auto &x : q) x.f (r, m); }
        t.want = encode (w);
        t.args = options (q);
    }
    t.hi = t.ho = enc_header (t.c.wkt, t.c.extras (), t.c.r.size (), 0).size ();
    t.ri = t.ro = 40 + 8 * t.c.extras ();
    return t;
}
// How much of the output 'n' bytes of input determine
static size_t determined (const stream &t, size_t n)
{
    if (n < t.hi) return 0;
    return t.ho + (n - t.hi) / t.ri * t.ro;
}
static std::string where (const stream &t, size_t n)
{
    std::ostringstream o;
    if (n < t.hi) o << n << " of " << t.hi << " header bytes";
    else o << "the header, " << (n - t.hi) / t.ri << " of " << t.c.r.size () << " records and " << (n - t.hi) % t.ri << " bytes";
    return o.str ();
}
// Values compared as bytes, but -0.0 and 0.0, and NaNs, count as one
static bool same_bytes (const stream &t, const std::string &out, const std::string &want, bool transform)
{
    if (out == want) return true;
    if (!transform || out.size () != want.size () || out.compare (0, std::min (t.ho, out.size ()), want, 0, std::min (t.ho, want.size ()))) return false;
    for (size_t k = t.ho; k < out.size (); k += t.ro)
        for (size_t j = k; j < k + t.ro && j < out.size ();)
        {
            if (j < k + 24 && j + 8 <= out.size ())
            {
                const double a = from_bits (src (out, j).un (8)), b = from_bits (src (want, j).un (8));
                if (!(a == b || (std::isnan (a) && std::isnan (b)))) return false;
                j += 8;
            }
            else { if (out[j] != want[j]) return false; ++j; }
        }
    return true;
}

static void pauses (pbt::Source &s, bool transform)
{
    auto t = gen (s, transform);
    bool fifo = transform && s.chance (1, 4);
    // where the input pauses, and where it ends
    size_t end = t.in.size ();
    const bool cut = s.chance (1, 3) && !t.in.empty ();
    if (cut) end = s.draw (4) == 0 ? s.draw (std::min<size_t> (t.hi + 1, end)) : t.hi >= end ? s.draw (end) : s.coin () ? t.hi + s.draw ((end - t.hi) / t.ri) * t.ri : s.range (t.hi, end - 1);
    if (end == 0) fifo = false;
    std::set<size_t> stops;
    for (unsigned k = s.draw (6); k; --k)
    {
        const size_t n = t.c.r.size ();
        switch (s.draw (4))
        {
            case 0: stops.insert (t.hi); break;
            case 1: stops.insert (t.hi + s.draw (n + 1) * t.ri); break;
            case 2: stops.insert (s.draw (t.in.size () + 1)); break;
            default: stops.insert (n ? t.in.size () - t.ri * s.range (0, std::min<size_t> (n, 2)) : t.hi);
        }
    }
    stops.insert (end);
    while (*stops.rbegin () > end) stops.erase (std::prev (stops.end ()));
    NOTE (s, cli::shell_text (t.args) << (fifo ? " on named pipes" : "") << ", " << t.c.r.size () << " records of " << t.ri << " bytes, ends after " << where (t, end) << ", " << stops.size () << " pauses");
    cli::session p (t.args, fifo);
    size_t sent = 0;
    bool paused_inside = false;
    for (auto stop : stops)
    {
        const auto part = t.in.substr (0, stop);
        const size_t due = determined (t, stop);
        p.pump (part, sent, [&] { return p.out.size () >= due && sent == stop; }, PATIENCE);
        CHECK_MSG (p.out.size () >= due, "after " << where (t, stop) << " the input pauses and no progress is made: " << p.out.size () << " bytes of output, " << due << " are determined; " << (p.ended ? "the program has ended: " : "") << pbt::tail (p.err, 300));
        CHECK_MSG (p.out.size () <= determined (t, stop), "after " << where (t, stop) << " there are " << p.out.size () << " bytes of output, " << due << " are determined");
        CHECK_MSG (same_bytes (t, p.out, t.want.substr (0, due), transform), "after " << where (t, stop) << " the output is wrong");
        if (stop > t.hi && stop < t.in.size ()) paused_inside = true;
    }
    p.close_in ();
    const auto r = p.finish ();
    CHECK_MSG (!r.timed_out, "the program did not terminate after the end of its input; no progress");
    if (end < t.in.size ()) CHECK_MSG (r.rejected () && !r.err.empty (), "the input ends after " << where (t, end) << ": " << r.text ());
    else CHECK_MSG (r.ok (), "the input is complete: " << r.text ());
    CHECK_MSG (same_bytes (t, r.out, t.want.substr (0, determined (t, end)), transform), "the output is " << r.out.size () << " bytes, expected the " << determined (t, end) << " that the input determines" << (r.out.size () == determined (t, end) ? ", with other contents" : ""));
    if (paused_inside) s.nontrivial ();
    s.label_if (cut, "input ends early");
    s.label_if (fifo, "named pipes");
}
PROP (noop, 8000, "the input pauses between or inside records")  { pauses (s, false); }
PROP (transform, 8000, "the input pauses between or inside records") { pauses (s, true); }

// ---- the infinite source ----
PROP (source, 400, "at least 10 records are read")
{
    const size_t n = s.pick ({ 0, 1, 10, 100, 1000, 5000 }) + s.draw (20);
    const bool ignore = s.coin (), transform = s.coin ();
    NOTE (s, n << " records, SIGPIPE " << (ignore ? "ignored" : "deadly"));
    cli::session g ({ "generate_infinite_points" }, false, ignore);
    size_t sent = 0;
    g.pump ("", sent, [&] { return g.out.size () > 300; }, PATIENCE);
    cloud c;
    src i (g.out);
    CHECK_MSG (i.bytes (4) == "SPOC" && i.un (1) == 0 && i.un (1) == 1, "no SPOC header");
    const auto wkt = i.bytes (i.un (2));
    const unsigned extras = i.un (1);
    const uint64_t total = i.un (8);
    CHECK_MSG (i.ok && i.un (1) == 0, "the header is not that of an uncompressed file");
    const size_t hs = i.at, rs = 40 + 8 * extras;
    CHECK_MSG (total >= 1000000000000ull, "the header announces " << total << " records");
    g.pump ("", sent, [&] { return g.out.size () >= hs + n * rs; }, PATIENCE);
    CHECK_MSG (g.out.size () >= hs + n * rs, "no progress after " << g.out.size () << " bytes, though the stream is read");
    i.at = hs;
    std::set<uint64_t> xs, ys, zs;
    double lo[3] = { 0, 0, 0 }, hi[3] = { 0, 0, 0 };
    for (size_t k = 0; k < n; ++k)
    {
        const double x = from_bits (i.un (8)), y = from_bits (i.un (8)), z = from_bits (i.un (8));
        for (double d : { x, y, z }) CHECK_MSG (std::abs (d) <= 500, "record " << k << " has the coordinate " << d);
        for (size_t j = 24; j < rs; ++j) CHECK_MSG (i.un (1) == 0, "record " << k << " has a field that is not 0 at byte " << j);
        xs.insert (bits (x)); ys.insert (bits (y)); zs.insert (bits (z));
        unsigned a = 0;
        for (double d : { x, y, z }) { lo[a] = std::min (lo[a], d); hi[a] = std::max (hi[a], d); ++a; }
    }
    CHECK (xs.size () + 2 >= n && ys.size () + 2 >= n && zs.size () + 2 >= n);
    for (unsigned a = 0; a < 3 && n >= 1000; ++a) CHECK_MSG (lo[a] < -400 && hi[a] > 400, n << " records span only " << lo[a] << " to " << hi[a] << " along " << "xyz"[a]);
    // what was read is a stream that others accept as far as it goes
    const auto head = g.out.substr (0, hs + n * rs);
    cli::session p (transform ? std::vector<std::string> { "spoc_transform", "--set=c,7" } : std::vector<std::string> { "noop" });
    size_t s2 = 0;
    p.pump (head, s2, [&] { return s2 == head.size () && p.out.size () >= head.size (); }, PATIENCE);
    auto want = head;
    if (transform) for (size_t k = 0; k < n; ++k) want[hs + k * rs + 24] = 7;
    CHECK_MSG (p.out == want, p.args[0] << " gives " << p.out.size () << " bytes for " << head.size () << " bytes of the infinite stream");
    // it ends when nobody reads any more
    g.close_out ();
    g.close_in ();
    const auto r = g.finish ();
    CHECK_MSG (!r.timed_out, "the source did not terminate after its reader has gone; no progress");
    CHECK_MSG (ignore ? r.rejected () : (r.sig == SIGPIPE || r.rejected ()), "after its reader has gone: " << r.text ());
    if (n >= 10) s.nontrivial ();
}

// ---- the averaging sink ----
PROP (sink, 2500, "a complete or a cut stream with records")
{
    auto t = gen (s, false);
    size_t end = t.in.size ();
    if (s.coin ()) end = s.draw (t.in.size ());
    NOTE (s, t.c.r.size () << " records, ends after " << where (t, end));
    cli::session p ({ "stream_averaging" });
    size_t sent = 0;
    std::string in = t.in.substr (0, end);
    p.pump (in, sent, [&] { return sent == in.size (); }, PATIENCE);
    p.close_in ();
    const auto r = p.finish ();
    CHECK_MSG (!r.timed_out, "the sink did not terminate; no progress");
    CHECK_MSG (end < t.in.size () ? r.rejected () && !r.err.empty () : r.ok (), "the stream ends after " << where (t, end) << ": " << r.text ());
    CHECK_MSG (r.out.empty (), "something was written to standard output");
    if (t.c.r.size ()) s.nontrivial ();
}
// Its reports come while the stream is open, and cover exactly what has arrived
PROP (averages, 24, "all")
{
    const unsigned n = s.range (1, 400);
    auto b = s.sub ();
    cloud c;
    const unsigned extras = s.draw (5);
    for (unsigned k = 0; k <= n; ++k)
    {
        rec r;
        r.x = double (b.below (1000)) - 500; r.y = double (b.below (100)); r.z = -double (b.below (7));
        r.e.assign (extras, 3);
        c.r.push_back (r);
    }
    const auto all = encode (c);
    auto in = all;
    // announce more than will come
    const auto h = enc_header ("", extras, 1000000, 0);
    in.replace (0, h.size (), h);
    const size_t rs = 40 + 8 * extras;
    NOTE (s, n << " records, a pause, one record");
    s.nontrivial ();
    cli::session p ({ "stream_averaging" });
    size_t sent = 0;
    const auto part = in.substr (0, in.size () - rs);
    p.pump (part, sent, [&] { return sent == part.size (); }, PATIENCE);
    usleep (2300000);
    // a report is due with the next record after the pause (on a stalled machine, with an earlier one)
    std::vector<std::string> lines;
    auto reports = [&] {
        lines.clear ();
        std::istringstream i (p.err);
        std::string l;
        while (std::getline (i, l)) if (!l.empty () && isdigit (l[0])) lines.push_back (l);
        return !lines.empty () && p.err.back () == '\n';
    };
    p.pump (in, sent, reports, 6);
    CHECK_MSG (reports (), "no report while the stream is open, after a pause of two seconds and another record; the log is: " << pbt::tail (p.err, 400));
    for (const auto &l : lines)
    {
        const size_t k = std::stoul (l);
        CHECK_MSG (k >= 1 && k <= n + 1, "a report covers " << k << " of " << n + 1 << " records");
        double sum[3] = { 0, 0, 0 };
        for (size_t j = 0; j < k; ++j) { sum[0] += c.r[j].x; sum[1] += c.r[j].y; sum[2] += c.r[j].z; }
        std::ostringstream o;
        o << k << "\t" << sum[0] / k << "\t" << sum[1] / k << "\t" << sum[2] / k;
        CHECK_MSG (l == o.str (), "the report is '" << l << "', expected '" << o.str () << "'");
    }
    s.label_if (std::stoul (lines.back ()) == n + 1, "report covers all");
}

PBT_MAIN

// ---- memory ----
// What a streaming program keeps does not grow with the stream
PROP (memory, 6, "every case: a stream of more than 40 MB through 24 MB of memory")
{
    const unsigned kind = s.draw (4);
    cloud c;
    c.wkt = "memory";
    const unsigned extras = s.draw (4);
    const size_t n = 48000000 / (40 + 8 * extras) + s.draw (1000);
    auto b = s.sub ();
    c.r.resize (n);
    for (auto &r : c.r) { r.x = double (b.below (1000000)) / 64; r.y = -double (b.below (1000000)) / 64; r.z = b.below (100); r.c = b.below (9); r.i = b.next (); r.e.assign (extras, b.next ()); }
    auto in = encode (c);
    const std::vector<std::vector<std::string>> a = { { "noop" }, { "spoc_transform", "--add-x=0.5", "--replace=c,3,7" }, { "spoc_transform", "--set=c,5", "--copy-field=c,p" }, { "stream_averaging" } };
    NOTE (s, cli::shell_text (a[kind]) << " with " << n << " records of " << 40 + 8 * extras << " bytes");
    s.nontrivial ();
    if (kind == 1) for (auto &r : c.r) { r.x += 0.5; if (r.c == 3) r.c = 7; }
    if (kind == 2) for (auto &r : c.r) { r.c = 5; r.p = 5; }
    cli::opts o;
    o.data_mb = 24;
    const auto r = cli::run (a[kind], in, o);
    CHECK_MSG (r.ok (), cli::shell_text (a[kind]) << " with " << n << " records and 24 MB of memory: " << r.text ());
    if (kind < 3)
    {
        in = encode (c);
        CHECK_MSG (r.out == in, cli::shell_text (a[kind]) << " with " << n << " records gives a wrong output of " << r.out.size () << " bytes");
    }
}
