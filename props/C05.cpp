// C05: malformed or truncated input is rejected cleanly
#include "cli.h"
#include "lib.h"
using namespace lib;

// How much memory reading these bytes must at least claim, as their counts say
static double claimed (const std::string &s)
{
    src i (s);
    if (i.bytes (4) != "SPOC") return 0;
    i.un (2);
    i.bytes (i.un (2));
    const double extras = i.un (1);
    const double n = i.un (8);
    const auto flag = i.un (1);
    if (!i.ok) return 0;
    if (!flag) return n * (80 + 24 + 8 * extras);
    double most = 0;
    for (unsigned k = 0; k < 9 + extras; ++k)
    {
        const auto len = i.un (8);
        if (!i.ok) return most;
        if (!len) continue;
        most += double (len) + n * 8;
        if (len > s.size () - i.at) return most;
        i.at += len;
    }
    return most + n * (80 + 24 + 16 * extras);
}

static void limit_memory ()
{
    if (pbt::env ().variant != "rel") return;
    static bool done = false;
    if (done) return;
    done = true;
    rlimit rl;
    rl.rlim_cur = rl.rlim_max = rlim_t (1000) << 20;
    setrlimit (RLIMIT_AS, &rl);
}

enum verdict { COMPLETE, MALFORMED, EITHER };

// A compressed file that claims many points: malformed if its columns cannot
// hold that many, otherwise left open, because memory may run out
static verdict judge_huge (const std::string &b)
{
    src i (b);
    i.bytes (4);
    i.un (2);
    i.bytes (i.un (2));
    const unsigned extras = i.un (1);
    const double n = i.un (8);
    if (i.un (1) != 1) return EITHER;
    for (unsigned k = 0; k < 9 + extras; ++k)
    {
        const auto len = i.un (8);
        if (!i.ok) return MALFORMED;
        if (!len) continue;
        i.bytes (len);
        // deflate expands at most about 1032 times
        if (!i.ok || double (len) * 1100 < n * column_width (k)) return MALFORMED;
    }
    return EITHER;
}

// What the documented format says about these bytes as one file
static verdict judge (const std::string &b, cloud &c)
{
    const bool huge = [&] {
        src i (b);
        i.bytes (6);
        i.bytes (i.un (2));
        const double extras = i.un (1), n = i.un (8);
        return i.un (1) == 1 && n * (104 + 16 * extras) > 3e8;
    } ();
    if (huge && b.compare (0, 6, std::string ("SPOC\0\1", 6)) == 0) return judge_huge (b);
    size_t at = 0;
    const auto err = decode (b, c, at);
    if (err.empty ()) return COMPLETE;
    // A flag that is neither 0 nor 1 is not described
    if (err.find ("flag") != std::string::npos) return EITHER;
    return MALFORMED;
}

template<typename F> static void expect (const std::string &b, const cloud &c, verdict v, const std::string &what, F f)
{
    cloud got;
    bool rejected = false;
    std::string msg;
    try { got = f (); }
    catch (const std::exception &e) { rejected = true; msg = e.what (); }
    if (v == MALFORMED)
        CHECK_MSG (rejected, what << " accepted " << b.size () << " bytes that are not a complete SPOC file, as " << got);
    else if (v == COMPLETE)
    {
        CHECK_MSG (!rejected, what << " refused a complete SPOC file: " << msg);
        check_same (got, c, what);
    }
    if (rejected) CHECK_MSG (!msg.empty (), what << " threw an empty message");
}

// Hand the bytes to every reader
static void check_readers (pbt::Source &s, const std::string &b)
{
    limit_memory ();
    if (pbt::env ().variant != "rel" && claimed (b) > 2e8) { s.label ("huge counts skipped under the sanitizer"); return; }
    cloud c;
    const verdict v = judge (b, c);
    s.label (v == COMPLETE ? "complete" : v == MALFORMED ? "malformed" : "undefined");
    expect (b, c, v, "read_spoc_file", [&] { std::istringstream i (b); return from_file (spoc::io::read_spoc_file (i)); });
    if (v == COMPLETE && c.compressed)
        expect (b, c, v, "read_spoc_file_compressed", [&] { std::istringstream i (b); return from_file (spoc::io::read_spoc_file_compressed (i)); });
    else
        expect (b, c, v == COMPLETE ? COMPLETE : v, "read_spoc_file_uncompressed", [&] { std::istringstream i (b); return from_file (spoc::io::read_spoc_file_uncompressed (i)); });
    if (v == MALFORMED)
        expect (b, c, v, "read_spoc_file_compressed", [&] { std::istringstream i (b); return from_file (spoc::io::read_spoc_file_compressed (i)); });
    // Record by record
    {
        std::istringstream i (b);
        bool rejected = false;
        std::vector<rec> got;
        bool compressed = false;
        uint64_t n = 0;
        try
        {
            const auto h = spoc::header::read_header (i);
            compressed = h.compressed;
            n = h.total_points;
            if (!compressed)
                for (uint64_t k = 0; k < n; ++k) got.push_back (from_pr (spoc::point_record::read_point_record (i, h.extra_fields)));
        }
        catch (const std::exception &) { rejected = true; }
        if (!compressed)
        {
            if (v == MALFORMED) CHECK_MSG (rejected, "reading header and records one by one accepted " << b.size () << " bytes that are not a complete file, as " << got);
            if (v == COMPLETE) { CHECK (!rejected); check_same_records (got, c.r, "record by record"); }
        }
    }
}

static cloud small_cloud (pbt::Source &s)
{
    gen_opts o;
    o.max_points = 12;
    o.max_extras = 130;
    auto c = gen_cloud (s, o, -1, false);
    if (c.extras () > 8) c.r.resize (std::min<size_t> (c.r.size (), 3));
    return c;
}

PROP (prefixes, 800, "proper prefixes of a valid file (all near the ends and the header, up to 60 spread over the rest) are handed to every reader")
{
    const auto c = small_cloud (s);
    NOTE (s, c);
    s.nontrivial ();
    const auto full = encode (c, s.range (1, 9), s.coin ());
    s.label (c.compressed ? "compressed" : "uncompressed");
    const size_t step = std::max<size_t> (1, full.size () / (pbt::env ().variant == "rel" ? 60 : 12));
    const size_t near = pbt::env ().variant == "rel" ? 40 : 8;
    for (size_t n = s.draw (step); n < full.size (); n += (n < near || full.size () - n < near) ? 1 : step)
        check_readers (s, full.substr (0, n));
    check_readers (s, full);
}

// Files larger than every buffer: the damage may lie in any of many blocks
PROP (large, 80, "a file of 1000 to 120000 records is cut short, or a byte of it is changed, anywhere")
{
    gen_opts o;
    o.kind = s.coin () ? ANY : SURVEY;
    cloud c;
    c.compressed = s.coin ();
    c.wkt = gen_text_wkt (s);
    c.r = gen_records (s, s.range (1000, s.chance (1, 4) ? 120000 : 20000), s.draw (4), o);
    NOTE (s, c.r.size () << " records, " << c.extras () << " extra fields");
    s.nontrivial ();
    s.label (c.compressed ? "compressed" : "uncompressed");
    const auto full = encode (c, s.pick ({ 0, 1, 6 }));
    for (int k = 0; k < 3; ++k)
    {
        auto b = full;
        if (s.draw (3)) b.resize (s.chance (1, 3) ? full.size () - 1 - s.draw (std::min<size_t> (3000, full.size ())) : s.draw (full.size ()));
        else if (!c.compressed) b.erase (s.draw (full.size ()), s.range (1, 40));
        else b[s.draw (full.size ())] ^= 1 << s.draw (8);
        check_readers (s, b);
    }
    check_readers (s, full);
}

// Structured damage
static std::string mutate (pbt::Source &s, std::string b, const cloud &c)
{
    const unsigned edits = s.range (1, 3);
    for (unsigned k = 0; k < edits; ++k)
    {
        const size_t hdr = 8 + c.wkt.size ();
        switch (s.draw (9))
        {
            case 0: if (!b.empty ()) b[s.draw (b.size ())] ^= 1 << s.draw (8); break;
            case 1: if (!b.empty ()) b[s.draw (b.size ())] = char (s.draw (256)); break;
            case 2: if (!b.empty ()) b.erase (s.draw (b.size ()), s.range (1, 40)); break;
            case 3: { std::string t; auto q = s.sub (); for (unsigned j = q.below (20) + 1; j; --j) t += char (q.next ()); b.insert (s.draw (b.size () + 1), t); break; }
            case 4: if (!b.empty ()) b.resize (s.draw (b.size () + 1)); break;
            case 5: // one of the header's counts
            {
                static const uint64_t special[] = { 0, 1, 2, 255, 256, 65535, 65536, 1ull << 31, 1ull << 32, 1ull << 47, 1ull << 62, ~0ull, ~0ull - 1, 1ull << 63 };
                uint64_t v = s.coin () ? special[s.draw (14)] : c.r.size () + s.irange (-3, 3);
                if (b.size () >= hdr + 10) for (int j = 0; j < 8; ++j) b[hdr + 1 + j] = char (v >> (8 * j));
                break;
            }
            case 6: if (b.size () > hdr) b[hdr] = char (s.draw (256)); break;
            case 7: if (b.size () > 8) { b[6] = char (s.draw (256)); b[7] = char (s.draw (256)); } break;
            default: // a column's length
            {
                if (!c.compressed || b.size () < hdr + 18) break;
                size_t at = hdr + 10;
                const unsigned skip = s.draw (9 + c.extras ());
                for (unsigned j = 0; j < skip && at + 8 <= b.size (); ++j)
                {
                    src i (b, at);
                    const auto len = i.un (8);
                    if (len > b.size () - at) break;
                    at += 8 + len;
                }
                if (at + 8 > b.size ()) break;
                src i (b, at);
                uint64_t len = i.un (8);
                switch (s.draw (4))
                {
                    case 0: len += s.irange (-6, 6); break;
                    case 1: len = 0; break;
                    case 2: len = uint64_t (1) << s.range (8, 63); break;
                    default: len = s.draw (200); break;
                }
                for (int j = 0; j < 8; ++j) b[at + j] = char (len >> (8 * j));
            }
        }
    }
    return b;
}

PROP (mutations, 12000, "a valid file with one to three edits: bits, bytes, insertions, deletions, header counts, column lengths")
{
    const auto c = small_cloud (s);
    NOTE (s, c);
    const auto full = encode (c, s.range (1, 9), s.coin ());
    const auto b = mutate (s, full, c);
    if (b != full) s.nontrivial ();
    check_readers (s, b);
}

// Columns whose stream is wrong though their length is consistent
PROP (columns, 8000, "a compressed file in which one column's stream is replaced: shortened, wrong number of values, damaged, or not zlib")
{
    auto c = small_cloud (s);
    if (c.r.empty ()) s.discard ();
    c.compressed = true;
    NOTE (s, c);
    s.nontrivial ();
    const unsigned bad = s.draw (9 + c.extras ());
    const auto kind = s.draw (6);
    sink o;
    o.s = enc_header (c.wkt, c.extras (), c.r.size (), 1);
    bool same_data = false;
    for (unsigned k = 0; k < 9 + c.extras (); ++k)
    {
        const auto raw = column (c.r, k);
        auto z = zdeflate (raw, 6);
        if (k == bad)
            switch (kind)
            {
                case 0: z.resize (z.size () - s.range (1, z.size () - 1)); break;            // incomplete stream
                case 1: z = zdeflate (raw + std::string (s.range (1, 40), '\1'), 6); break;  // too many bytes
                case 2: z = zdeflate (raw.substr (0, s.draw (raw.size ())), 6); break;        // too few bytes
                case 3: z[z.size () - 1 - s.draw (4)] ^= 1 << s.draw (8); break;              // checksum
                case 4: { auto q = s.sub (); for (auto &x : z) x = char (q.next ()); z[0] = 0x55; break; }
                default: { z[s.draw (z.size ())] ^= 1 << s.draw (8); same_data = true; break; } // anywhere
            }
        o.u64 (z.size ());
        o.s += z;
    }
    s.label ("damage " + std::to_string (kind));
    (void) same_data;
    check_readers (s, o.s);
}

PROP (arbitrary, 15000, "random bytes, after a valid signature and version more often than not")
{
    auto b = s.sub ();
    std::string t;
    const auto kind = s.draw (4);
    if (kind > 0) t = "SPOC";
    if (kind > 1) t += std::string ("\0\1", 2);
    if (kind > 2) { const uint16_t n = b.below (30); t += char (n); t += '\0'; for (int k = 0; k < n; ++k) t += 'w'; t += char (b.below (3)); for (int k = 0; k < 8; ++k) t += char (k ? 0 : b.below (20)); t += char (b.below (2)); }
    const size_t m = s.range (0, 400);
    for (size_t k = 0; k < m; ++k) t += char (b.chance (1, 3) ? 0 : b.next ());
    NOTE (s, t.size () << " bytes, kind " << kind);
    s.nontrivial ();
    check_readers (s, t);
}

// Every byte is a choice: this is what coverage-guided search works on
PROP (bytes, 4000, "bytes chosen one by one, after a valid header more often than not")
{
    std::string t;
    if (s.draw (4)) t = enc_header (std::string (s.draw (4), 'w'), s.draw (3), s.draw (40), s.draw (2));
    const size_t m = s.range (0, 300);
    for (size_t k = 0; k < m; ++k) t += char (s.draw (256));
    NOTE (s, t.size () << " bytes");
    s.nontrivial ();
    check_readers (s, t);
}

// Every application that reads files
PROP (applications, 1500, "a truncated or damaged file is handed to one of the applications as a file or on standard input")
{
    auto c = small_cloud (s);
    const auto app = s.draw (14);
    static const char *names[] = { "compress", "decompress", "diff first", "diff second", "filter", "info", "merge", "srs set", "tile", "tool", "transform", "noop", "stream_averaging", "srs print" };
    if (app == 0 || app == 10 || app == 11 || app == 12) c.compressed = false;
    if (app == 1) c.compressed = true;
    NOTE (s, names[app] << ": " << c);
    const auto full = encode (c);
    std::string b;
    if (s.coin ()) b = full.substr (0, s.chance (1, 3) ? (full.size () - 1 - s.draw (std::min<size_t> (full.size (), 30))) : s.draw (full.size ()));
    else b = mutate (s, full, c);
    cloud d;
    verdict v = judge (b, d);
    if (v == EITHER) s.discard ();
    if (claimed (b) > 2e8) { if (pbt::env ().variant != "rel") s.discard (); s.label ("huge counts"); }
    if (v == COMPLETE && d.compressed != c.compressed) s.discard ();
    s.label (names[app]);
    s.label (v == COMPLETE ? "complete" : "malformed");
    if (v == MALFORMED) s.nontrivial ();
    cli::opts o;
    o.as_mb = 1500;
    const auto in = cli::path ("in.spoc"), good = cli::path ("good.spoc"), dir = cli::fresh_dir ("tiles");
    cli::put (in, b);
    cloud g = c;
    cli::put (good, encode (g));
    const bool file = s.coin ();
    std::vector<std::string> a;
    std::string data = file ? "" : b;
    auto with_in = [&] (std::vector<std::string> x) { if (file) x.push_back (in); return x; };
    switch (app)
    {
        case 0: a = with_in ({ "spoc_compress" }); break;
        case 1: a = with_in ({ "spoc_decompress" }); break;
        case 2: a = { "spoc_diff", in, good }; data = ""; break;
        case 3: a = { "spoc_diff", good, in }; data = ""; break;
        case 4: a = with_in ({ "spoc_filter", "--unique-xyz" }); break;
        case 5: a = with_in ({ "spoc_info", s.coin () ? "-j" : "-q" }); break;
        case 6: a = { "spoc_merge", good, in, good }; data = ""; break;
        case 7: if (file) a = { "spoc_srs", "-s", "new", in, cli::path ("out.spoc") }; else a = { "spoc_srs", "-s", "new" }; break;
        case 8: if (file) a = { "spoc_tile", "-p", dir + "/t", in }; else a = { "spoc_tile", "-p", dir + "/t" }; break;
        case 9: a = with_in ({ "spoc_tool", s.coin () ? "--recenter-xyz" : "--get-field=c" }); break;
        case 10: a = with_in ({ "spoc_transform", "--add-x=1" }); break;
        case 11: a = { "noop" }; data = b; break;
        case 12: a = { "stream_averaging" }; data = b; break;
        default: a = with_in ({ "spoc_srs" }); break;
    }
    const auto r = cli::run (a, data, o);
    CHECK_MSG (r.exited () && r.status != 77, "'" << cli::shell_text (a) << "' did not end cleanly on " << b.size () << " damaged bytes: " << r.text ());
    if (app == 13)
    {
        // prints what the header says, and only needs the header
        src i (b);
        const bool sig = i.bytes (4) == "SPOC" && i.un (1) == 0 && i.un (1) == 1;
        const auto w = i.bytes (i.un (2));
        i.un (1); i.un (8); i.un (1);
        if (sig && i.ok) CHECK_MSG (r.ok () && r.out == w + "\n", "spoc_srs does not print the header's WKT: " << r.text ());
        else CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), "spoc_srs accepted a malformed header: " << r.text ());
        return;
    }
    if (v == MALFORMED)
    {
        CHECK_MSG (r.rejected (), "'" << cli::shell_text (a) << "' accepted " << b.size () << " bytes that are not a complete SPOC file: " << r.text ());
        CHECK_MSG (!r.err.empty (), "'" << cli::shell_text (a) << "' failed without a message");
        if (app != 10 && app != 11 && app != 5 && app != 9)
            CHECK_MSG (r.out.empty (), "'" << cli::shell_text (a) << "' produced output from a malformed file");
    }
    else if (app == 2 || app == 3)
        CHECK (r.status == 0 || r.status == 255);
    else if (app != 6 && !(app == 8 && d.r.empty ()))
        CHECK_MSG (r.ok (), "'" << cli::shell_text (a) << "' refused a complete SPOC file: " << r.text ());
}

PBT_MAIN
