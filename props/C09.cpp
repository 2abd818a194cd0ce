// C09: contents the format cannot represent are refused, never truncated
#include "cli.h"
#include "lib.h"
using namespace lib;

template<typename F> static bool throws (F f)
{
    try { f (); }
    catch (const std::exception &) { return true; }
    return false;
}

// Whatever was written must not pass for a complete file
static void not_decodable (const std::string &b, const std::string &what)
{
    cloud c;
    size_t at = 0;
    const auto err = b.empty () ? "empty" : decode (b, c, at);
    CHECK_MSG (!err.empty (), what << " left behind " << b.size () << " bytes that read back as " << c);
}

static void check_write (const cloud &c, const spoc::file::spoc_file &f, const std::string &what)
{
    const bool fits = c.wkt.size () <= 65535 && c.extras () <= 255;
    for (int k = 0; k < 4; ++k)
    {
        std::ostringstream o;
        auto g = f;
        cloud d = c;
        if (k == 3) { d.compressed = !d.compressed; g.set_compressed (d.compressed); }
        const bool threw = throws ([&] {
            switch (k)
            {
                case 0: case 3: spoc::io::write_spoc_file (o, g); break;
                case 1: c.compressed ? spoc::io::write_spoc_file_compressed (o, g) : spoc::io::write_spoc_file_uncompressed (o, g); break;
                default: spoc::header::write_header (o, g.get_header ()); break;
            }
        });
        CHECK_MSG (threw == !fits, what << ": writing (" << k << ") " << c.extras () << " extra fields and a WKT of " << c.wkt.size () << " bytes " << (threw ? "was refused" : "was accepted"));
        if (!fits) not_decodable (o.str (), what);
        else if (k != 2)
        {
            check_same (decode_all (o.str (), what), d, what);
            check_same (from_file (read (o.str ())), d, what + ", read back");
        }
    }
}

static uint64_t gen_wkt_size (pbt::Source &s)
{
    switch (s.draw (4))
    {
        case 0: return s.range (0, 20);
        case 1: return 65535 + s.irange (-2, 3);
        case 2: return s.pick ({ 65536, 65537, 65535 * 2 + 1, 131072, 131080, 196608 + 5, 1 << 24 }) + s.draw (3);
        default: return s.range (65536, 300000);
    }
}
static unsigned gen_extra_size (pbt::Source &s)
{
    switch (s.draw (4))
    {
        case 0: return s.range (0, 5);
        case 1: return 255 + s.irange (-1, 3);
        case 2: return s.pick ({ 256, 257, 258, 260, 511, 512, 513, 768, 1024 });
        default: return s.range (256, 1300);
    }
}

PROP (library, 2500, "files with WKT or extra-field counts at or beyond the limits, reached through constructors, setters, resizing and pushing")
{
    cloud c;
    c.compressed = s.coin ();
    const bool big_wkt = s.coin ();
    c.wkt = std::string (big_wkt ? gen_wkt_size (s) : s.range (0, 20), char ('a' + s.draw (26)));
    const unsigned e = !big_wkt || s.chance (1, 4) ? gen_extra_size (s) : s.range (0, 3);
    c.r = gen_records (s, s.range (1, 3), e, gen_opts ());
    NOTE (s, "wkt " << c.wkt.size () << ", extras " << e);
    s.label (c.wkt.size () > 65535 ? "wkt beyond" : c.wkt.size () == 65535 ? "wkt at limit" : "wkt within");
    s.label (e > 255 ? "extras beyond" : e == 255 ? "extras at limit" : "extras within");
    if (c.wkt.size () >= 65535 || e >= 255) s.nontrivial ();
    spoc::file::spoc_file f;
    std::string what;
    const bool ok = !throws ([&] {
    switch (s.draw (4))
    {
        case 0: what = "constructor"; f = to_file (c); break;
        case 1:
        {
            what = "setters";
            f.set_wkt (c.wkt);
            f.set_compressed (c.compressed);
            f.set_point_records (to_prs (c.r));
            break;
        }
        case 2:
        {
            what = "push_back";
            f.set_wkt (c.wkt);
            f.set_compressed (c.compressed);
            for (const auto &r : c.r) f.push_back (to_pr (r));
            break;
        }
        default:
        {
            what = "resize_extra_fields";
            auto r = c.r;
            for (auto &x : r) x.e.resize (std::min<size_t> (x.e.size (), 2));
            f = spoc::file::spoc_file (c.wkt, c.compressed, to_prs (r));
            f.resize_extra_fields (e);
            for (auto &x : c.r) for (size_t k = 2; k < x.e.size (); ++k) x.e[k] = 0;
            break;
        }
    }
    });
    s.label (what);
    if (!ok) { CHECK_MSG (c.wkt.size () > 65535 || e > 255, what << " refused contents that fit"); return; }
    check_write (c, f, what);
}

PROP (headers, 2500, "headers with WKT sizes at or beyond the limit, built at once or assigned later")
{
    const auto n = gen_wkt_size (s);
    const std::string w (n, 'w');
    NOTE (s, "wkt " << n);
    if (n >= 65535) s.nontrivial ();
    const bool fits = n <= 65535;
    const unsigned e = s.range (0, 255);
    const uint64_t total = s.coin () ? s.u64 () : s.range (0, 1000);
    const bool z = s.coin ();
    CHECK_MSG (throws ([&] { spoc::header::header h (w, e, total, z); }) == !fits, "the constructor with a WKT of " << n << " bytes");
    spoc::header::header h ("", e, total, z);
    h.wkt = w;
    CHECK_MSG (h.is_valid () == fits, "is_valid with a WKT of " << n << " bytes");
    std::ostringstream o;
    const bool threw = throws ([&] { spoc::header::write_header (o, h); });
    CHECK_MSG (threw == !fits, "write_header with a WKT of " << n << " bytes " << (threw ? "throws" : "succeeds"));
    if (!fits) CHECK_MSG (o.str ().empty (), "write_header wrote " << o.str ().size () << " bytes of a header it refuses");
    else
    {
        CHECK (o.str () == enc_header (w, e, total, z));
        std::istringstream i (o.str ());
        const auto g = spoc::header::read_header (i);
        CHECK_MSG (g == h && !(g != h) && g.wkt == w && g.extra_fields == e && g.total_points == total && bool (g.compressed) == z, "the header read back differs");
    }
}

PROP (applications, 500, "spoc_srs with WKTs and spoc_tool with extra-field sizes and indexes at or beyond the limits")
{
    gen_opts o;
    o.max_points = 5;
    o.min_points = 1;
    cloud c = gen_cloud (s, o, -1, false);
    const auto in = cli::path ("in.spoc"), out = cli::path ("out.spoc"), vals = cli::path ("vals.txt");
    unlink (out.c_str ());
    const auto data = encode (c);
    cli::put (in, data);
    s.nontrivial ();
    const unsigned which = s.draw (4);
    std::vector<std::string> a;
    cloud want = c;
    bool fits = true;
    const bool to_file_ = s.coin ();
    std::string stdin_data;
    switch (which)
    {
        case 0: case 1:
        {
            const uint64_t n = s.coin () ? 65535 + s.irange (-2, 4) : s.range (65530, 120000);
            want.wkt = std::string (n, 'W');
            fits = n <= 65535;
            a = { "spoc_srs", "-s", want.wkt };
            if (to_file_) { a.push_back (in); a.push_back (out); }
            else stdin_data = data;
            NOTE (s, "srs " << n);
            s.label (fits ? "srs within" : "srs beyond");
            break;
        }
        case 2:
        {
            const int n = s.coin () ? int (s.pick ({ 254, 255, 256, 257, 511, 512, -1, -2, 65536, 0 })) : int (s.irange (-5, 600));
            fits = n >= 0 && n <= 255;
            if (fits) for (auto &r : want.r) r.e.resize (n, 0);
            a = { "spoc_tool", "--resize-extra=" + std::to_string (n), in };
            if (to_file_) a.push_back (out);
            NOTE (s, "resize " << n);
            s.label (fits ? "resize within" : "resize beyond");
            break;
        }
        default:
        {
            const unsigned j = s.coin () ? s.pick ({ 253, 254, 255, 256, 257, 511 }) : s.range (0, 600);
            std::string t;
            for (auto &r : want.r)
            {
                const uint64_t v = s.draw (1000);
                t += std::to_string (v) + "\n";
                if (r.e.size () <= j) r.e.resize (j + 1, 0);
                r.e[j] = v;
            }
            fits = want.extras () <= 255;
            cli::put (vals, t);
            a = { "spoc_tool", "--set-field=e" + std::to_string (j), "--field-filename=" + vals, in };
            if (to_file_) a.push_back (out);
            NOTE (s, "set e" << j);
            s.label (fits ? "set-field within" : "set-field beyond");
        }
    }
    const auto r = cli::run (a, stdin_data);
    auto shown = a;
    for (auto &x : shown) if (x.size () > 60) x = x.substr (0, 20) + "...";
    const std::string what = "'" + cli::shell_text (shown) + "'";
    const auto got = to_file_ ? cli::get (out) : r.out;
    CHECK_MSG (r.exited () && r.status != 77, what << ": " << r.text ());
    if (fits)
    {
        CHECK_MSG (r.ok (), what << " refused contents that fit: " << r.text ());
        check_same (decode_all (got, what), want, what);
    }
    else
    {
        CHECK_MSG (!r.ok (), what << " succeeded with contents the format cannot represent");
        CHECK_MSG (!r.err.empty (), what << " failed without a message");
        not_decodable (got, what);
    }
    CHECK_MSG (cli::get (in) == data, what << " changed its input");
}

PBT_MAIN
