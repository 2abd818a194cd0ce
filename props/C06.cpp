// C06: a failure to write output is reported
#include "cli.h"
#include "lib.h"
using namespace lib;

// A sink that accepts a number of bytes and then fails, in one of the ways a stream buffer can
struct failing_buf : std::streambuf
{
    uint64_t limit;   // bytes accepted
    unsigned how;     // 0: fail at once; 1: buffered, fail when flushed; 2: throw
    bool sync_fails;  // accept everything, but report failure when synchronised
    std::string got, pending;
    bool failed = false;
    failing_buf (uint64_t limit, unsigned how, bool sync_fails) : limit (limit), how (how), sync_fails (sync_fails) {}
    bool accept (const char *p, size_t n)
    {
        if (failed) return false;
        const size_t room = limit - got.size ();
        got.append (p, std::min<size_t> (room, n));
        if (n > room)
        {
            failed = true;
            if (how == 2) throw std::runtime_error ("device error");
            return false;
        }
        return true;
    }
    bool drain ()
    {
        const bool ok = accept (pending.data (), pending.size ());
        pending.clear ();
        return ok;
    }
    int_type overflow (int_type c) override
    {
        if (c == EOF) return 0;
        const char x = char (c);
        return xsputn (&x, 1) == 1 ? c : EOF;
    }
    std::streamsize xsputn (const char *p, std::streamsize n) override
    {
        if (how == 1)
        {
            if (failed) return 0;
            pending.append (p, n);
            if (pending.size () > 512 && !drain ()) return 0;
            return n;
        }
        const size_t before = got.size ();
        return accept (p, n) ? n : std::streamsize (got.size () - before);
    }
    int sync () override
    {
        const bool ok = drain ();
        if (sync_fails) { failed = true; return -1; }
        return ok ? 0 : -1;
    }
};

// Run a writer into a failing sink; full is what it writes when nothing fails
template<typename F> static void try_writer (const std::string &full, uint64_t limit, unsigned how, bool sync_fails, const std::string &what, F f)
{
    failing_buf b (limit, how, sync_fails);
    std::ostream o (&b);
    bool threw = false;
    try { f (o); }
    catch (const std::exception &) { threw = true; }
    const bool all = b.got == full && !b.failed;
    CHECK_MSG (threw || all, what << " reported success but only " << b.got.size () << " of " << full.size () << " bytes were delivered (sink accepts " << limit
        << ", failure kind " << how << (sync_fails ? ", sync fails" : "") << ")");
    // and success is possible
    if (limit >= full.size () && !sync_fails)
        CHECK_MSG (!threw, what << " failed although every byte was accepted");
    CHECK_MSG (full.compare (0, b.got.size (), b.got) == 0 && b.got.size () <= full.size (), what << ": the bytes delivered are not a prefix of the file");
}

PROP (writers, 700, "every byte position (spread, for larger output) at which the sink fails, for each writer and kind of failure")
{
    gen_opts o;
    o.max_points = 20;
    o.max_extras = 40;
    const auto c = gen_cloud (s, o, -1, false);
    NOTE (s, c);
    s.label (c.compressed ? "compressed" : "uncompressed");
    s.nontrivial ();
    const auto f = to_file (c);
    const unsigned how = s.draw (3);
    const unsigned which = s.draw (4);
    std::function<void (std::ostream &)> w;
    std::string name;
    switch (which)
    {
        case 0: name = "write_spoc_file"; w = [&] (std::ostream &x) { spoc::io::write_spoc_file (x, f); }; break;
        case 1:
            name = c.compressed ? "write_spoc_file_compressed" : "write_spoc_file_uncompressed";
            w = [&] (std::ostream &x) { if (c.compressed) spoc::io::write_spoc_file_compressed (x, f); else spoc::io::write_spoc_file_uncompressed (x, f); };
            break;
        case 2: name = "write_header"; w = [&] (std::ostream &x) { spoc::header::write_header (x, f.get_header ()); }; break;
        default:
            if (c.r.empty ()) s.discard ();
            name = "write_point_record";
            w = [&] (std::ostream &x) { spoc::point_record::write_point_record (x, to_pr (c.r[0])); };
    }
    s.label (name);
    std::ostringstream os;
    w (os);
    const auto full = os.str ();
    const size_t step = std::max<size_t> (1, full.size () / (pbt::env ().variant == "rel" ? 150 : 30));
    const size_t near = pbt::env ().variant == "rel" ? 60 : 10;
    for (size_t k = s.draw (step); k < full.size (); k += (k < near || full.size () - k < near) ? 1 : step)
        try_writer (full, k, how, false, name, w);
    try_writer (full, full.size (), how, false, name, w);
    try_writer (full, full.size () + 1000, how, false, name, w);
    try_writer (full, full.size () + 1000, how, true, name, w);
    // A stream that has already failed
    std::ostringstream dead;
    dead.setstate (std::ios::failbit);
    bool threw = false;
    try { w (dead); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, name << " reported success on a stream that had already failed");
}

PROP (large, 120, "a file of 1000 to 60000 records is written to a sink that fails at a position within it, for each writer and kind of failure")
{
    gen_opts o;
    cloud c;
    c.compressed = s.coin ();
    c.r = gen_records (s, s.range (1000, s.chance (1, 4) ? 60000 : 8000), s.draw (3), o);
    NOTE (s, c.r.size () << " records");
    s.label (c.compressed ? "compressed" : "uncompressed");
    s.nontrivial ();
    const auto f = to_file (c);
    const auto w = [&] (std::ostream &x) { spoc::io::write_spoc_file (x, f); };
    std::ostringstream os;
    w (os);
    const auto full = os.str ();
    for (int k = 0; k < 4; ++k)
    {
        const size_t back = s.pick ({ size_t (1), size_t (8), size_t (600), full.size () });
        try_writer (full, full.size () - 1 - s.draw (std::min (back, full.size ())), s.draw (3), false, "write_spoc_file", w);
    }
    try_writer (full, full.size () + 1000, s.draw (3), s.coin (), "write_spoc_file", w);
}

PROP (deflate, 400, "the stream forms of the compression functions write to a sink that fails at a chosen byte")
{
    pbt::Bulk b = s.sub ();
    const uint64_t n = s.chance (1, 16) ? s.range (1 << 20, 3 << 20) : s.range (0, 5000);
    std::string raw (n, 0);
    const unsigned kind = s.draw (3);
    for (auto &x : raw) x = kind == 0 ? char (b.next ()) : kind == 1 ? char (b.below (3)) : 'a';
    NOTE (s, n << " bytes of kind " << kind);
    const auto z = zdeflate (raw, 6);
    const unsigned how = s.draw (3);
    std::string zfull;
    {
        std::istringstream i (raw);
        std::ostringstream o;
        spoc::compression::compress (i, o, 6);
        zfull = o.str ();
    }
    s.nontrivial ();
    for (unsigned k = 0; k < 8; ++k)
    {
        const bool deflating = k % 2;
        const std::string &full = deflating ? zfull : raw;
        if (full.empty ()) continue;
        const uint64_t limit = k < 2 ? full.size () - 1 : k < 4 ? 0 : s.draw (full.size ());
        failing_buf buf (limit, how == 1 ? 0 : how, false);
        std::ostream o (&buf);
        std::istringstream i (deflating ? raw : z);
        bool threw = false;
        bool o_good = true;
        try
        {
            if (deflating) spoc::compression::compress (i, o, 6); else spoc::compression::decompress (i, o);
            o_good = bool (o);
        }
        catch (const std::exception &) { threw = true; }
        // The sink is unbuffered, so every byte it refused was refused while the function ran
        CHECK_MSG (threw, (deflating ? "compress" : "decompress") << " reported success with " << buf.got.size () << " of " << full.size () << " bytes delivered"
            << (o_good ? "" : ", leaving only the stream's state to tell"));
    }
}

// ---- applications ----
struct job
{
    std::string name;
    std::vector<std::string> args;
    std::string in;
    std::string out; // file it names, or empty for standard output
    bool tiles = false;
};

static job gen_job (pbt::Source &s, const cloud &c0)
{
    static const char *names[] = { "compress", "decompress", "filter", "info", "merge", "srs set", "srs print", "tile", "tool", "get-field", "transform", "noop", "info json", "info part", "srs print from a pipe" };
    job j;
    cloud c = c0;
    const unsigned k = s.draw (15);
    j.name = names[k];
    // the input and the output may be named or not
    const bool in_file = s.chance (2, 3), out_file = in_file && s.coin ();
    if (k == 0 || k == 10 || k == 11) c.compressed = false;
    if (k == 1) c.compressed = true;
    const auto in = cli::path ("in.spoc"), out = cli::path ("out.spoc"), in2 = cli::path ("in2.spoc"), field = cli::path ("field.txt");
    cli::put (in, encode (c));
    cli::put (in2, encode (c));
    auto source = [&] (std::vector<std::string> a) { if (in_file) a.push_back (in); else j.in = encode (c); return a; };
    auto io = [&] (std::vector<std::string> a) { a = source (a); if (out_file) { a.push_back (out); j.out = out; } return a; };
    switch (k)
    {
        case 0: j.args = io ({ "spoc_compress" }); break;
        case 1: j.args = io ({ "spoc_decompress" }); break;
        case 2: j.args = io ({ "spoc_filter", s.pick<std::string> ({ "-u", "-s0.001", "--remove-class=999999", "--remove-coords=x > 9e99" }) }); break;
        case 3: j.args = source ({ "spoc_info", "-q" }); break;
        case 4: j.args = { "spoc_merge", "-q", in, in2 }; break;
        case 5: j.args = { "spoc_srs", "-s", "some new text" }; if (out_file) { j.args.push_back (in); j.args.push_back (out); j.out = out; } else j.in = encode (c); break;
        case 6: j.args = { "spoc_srs", in, in2, in }; break;
        case 7:
            j.args = { "spoc_tile", "-t", "3", "-p", cli::path ("tiles") + "/t" };
            if (s.coin ()) j.args.push_back ("-f");
            j.args = source (j.args);
            j.tiles = true;
            break;
        case 8:
        {
            std::vector<std::string> a { "spoc_tool" };
            switch (s.draw (6))
            {
                case 0: a.push_back ("--recenter-xyz"); break;
                case 1: a.push_back ("--recenter-xy"); break;
                case 2: a.push_back ("--subtract-min-xyz"); break;
                case 3: a.push_back ("--resize-extra=3"); break;
                case 4: a.push_back ("--upsample-classifications=" + in2); a.push_back ("--resolution=1"); break;
                default:
                {
                    std::string values;
                    for (size_t i = 0; i < c.r.size (); ++i) values += std::to_string (i % 100) + "\n";
                    cli::put (field, values);
                    a.push_back ("--set-field=i");
                    a.push_back ("--field-filename=" + field);
                }
            }
            j.args = io (a);
            break;
        }
        case 9: j.args = source ({ "spoc_tool", s.pick<std::string> ({ "--get-field=x", "--get-field=c", "--get-field=i", "--get-field=g" }) }); break;
        case 10: j.args = io ({ "spoc_transform", s.pick<std::string> ({ "--add-x=1", "--rotate-z=30", "--set=c,7", "--quantize-xyz=0.1" }) }); break;
        case 11: j.args = { "noop" }; j.in = encode (c); break;
        case 12: j.args = source ({ "spoc_info", "-j" }); break;
        case 13: j.args = source ({ "spoc_info", s.pick<std::string> ({ "-c", "-qjc", "-jm", "-a", "-m", "-qj" }) }); break;
        default: j.args = { "spoc_srs" }; j.in = encode (c); break;
    }
    return j;
}

PROP (applications, 900, "an application whose output is cut off by a file-size limit after a chosen number of bytes, or goes to a full device")
{
    gen_opts o;
    o.kind = SURVEY;
    o.max_extras = 12;
    o.max_points = s.coin () ? 40 : 1200;
    o.min_points = 1;
    auto c = gen_cloud (s, o, -1, false);
    if (c.wkt.find ('\0') != std::string::npos) c.wkt = "w";
    const auto j = gen_job (s, c);
    NOTE (s, j.name << ": " << c);
    s.label (j.name);
    s.nontrivial ();
    cli::fresh_dir ("tiles");
    // Without a fault
    cli::opts good;
    const auto stdout_file = cli::path ("stdout.bin");
    good.out_file = stdout_file;
    const auto r0 = cli::run (j.args, j.in, good);
    CHECK_MSG (r0.ok (), "'" << cli::shell_text (j.args) << "' failed without a fault: " << r0.text ());
    std::map<std::string, std::string> want;
    uint64_t biggest = 0;
    if (j.tiles)
        for (const auto &f : cli::ls (cli::path ("tiles"))) want[cli::path ("tiles") + "/" + f] = cli::get (cli::path ("tiles") + "/" + f);
    else if (!j.out.empty ()) want[j.out] = cli::get (j.out);
    else want[stdout_file] = cli::get (stdout_file);
    for (const auto &w : want) biggest = std::max<uint64_t> (biggest, w.second.size ());
    CHECK (biggest > 0);
    // With faults
    for (unsigned k = 0; k < 5; ++k)
    {
        cli::opts bad;
        auto args = j.args;
        std::string how;
        const unsigned kind = s.draw (8);
        bool devfull = false;
        if (kind == 0 && !j.tiles)
        {
            devfull = true;
            how = "/dev/full";
            if (j.out.empty ()) bad.out_file = "/dev/full";
            else { for (auto &a : args) if (a == j.out) a = "/dev/full"; bad.out_file = stdout_file; }
        }
        else
        {
            bad.out_file = stdout_file;
            bad.fsize = kind == 1 ? 0 : kind == 2 ? biggest - 1 : kind == 3 ? biggest : kind == 4 && biggest > 40 ? biggest - 1 - s.draw (40) : s.draw (biggest);
            how = "a limit of " + std::to_string (bad.fsize) + " bytes";
        }
        s.label (devfull ? "full device" : "size limit");
        for (const auto &w : want) unlink (w.first.c_str ());
        const auto r = cli::run (args, j.in, bad);
        CHECK_MSG (r.exited () && r.status != 77, "'" << cli::shell_text (args) << "' did not end cleanly under " << how << ": " << r.text ());
        bool all = !devfull;
        if (all)
            for (const auto &w : want) all = all && cli::get (w.first) == w.second;
        CHECK_MSG (!r.ok () || all, "'" << cli::shell_text (args) << "' exited 0 under " << how << " without delivering all of its output");
        if (!r.ok ()) CHECK_MSG (!r.err.empty (), "'" << cli::shell_text (args) << "' failed without a message under " << how);
        if (!devfull && uint64_t (bad.fsize) >= biggest) CHECK_MSG (r.ok (), "'" << cli::shell_text (args) << "' failed under " << how << " although its output fits: " << r.text ());
    }
}

PROP (endless, 40, "generate_infinite_points is cut off after a chosen number of bytes, or its reader goes away")
{
    cli::opts o;
    o.cpu_s = 20;
    s.nontrivial ();
    NOTE (s, "endless");
    switch (s.draw (2))
    {
        case 0: o.out_file = cli::path ("stdout.bin"); o.fsize = s.range (0, 200000); break;
        default: o.out_file = "/dev/full"; break;
    }
    const auto r = cli::run ({ "generate_infinite_points" }, "", o);
    CHECK_MSG (r.rejected (), "generate_infinite_points did not fail when its output stopped accepting data: " << r.text ());
}

PBT_MAIN
