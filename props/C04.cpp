// C04: files are self-delimiting; readers and writers honour the compressed flag
#include "lib.h"
using namespace lib;

template<typename F> static bool throws (F f)
{
    try { f (); }
    catch (const std::exception &) { return true; }
    return false;
}

// A stream that cannot go back and delivers its bytes in pieces, like a pipe
struct pipe_buf : std::streambuf
{
    std::string d;
    size_t at = 0, piece = 1;
    int underflow () override
    {
        if (at == d.size ()) return traits_type::eof ();
        const size_t n = std::min (piece, d.size () - at);
        setg (&d[at], &d[at], &d[at] + n);
        at += n;
        return traits_type::to_int_type (*gptr ());
    }
    size_t taken () const { return at - (egptr () - gptr ()); }
};

PROP (sequences, 9000, "at least two files, of either mode, in one stream; read back by a mix of readers")
{
    gen_opts o;
    o.max_points = 80;
    o.max_extras = 130;
    const unsigned n = s.chance (1, 20) ? s.range (6, 60) : s.range (1, 5);
    const unsigned big = s.rare (30) ? s.draw (std::min (n, 5u)) : n;
    std::vector<cloud> cs;
    std::ostringstream os;
    std::vector<size_t> ends;
    const std::string lead (s.pick ({ 0, 0, 1, 7 }), 'x');
    os << lead;
    for (unsigned k = 0; k < n; ++k)
    {
        cs.push_back (gen_cloud (s, o));
        if (k == big)
        {
            cs.back ().r = gen_records (s, s.range (20000, 120000), s.draw (3), o);
            s.label ("a large file among them");
        }
        NOTE (s, cs.back () << "; ");
        const auto f = to_file (cs.back ());
        switch (s.draw (3))
        {
            case 0: spoc::io::write_spoc_file (os, f); break;
            case 1: cs.back ().compressed ? spoc::io::write_spoc_file_compressed (os, f) : spoc::io::write_spoc_file_uncompressed (os, f); break;
            default: os << encode (cs.back (), s.range (1, 9), s.coin ()); break; // another conforming writer
        }
        ends.push_back (os.str ().size ());
    }
    std::string trail;
    switch (s.draw (4))
    {
        case 0: break;
        case 1: trail = "SPOC"; break;
        default: { auto b = s.sub (); const size_t m = b.below (3000); for (size_t k = 0; k < m; ++k) trail += char (b.next ()); }
    }
    s.label_if (trail.empty (), "nothing follows");
    s.label_if (n > 1, "several files");
    if (n > 1) s.nontrivial ();
    const std::string all = os.str () + trail;
    const bool pipe = s.chance (1, 3);
    std::istringstream seekable (all);
    pipe_buf pb;
    pb.d = all;
    pb.piece = s.pick ({ 1, 7, 64, 1000, 4096, 1 << 20 });
    std::istream unseekable (&pb);
    std::istream &is = pipe ? unseekable : seekable;
    const auto where = [&] { return pipe ? pb.taken () : size_t (is.tellg ()); };
    s.label (pipe ? "a stream like a pipe" : "a seekable stream");
    is.ignore (lead.size ());
    for (unsigned k = 0; k < n; ++k)
    {
        const auto &c = cs[k];
        std::ostringstream what;
        what << "file " << k << " of " << n << " in the stream";
        const unsigned how = s.draw (3);
        if (how == 0)
            check_same (from_file (spoc::io::read_spoc_file (is)), c, what.str ());
        else if (how == 1)
            check_same (from_file (c.compressed ? spoc::io::read_spoc_file_compressed (is) : spoc::io::read_spoc_file_uncompressed (is)), c, what.str ());
        else
        {
            const auto at = where ();
            const auto h = spoc::header::read_header (is);
            CHECK_MSG (where () - at == 4 + 2 + 2 + c.wkt.size () + 1 + 8 + 1, what.str () << ": the header reader is not at the end of the header");
            CHECK (h.wkt == c.wkt && h.extra_fields == c.extras () && h.total_points == c.r.size () && bool (h.compressed) == c.compressed);
            cloud d = c;
            if (c.compressed)
                d.r = from_prs (spoc::io::read_compressed_points (is, h.total_points, h.extra_fields));
            else if (s.coin ())
                d.r = from_prs (spoc::io::read_uncompressed_points (is, h.total_points, h.extra_fields));
            else
                for (auto &r : d.r) r = from_pr (spoc::point_record::read_point_record (is, h.extra_fields));
            check_same (d, c, what.str () + " (by parts)");
        }
        CHECK_MSG (is.good (), what.str () << ": the stream is not good after the file");
        CHECK_MSG (where () == ends[k], what.str () << " ends at offset " << ends[k] << " but the reader stopped at " << where ());
    }
    std::ostringstream rest;
    if (is.peek () != EOF) rest << is.rdbuf ();
    CHECK_MSG (rest.str () == trail, "what follows the files is not left in the stream");
}

PROP (modes, 6000, "a file handed to the readers and writers of both modes")
{
    gen_opts o;
    o.max_extras = 12;
    const auto c = gen_cloud (s, o);
    NOTE (s, c);
    s.nontrivial ();
    s.label (c.compressed ? "compressed" : "uncompressed");
    const auto f = to_file (c);
    const auto bytes = encode (c);
    // Writers
    {
        std::ostringstream a, b, w;
        const bool ta = throws ([&] { spoc::io::write_spoc_file_uncompressed (a, f); });
        const bool tb = throws ([&] { spoc::io::write_spoc_file_compressed (b, f); });
        spoc::io::write_spoc_file (w, f);
        CHECK_MSG (ta == c.compressed, "the uncompressed writer " << (ta ? "refused an uncompressed" : "accepted a compressed") << " file");
        CHECK_MSG (tb == !c.compressed, "the compressed writer " << (tb ? "refused a compressed" : "accepted an uncompressed") << " file");
        CHECK_MSG ((c.compressed ? a : b).str ().empty (), "a refusing writer wrote something");
        CHECK_MSG ((c.compressed ? b : a).str () == w.str (), "the general writer does not write what the writer for the file's mode writes");
        check_same (decode_all (w.str (), "the general writer's output"), c, "the general writer");
    }
    // Readers
    {
        std::istringstream a (bytes), b (bytes), w (bytes);
        const bool ta = throws ([&] { check_same (from_file (spoc::io::read_spoc_file_uncompressed (a)), c, "the uncompressed reader"); });
        const bool tb = throws ([&] { check_same (from_file (spoc::io::read_spoc_file_compressed (b)), c, "the compressed reader"); });
        CHECK_MSG (ta == c.compressed, "the uncompressed reader " << (ta ? "refused an uncompressed" : "accepted a compressed") << " file");
        CHECK_MSG (tb == !c.compressed, "the compressed reader " << (tb ? "refused a compressed" : "accepted an uncompressed") << " file");
        check_same (from_file (spoc::io::read_spoc_file (w)), c, "the general reader");
    }
    // Changing the flag changes the mode and nothing else
    {
        auto g = f;
        g.set_compressed (!c.compressed);
        cloud d = c;
        d.compressed = !c.compressed;
        check_same (decode_all (write (g), "the file written after changing the flag"), d, "changing the flag");
        check_same (from_file (read (write (g))), d, "changing the flag and reading back");
    }
}

PBT_MAIN
