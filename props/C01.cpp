// C01: uncompressed files are lossless and have the documented byte layout
#include "lib.h"
using namespace lib;

static void check_cloud (pbt::Source &s, const cloud &c)
{
    NOTE (s, c);
    s.label_if (c.r.empty (), "no points");
    s.label_if (c.extras () >= 123, "123+ extra fields");
    s.label_if (c.extras () > 0, "extra fields");
    s.label_if (c.wkt.size () > 255, "wkt longer than 255");
    s.label_if (c.wkt.size () > 32767, "wkt longer than 32767");
    s.label_if (c.r.size () * (40 + 8 * c.extras ()) > 1024, "more than 1 KiB of records");
    if (c.r.size () > 1) s.nontrivial ();
    const auto want = encode (c);
    const auto f = to_file (c);

    // Writing yields the documented bytes
    std::ostringstream o1, o2;
    spoc::io::write_spoc_file (o1, f);
    spoc::io::write_spoc_file_uncompressed (o2, f);
    CHECK_MSG (o1.str () == want, "write_spoc_file wrote " << o1.str ().size () << " bytes that differ from the documented layout (" << want.size () << " bytes)");
    CHECK_MSG (o2.str () == want, "write_spoc_file_uncompressed differs from the documented layout");

    // Record-wise writing too
    std::ostringstream o3;
    spoc::header::write_header (o3, spoc::header::header (c.wkt, c.extras (), c.r.size (), false));
    for (const auto &r : c.r) spoc::point_record::write_point_record (o3, to_pr (r));
    CHECK_MSG (o3.str () == want, "header and record writers differ from the documented layout");

    // Reading the documented bytes yields the contents
    {
        std::istringstream i (want);
        check_same (from_file (spoc::io::read_spoc_file (i)), c, "read_spoc_file");
    }
    {
        std::istringstream i (want);
        check_same (from_file (spoc::io::read_spoc_file_uncompressed (i)), c, "read_spoc_file_uncompressed");
    }
    {
        std::istringstream i (want);
        const auto h = spoc::header::read_header (i);
        CHECK (h.wkt == c.wkt);
        CHECK (h.extra_fields == c.extras ());
        CHECK (h.total_points == c.r.size ());
        CHECK (!h.compressed);
        CHECK (h == f.get_header ());
        CHECK (!(h != f.get_header ()));
        std::vector<rec> v;
        for (size_t k = 0; k < h.total_points; ++k)
            v.push_back (from_pr (spoc::point_record::read_point_record (i, h.extra_fields)));
        check_same_records (v, c.r, "read_point_record");
        CHECK (i.good ());
        CHECK (i.get () == EOF);
    }
}

PROP (roundtrip, 60000, "files with at least two records; all field values, WKT lengths 0..65535 and 0..255 extra fields are generated")
{
    gen_opts o;
    o.max_extras = 255;
    o.max_points = 300;
    check_cloud (s, gen_cloud (s, o, 0));
}

PROP (buffer_edges, 3000, "record counts chosen around multiples of power-of-two byte counts for the record size")
{
    cloud c;
    c.wkt = s.coin () ? "wkt" : "";
    gen_opts o;
    const unsigned extras = gen_extras (s, 255);
    const uint64_t rs = 40 + 8 * extras;
    const uint64_t bytes = uint64_t (1) << s.range (9, 16);
    const uint64_t n = std::max<int64_t> (0, int64_t (bytes / rs * s.range (1, 3)) + s.irange (-2, 2));
    c.r = gen_records (s, n, extras, o);
    check_cloud (s, c);
}

PROP (large, 12, "files of 30000 to 250000 records")
{
    cloud c;
    gen_opts o;
    const unsigned extras = s.draw (4);
    c.r = gen_records (s, s.range (30000, 250000), extras, o);
    c.wkt = gen_wkt (s);
    check_cloud (s, c);
}

PROP_CPU (million, 2, "more than 2^20 records", 60)
{
    cloud c;
    gen_opts o;
    o.constant_columns = false;
    c.r = gen_records (s, s.range (1048577, 1200000), s.draw (3), o);
    check_cloud (s, c);
}

PBT_MAIN
