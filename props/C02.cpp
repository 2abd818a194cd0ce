// C02: compressed files are lossless
#include "lib.h"
using namespace lib;

static void check_cloud (pbt::Source &s, const cloud &c)
{
    NOTE (s, c);
    s.label_if (c.r.empty (), "no points");
    s.label_if (c.extras () > 0, "extra fields");
    unsigned zero_cols = 0;
    for (unsigned k = 0; k < 9 + c.extras (); ++k)
    {
        const auto col = column (c.r, k);
        if (col.find_first_not_of ('\0') == std::string::npos) ++zero_cols;
    }
    s.label_if (zero_cols && !c.r.empty (), "some all-zero columns");
    s.label_if (zero_cols == 9 + c.extras () && !c.r.empty (), "every column all zero");
    bool negz = false;
    for (const auto &r : c.r) negz |= (r.x == 0 && std::signbit (r.x)) || (r.y == 0 && std::signbit (r.y)) || (r.z == 0 && std::signbit (r.z));
    s.label_if (negz, "negative zero");
    if (c.r.size () > 1 && zero_cols < 9) s.nontrivial ();
    const auto f = to_file (c);

    // Written bytes decode, by an independent decoder, to the contents
    std::ostringstream o1, o2;
    spoc::io::write_spoc_file (o1, f);
    if (c.r.size () > 500000) o2.str (o1.str ());
    else spoc::io::write_spoc_file_compressed (o2, f);
    CHECK_MSG (o1.str () == o2.str (), "write_spoc_file and write_spoc_file_compressed differ");
    check_same (decode_all (o1.str (), "the compressed output"), c, "the compressed output");
    // ... and all-zero columns take no bytes beyond their length
    {
        size_t at = 4 + 2 + 2 + c.wkt.size () + 1 + 8 + 1;
        for (unsigned k = 0; k < 9 + c.extras (); ++k)
        {
            src i (o1.str (), at);
            const std::string &bytes = o1.str ();
            src q (bytes, at);
            const uint64_t len = q.un (8);
            const bool zero = column (c.r, k).find_first_not_of ('\0') == std::string::npos;
            CHECK_MSG (zero == (len == 0), "column " << k << (zero ? " is all zero but takes " : " is not all zero but takes ") << len << " bytes");
            at += 8 + len;
        }
    }

    // The library reads back what it wrote
    check_same (from_file (read (o1.str ())), c, "read_spoc_file of the written file");
    {
        std::istringstream i (o1.str ());
        check_same (from_file (spoc::io::read_spoc_file_compressed (i)), c, "read_spoc_file_compressed");
    }
    // It reads any conforming file, whatever the zlib level and whether or not zero columns are stored
    const int level = c.r.size () > 500000 ? 1 : s.pick ({ 6, 0, 1, 9 });
    const bool stored = s.coin () && !c.r.empty ();
    check_same (from_file (read (encode (c, level, stored))), c, "read_spoc_file of an independently written file");
    // Clearing the flag gives the same records uncompressed
    auto g = f;
    g.set_compressed (false);
    cloud u = c;
    u.compressed = false;
    CHECK_MSG (lib::write (g) == encode (u), "the same contents with the flag cleared differ from the documented layout");
}

PROP (roundtrip, 5000, "files with at least two records and a column that is not all zero")
{
    gen_opts o;
    o.max_extras = 40;
    o.max_points = 300;
    check_cloud (s, gen_cloud (s, o, 1));
}

PROP (many_extras, 150, "up to 255 extra fields")
{
    gen_opts o;
    cloud c;
    c.compressed = true;
    c.wkt = "w";
    c.r = gen_records (s, s.range (1, 8), gen_extras (s, 255), o);
    check_cloud (s, c);
}

PROP (large, 8, "30000 to 300000 records, so that columns exceed zlib buffers of 1 MiB")
{
    cloud c;
    c.compressed = true;
    gen_opts o;
    const unsigned extras = s.draw (3);
    const uint64_t n = s.coin () ? s.range (30000, 300000) : s.pick ({ 131072u, 131073u, 131071u, 262144u, 262145u });
    c.r = gen_records (s, n, extras, o);
    check_cloud (s, c);
}

PROP_CPU (million, 2, "more than 2^20 records, so that columns exceed 8 MiB", 60)
{
    cloud c;
    gen_opts o;
    o.constant_columns = false;
    c.compressed = true;
    c.r = gen_records (s, s.range (1048577, 1200000), s.draw (2), o);
    check_cloud (s, c);
}

PBT_MAIN
