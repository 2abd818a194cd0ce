// C03: spoc_compress and spoc_decompress convert without changing contents
#include "cli.h"
using namespace model;

static std::vector<std::string> args_of (pbt::Source &s, const std::string &tool, bool in_file, bool out_file)
{
    std::vector<std::string> a { tool };
    if (s.chance (1, 6)) a.push_back (s.coin () ? "-v" : "--verbose");
    if (in_file) a.push_back (cli::path ("in.bin"));
    if (out_file) a.push_back (cli::path ("out.bin"));
    return a;
}

// Convert, through files or standard streams; returns the output bytes
static std::string convert (pbt::Source &s, const std::string &tool, const std::string &in)
{
    const unsigned form = s.draw (3);
    const bool in_file = form > 0, out_file = form > 1;
    unlink (cli::path ("out.bin").c_str ());
    if (in_file) cli::put (cli::path ("in.bin"), in);
    const auto a = args_of (s, tool, in_file, out_file);
    cli::opts o;
    o.threads = s.range (1, 4);
    const auto r = cli::run (a, in_file ? "" : in, o);
    CHECK_MSG (r.ok (), "'" << cli::shell_text (a) << "' failed: " << r.text ());
    if (in_file) CHECK_MSG (cli::get (cli::path ("in.bin")) == in, tool << " changed its input file");
    if (!out_file) return r.out;
    CHECK_MSG (r.out.empty (), tool << " wrote to standard output although an output file was named");
    return cli::get (cli::path ("out.bin"));
}

static void check_cloud (pbt::Source &s, cloud c)
{
    NOTE (s, c);
    if (c.r.size () > 1) s.nontrivial ();
    s.label_if (c.r.empty (), "no points");
    s.label_if (c.extras () > 0, "extra fields");
    c.compressed = false;
    const auto plain = encode (c);
    cloud z = c;
    z.compressed = true;

    // Compress
    const auto packed = convert (s, "spoc_compress", plain);
    check_same (decode_all (packed, "the output of spoc_compress"), z, "spoc_compress");
    // and back
    const auto back = convert (s, "spoc_decompress", packed);
    CHECK_MSG (back == plain, "decompressing the compressed copy gives " << back.size () << " bytes that are not the original file");
    // A file compressed by someone else
    const auto other = encode (z, s.range (1, 9), s.coin ());
    CHECK_MSG (convert (s, "spoc_decompress", other) == plain, "decompressing a conforming compressed file does not give the documented uncompressed bytes");
}

PROP (convert, 700, "files with at least two records, converted both ways through files or standard streams")
{
    gen_opts o;
    o.max_points = 400;
    o.max_extras = 255;
    check_cloud (s, gen_cloud (s, o));
}

PROP (large, 4, "files of 20000 to 150000 records")
{
    cloud c;
    c.wkt = gen_wkt (s);
    c.r = gen_records (s, s.range (20000, 150000), s.draw (3), gen_opts ());
    check_cloud (s, c);
}

PROP (refuses, 300, "files that already have the target form")
{
    gen_opts o;
    o.max_extras = 8;
    auto c = gen_cloud (s, o);
    NOTE (s, c);
    s.nontrivial ();
    const auto in = encode (c);
    const std::string tool = c.compressed ? "spoc_compress" : "spoc_decompress";
    const bool in_file = s.coin (), out_file = in_file && s.coin ();
    // The output file may hold something already: a refusal has no business with it
    const bool existing = out_file && s.coin ();
    const auto before = existing ? encode (gen_cloud (s, o)) : std::string ();
    unlink (cli::path ("out.bin").c_str ());
    if (existing) cli::put (cli::path ("out.bin"), before);
    s.label_if (existing, "the output file exists already");
    if (in_file) cli::put (cli::path ("in.bin"), in);
    const auto a = args_of (s, tool, in_file, out_file);
    const auto r = cli::run (a, in_file ? "" : in);
    CHECK_MSG (r.rejected (), "'" << cli::shell_text (a) << "' accepted a file that already has the target form: " << r.text ());
    CHECK_MSG (!r.err.empty (), tool << " failed without a message");
    CHECK_MSG (r.out.empty (), tool << " produced output");
    if (existing) CHECK_MSG (cli::get (cli::path ("out.bin")) == before, tool << " refused its input but changed the existing output file");
    else if (out_file && cli::exists (cli::path ("out.bin")))
        CHECK_MSG (cli::get (cli::path ("out.bin")).empty (), tool << " produced an output file");
    if (in_file) CHECK_MSG (cli::get (cli::path ("in.bin")) == in, tool << " changed its input file");
}

PBT_MAIN
