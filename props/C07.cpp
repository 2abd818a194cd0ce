// C07: the compression API round-trips every byte string
#include "lib.h"
using namespace lib;
using bytes = std::vector<uint8_t>;
namespace z = spoc::compression;

static std::string str (const bytes &b) { return std::string (b.begin (), b.end ()); }
static bytes vec (const std::string &s) { return bytes (s.begin (), s.end ()); }

// An input stream that delivers a few bytes at a time, like a pipe
struct slow_buf : std::streambuf
{
    std::string data;
    size_t at = 0, chunk;
    char one[4096];
    slow_buf (const std::string &d, size_t chunk) : data (d), chunk (chunk) {}
    int_type underflow () override
    {
        const size_t n = std::min ({ chunk, data.size () - at, sizeof one });
        if (!n) return EOF;
        memcpy (one, data.data () + at, n);
        at += n;
        setg (one, one, one + n);
        return uint8_t (one[0]);
    }
};

static std::string gen_bytes (pbt::Source &s, bool big)
{
    uint64_t n = 0;
    const uint64_t MiB = 1 << 20;
    if (big) n = s.coin () ? s.pick ({ 1u, 2u, 3u }) * MiB + s.irange (-2, 2) : s.range (MiB - 600, 4 * MiB);
    else n = s.coin () ? s.range (0, 20) : s.range (0, 4000);
    const unsigned kind = s.draw (6);
    pbt::Bulk b = s.sub ();
    std::string t (n, 0);
    const unsigned period = 1 + b.below (300);
    switch (kind)
    {
        case 0: break;                                                    // zeros
        case 1: for (auto &c : t) c = char (b.next ()); break;            // incompressible
        case 2: for (auto &c : t) c = "abcd"[b.below (4)]; break;
        case 3: for (size_t k = 0; k < n; ++k) t[k] = k < period ? char (b.next ()) : t[k - period]; break;
        case 4: for (size_t k = 0; k < n; ++k) t[k] = char (k % 8 < 5 ? 0 : b.next ()); break; // like doubles
        default: for (size_t k = 0; k < n; ++k) t[k] = k * 2 < n ? char (b.next ()) : 'x'; break;
    }
    s.label_if (n == 0, "empty");
    s.label_if (n > MiB, "over 1 MiB");
    s.label (std::vector<std::string> { "zeros", "incompressible", "four letters", "periodic", "like doubles", "half and half" }[kind]);
    return t;
}

static std::string deflate_by (pbt::Source &s, const std::string &raw, int level, unsigned how)
{
    switch (how)
    {
        case 0:
            // -1 is the default
            if (level == -1 && s.coin ()) return str (z::compress (reinterpret_cast<const uint8_t *> (raw.data ()), raw.size ()));
            return str (z::compress (reinterpret_cast<const uint8_t *> (raw.data ()), raw.size (), level));
        case 1: if (level == -1 && !raw.empty () && s.coin ()) return str (z::compress (vec (raw)));
        { const auto v = vec (raw); return v.empty () ? str (z::compress (v.data (), 0, level)) : str (z::compress (v, level)); }
        case 2: { std::istringstream i (raw); std::ostringstream o; z::compress (i, o, level); return o.str (); }
        case 3: { slow_buf b (raw, s.range (1, 4096)); std::istream i (&b); std::ostringstream o; z::compress (i, o, level); return o.str (); }
        default: return zdeflate (raw, level);
    }
}
static std::string inflate_by (pbt::Source &s, const std::string &packed, size_t size, unsigned how)
{
    switch (how)
    {
        case 0: return str (z::decompress (vec (packed)));
        case 1: { bytes out (size + 1, 0xAB); z::decompress (vec (packed), out.data (), size); CHECK_MSG (out[size] == 0xAB, "decompress wrote beyond the buffer"); out.resize (size); return str (out); }
        case 2: { std::istringstream i (packed); std::ostringstream o; z::decompress (i, o); return o.str (); }
        case 3: { slow_buf b (packed, s.range (1, 4096)); std::istream i (&b); std::ostringstream o; z::decompress (i, o); return o.str (); }
        default:
        {
            std::string out (size + 1, 0);
            uLongf m = out.size ();
            const int r = uncompress (reinterpret_cast<Bytef *> (&out[0]), &m, reinterpret_cast<const Bytef *> (packed.data ()), packed.size ());
            CHECK_MSG (r == Z_OK, "zlib cannot inflate the output: " << r);
            out.resize (m);
            return out;
        }
    }
}

static void check_roundtrip (pbt::Source &s, const std::string &raw)
{
    const int level = int (s.irange (-1, 9));
    const unsigned a = s.draw (5), b = s.draw (5);
    NOTE (s, raw.size () << " bytes, level " << level << ", deflate " << a << ", inflate " << b);
    s.label ("level " + std::to_string (level));
    if (raw.size () > 1) s.nontrivial ();
    const auto packed = deflate_by (s, raw, level, a);
    CHECK_MSG (inflate_by (s, packed, raw.size (), 4) == raw, "standard zlib does not restore the original (deflate form " << a << ", level " << level << ")");
    const auto back = inflate_by (s, packed, raw.size (), b);
    CHECK_MSG (back == raw, "round trip of " << raw.size () << " bytes gives " << back.size () << " bytes that differ (deflate form " << a << ", inflate form " << b << ", level " << level << ")");
}

PROP (roundtrip, 4000, "byte strings up to 4000 bytes; any level; buffer, stream and zlib forms mixed")
{
    check_roundtrip (s, gen_bytes (s, false));
}
PROP (large, 70, "byte strings around and above multiples of the 1 MiB buffers")
{
    check_roundtrip (s, gen_bytes (s, true));
}

template<typename F> static bool throws (F f)
{
    try { f (); }
    catch (const std::exception &) { return true; }
    return false;
}

PROP (damage, 4000, "a zlib stream that is truncated or has bits changed must be refused or give the original")
{
    const bool big = s.chance (1, 100);
    const auto raw = gen_bytes (s, big);
    const auto packed = zdeflate (raw, int (s.range (0, 9)));
    const unsigned how = s.draw (4);
    for (unsigned k = 0; k < (big ? 2 : 8); ++k)
    {
        std::string bad = packed;
        const unsigned kind = s.draw (4);
        bool truncated = false;
        switch (kind)
        {
            case 0: bad.resize (s.draw (packed.size ())); truncated = true; break;
            case 1: bad.resize (packed.size () - 1 - s.draw (std::min<size_t> (packed.size (), 6))); truncated = true; break;
            case 2: { const size_t i = s.draw (bad.size ()); bad[i] ^= 1 << s.draw (8); break; }
            default: { const size_t i = bad.size () - 1 - s.draw (4); bad[i] ^= 1 << s.draw (8); break; } // checksum
        }
        if (bad.empty () && how < 2) { bad = packed; continue; }
        NOTE (s, raw.size () << " bytes, damage " << kind << ", form " << how << "; ");
        s.nontrivial ();
        s.label (truncated ? "truncated" : kind == 3 ? "checksum" : "bit changed");
        std::string out;
        const bool threw = throws ([&] { out = inflate_by (s, bad, raw.size (), how); });
        if (truncated || kind == 3)
            CHECK_MSG (threw, "form " << how << " accepted a " << (truncated ? "truncated stream of " : "stream with a wrong checksum, ") << bad.size () << " bytes (complete: " << packed.size () << "), and gave " << out.size () << " bytes");
        else
            CHECK_MSG (threw || out == raw, "form " << how << " turned a damaged stream into other bytes");
    }
}

PROP (size, 3000, "the buffer form with an expected size other than the true one, and levels out of range")
{
    const auto raw = gen_bytes (s, false);
    NOTE (s, raw.size () << " bytes");
    s.nontrivial ();
    const auto packed = vec (zdeflate (raw, 6));
    const size_t wrong = s.coin () ? raw.size () + s.range (1, 5) : s.range (0, 5000);
    if (wrong == raw.size ()) s.discard ();
    bytes out (wrong + 1, 7);
    CHECK_MSG (throws ([&] { z::decompress (packed, out.data (), wrong); }), "decompressing " << raw.size () << " bytes into a buffer of " << wrong << " succeeded");
    for (auto x : out) CHECK_MSG (x == 7, "the buffer was changed although the size is wrong");
    const int level = s.pick ({ -2, 10, 11, 100, -100 });
    CHECK_MSG (throws ([&] { z::compress (vec ("abc"), level); }), "level " << level << " accepted");
    std::istringstream i ("abc");
    std::ostringstream o;
    CHECK_MSG (throws ([&] { z::compress (i, o, level); }), "level " << level << " accepted by the stream form");
}

// ---- streams that fail ----
struct failing_buf : slow_buf
{
    bool throws;
    failing_buf (const std::string &d, size_t chunk, bool throws) : slow_buf (d, chunk), throws (throws) {}
    int_type underflow () override
    {
        const auto c = slow_buf::underflow ();
        if (c == EOF && throws) throw std::runtime_error ("device error");
        return c;
    }
};
PROP (failing_input, 2500, "the input stream fails after some bytes, or was not readable from the start")
{
    const auto raw = gen_bytes (s, s.chance (1, 100));
    const bool in = s.coin ();
    const std::string data = in ? raw : zdeflate (raw, int (s.range (0, 9)));
    const size_t n = s.draw (data.size () + (in ? 1 : 0));
    const unsigned how = s.draw (3);
    NOTE (s, (in ? "compressing " : "decompressing ") << data.size () << " bytes, " << (how == 0 ? "a file that does not exist" : how == 1 ? "a stream that failed before" : "a device that fails after " + std::to_string (n)));
    std::ostringstream o;
    bool threw = false;
    auto call = [&] (std::istream &i) { threw = throws ([&] { if (in) z::compress (i, o, int (s.irange (-1, 9))); else z::decompress (i, o); }); };
    if (how == 0) { std::ifstream i ("/nonexistent/file"); call (i); }
    else if (how == 1) { std::istringstream i (data); i.setstate (s.coin () ? std::ios::failbit : std::ios::badbit); call (i); }
    else { failing_buf b (data.substr (0, n), 1 + s.draw (5000), true); std::istream i (&b); call (i); }
    CHECK_MSG (threw, "an input that fails is " << (in ? "compressed" : "decompressed") << " without an error; " << o.str ().size () << " bytes were written");
    s.nontrivial ();
    s.label (in ? "compress" : "decompress");
}

// ---- more bytes than 32 bits count ----
#include <sys/file.h>
#include <sys/mman.h>
static uint64_t past_32_bits () { return pbt::env ().variant == "rel" ? uint64_t (1) << 32 : uint64_t (1) << 21; }
PROP_CPU (four_gigabytes, 1, "every case: more than 4 GiB are compressed (in the sanitizer build, 2 MiB)", 300)
{
    const uint64_t n = past_32_bits () + s.draw (100000);
    NOTE (s, n << " bytes, nearly all 0");
    s.nontrivial ();
    auto *p = static_cast<uint8_t *> (mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) throw std::runtime_error ("harness: mmap");
    auto b = s.sub ();
    for (unsigned k = 0; k < 200; ++k)
    {
        // anywhere, and near the powers of two
        uint64_t at = k % 2 ? b.below (n) : (n >> b.below (8)) + b.below (64) - 32;
        for (unsigned j = b.below (40); j && at < n; --j) p[at++] = b.next ();
    }
    p[n - 1] = 'E';
    const auto packed = z::compress (p, n, 1);
    z_stream i {};
    inflateInit (&i);
    bytes out (1 << 20);
    uint64_t at = 0, fed = 0;
    int r = Z_OK;
    while (r == Z_OK)
    {
        if (!i.avail_in) { i.next_in = const_cast<uint8_t *> (packed.data ()) + fed; i.avail_in = std::min<uint64_t> (packed.size () - fed, 1 << 30); fed += i.avail_in; }
        i.next_out = out.data ();
        i.avail_out = out.size ();
        r = inflate (&i, Z_NO_FLUSH);
        const size_t k = out.size () - i.avail_out;
        CHECK_MSG (at + k <= n && memcmp (out.data (), p + at, k) == 0, "the bytes from " << at << " on come back changed, or there are more than " << n);
        at += k;
    }
    inflateEnd (&i);
    CHECK_MSG (r == Z_STREAM_END && at == n, n << " bytes were compressed; " << at << " come back, zlib says " << r);
    munmap (p, n);
}
// A stream of more than 4 GiB, though of little content: empty stored blocks around some that are not empty
PROP_CPU (four_gigabytes_back, 1, "every case: more than 4 GiB are decompressed (in the sanitizer build, 2 MiB)", 300)
{
    const uint64_t n = past_32_bits () + 5 * s.draw (20000);
    auto b = s.sub ();
    NOTE (s, "a zlib stream of about " << n << " bytes, with a few bytes of content");
    s.nontrivial ();
    // one process at a time has this much memory
    const int lock = open ("/proc/self/exe", O_RDONLY | O_CLOEXEC);
    flock (lock, LOCK_EX);
    std::string want;
    bytes v;
    v.reserve (n + 20000);
    v = { 0x78, 1 };
    auto block = [&] (bool last, const std::string &t) {
        const unsigned k = t.size ();
        for (unsigned x : { last ? 1u : 0u, k & 255, k >> 8, ~k & 255, ~k >> 8 & 255 }) v.push_back (x);
        v.insert (v.end (), t.begin (), t.end ());
        want += t;
    };
    std::string t (1 + b.below (100), 0);
    for (unsigned part = 0; part < 8; ++part)
    {
        const size_t to = n / 8 * (part + 1);
        // as many empty blocks at once
        block (false, "");
        const size_t count = (to - v.size ()) / 5, at = v.size ();
        v.resize (at + count * 5);
        for (size_t k = 0; k < count; ++k) memcpy (&v[at + 5 * k], "\0\0\0\377\377", 5);
        for (auto &c : t) c = b.next ();
        block (part == 7, t);
    }
    const uint32_t sum = adler32 (1, reinterpret_cast<const Bytef *> (want.data ()), want.size ());
    for (int k = 24; k >= 0; k -= 8) v.push_back (sum >> k);
    bytes got;
    const bool threw = throws ([&] { got = z::decompress (v); });
    CHECK_MSG (!threw, "a zlib stream of " << v.size () << " bytes is refused");
    CHECK_MSG (str (got) == want, "a zlib stream of " << v.size () << " bytes gives " << got.size () << " bytes, expected " << want.size ());
    close (lock);
}

PBT_MAIN
