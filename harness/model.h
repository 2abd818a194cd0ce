// Reference model of the SPOC data model and format, written from README.md
// ("SPOC File Format"), independent of the library: plain records, a byte-level
// encoder and decoder, and generators of contents.
#pragma once
#include "pbt.h"
#include <zlib.h>

namespace model
{

struct rec
{
    double x = 0, y = 0, z = 0;
    uint32_t c = 0, p = 0;
    uint16_t i = 0, r = 0, g = 0, b = 0;
    std::vector<uint64_t> e;
};

inline uint64_t bits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
inline double from_bits (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }

// Bitwise identity: NaN payloads and the sign of zero count
inline bool same (const rec &a, const rec &b)
{
    return bits (a.x) == bits (b.x) && bits (a.y) == bits (b.y) && bits (a.z) == bits (b.z) && a.c == b.c && a.p == b.p
        && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && a.e == b.e;
}
inline std::ostream &operator<< (std::ostream &o, const rec &r)
{
    o << '(' << r.x << ' ' << r.y << ' ' << r.z << " c" << r.c << " p" << r.p << " i" << r.i << " r" << r.r << " g" << r.g << " b" << r.b;
    for (size_t k = 0; k < r.e.size () && k < 6; ++k) o << " e" << r.e[k];
    if (r.e.size () > 6) o << " +" << r.e.size () - 6;
    return o << ')';
}
inline std::ostream &operator<< (std::ostream &o, const std::vector<rec> &v)
{
    o << '{' << v.size () << " records";
    for (size_t k = 0; k < v.size () && k < 8; ++k) o << ' ' << v[k];
    return o << '}';
}

struct cloud
{
    std::string wkt;
    bool compressed = false;
    std::vector<rec> r;
    unsigned extras () const { return r.empty () ? 0 : r[0].e.size (); }
};
inline std::ostream &operator<< (std::ostream &o, const cloud &c)
{
    return o << "wkt[" << c.wkt.size () << "] " << (c.compressed ? "compressed " : "uncompressed ") << "extras=" << c.extras () << ' ' << c.r;
}

// Little-endian byte sink
struct sink
{
    std::string s;
    void u8 (uint8_t v) { s += char (v); }
    void u16 (uint16_t v) { for (int k = 0; k < 2; ++k) u8 (v >> (8 * k)); }
    void u32 (uint32_t v) { for (int k = 0; k < 4; ++k) u8 (v >> (8 * k)); }
    void u64 (uint64_t v) { for (int k = 0; k < 8; ++k) u8 (v >> (8 * k)); }
    void f64 (double d) { u64 (bits (d)); }
};

struct src
{
    const std::string &s;
    size_t at = 0;
    bool ok = true;
    explicit src (const std::string &s, size_t at = 0) : s (s), at (at) {}
    uint64_t un (int n)
    {
        uint64_t v = 0;
        if (at + n > s.size ()) { ok = false; at = s.size (); return 0; }
        for (int k = 0; k < n; ++k) v |= uint64_t (uint8_t (s[at + k])) << (8 * k);
        at += n;
        return v;
    }
    std::string bytes (uint64_t n)
    {
        if (n > s.size () - at) { ok = false; at = s.size (); return ""; }
        std::string t = s.substr (at, n);
        at += n;
        return t;
    }
};

inline std::string enc_header (const std::string &wkt, unsigned extras, uint64_t total, uint8_t compressed)
{
    sink o;
    o.s = "SPOC";
    o.u8 (0);
    o.u8 (1);
    o.u16 (wkt.size ());
    o.s += wkt;
    o.u8 (extras);
    o.u64 (total);
    o.u8 (compressed);
    return o.s;
}

inline void enc_rec (sink &o, const rec &r)
{
    o.f64 (r.x); o.f64 (r.y); o.f64 (r.z);
    o.u32 (r.c); o.u32 (r.p);
    o.u16 (r.i); o.u16 (r.r); o.u16 (r.g); o.u16 (r.b);
    for (auto e : r.e) o.u64 (e);
}

inline std::string zdeflate (const std::string &raw, int level)
{
    uLongf n = compressBound (raw.size ());
    std::string z (n, 0);
    if (compress2 (reinterpret_cast<Bytef *> (&z[0]), &n, reinterpret_cast<const Bytef *> (raw.data ()), raw.size (), level) != Z_OK)
        throw pbt::Failure { "reference deflate failed" };
    z.resize (n);
    return z;
}

// Column k of the compressed layout as raw little-endian bytes
inline std::string column (const std::vector<rec> &v, unsigned k)
{
    sink o;
    for (const auto &r : v)
        switch (k)
        {
            case 0: o.f64 (r.x); break;
            case 1: o.f64 (r.y); break;
            case 2: o.f64 (r.z); break;
            case 3: o.u32 (r.c); break;
            case 4: o.u32 (r.p); break;
            case 5: o.u16 (r.i); break;
            case 6: o.u16 (r.r); break;
            case 7: o.u16 (r.g); break;
            case 8: o.u16 (r.b); break;
            default: o.u64 (r.e[k - 9]);
        }
    return o.s;
}
inline unsigned column_width (unsigned k) { return k < 3 ? 8 : k < 5 ? 4 : k < 9 ? 2 : 8; }

inline std::string encode (const cloud &c, int level = 6, bool store_zero_columns = false)
{
    if (!c.compressed)
    {
        sink o;
        o.s = enc_header (c.wkt, c.extras (), c.r.size (), 0);
        for (const auto &r : c.r) enc_rec (o, r);
        return o.s;
    }
    sink o;
    o.s = enc_header (c.wkt, c.extras (), c.r.size (), 1);
    for (unsigned k = 0; k < 9 + c.extras (); ++k)
    {
        const auto raw = column (c.r, k);
        const bool zero = raw.find_first_not_of ('\0') == std::string::npos;
        if (zero && !store_zero_columns) { o.u64 (0); continue; }
        const auto z = zdeflate (raw, level);
        o.u64 (z.size ());
        o.s += z;
    }
    return o.s;
}

// Decode per the documented layout. Returns an error text, or "" and the cloud
// and the offset just past it.
inline std::string decode (const std::string &s, cloud &c, size_t &at)
{
    src i (s, at);
    c = cloud ();
    if (i.bytes (4) != "SPOC") return "bad signature";
    if (i.un (1) != 0 || i.un (1) != 1) return "bad version";
    c.wkt = i.bytes (i.un (2));
    const unsigned extras = i.un (1);
    const uint64_t n = i.un (8);
    const uint64_t flag = i.un (1);
    if (!i.ok) return "truncated header";
    if (flag > 1) return "compressed flag is neither 0 nor 1";
    c.compressed = flag;
    if (!c.compressed)
    {
        if (n > (s.size () - i.at) / (40 + 8 * extras)) return "truncated records";
        c.r.resize (n);
        for (auto &r : c.r)
        {
            r.x = from_bits (i.un (8)); r.y = from_bits (i.un (8)); r.z = from_bits (i.un (8));
            r.c = i.un (4); r.p = i.un (4);
            r.i = i.un (2); r.r = i.un (2); r.g = i.un (2); r.b = i.un (2);
            r.e.resize (extras);
            for (auto &e : r.e) e = i.un (8);
        }
        if (!i.ok) return "truncated records";
    }
    else
    {
        if (n > (uint64_t (1) << 28)) return "too many points";
        c.r.resize (n);
        for (auto &r : c.r) r.e.resize (extras);
        for (unsigned k = 0; k < 9 + extras; ++k)
        {
            const uint64_t len = i.un (8);
            if (!i.ok) return "truncated column length";
            std::string raw (n * column_width (k), '\0');
            if (len)
            {
                const auto z = i.bytes (len);
                if (!i.ok) return "truncated column";
                std::string out (raw.size () + 1, '\0');
                uLongf m = out.size ();
                if (uncompress (reinterpret_cast<Bytef *> (&out[0]), &m, reinterpret_cast<const Bytef *> (z.data ()), z.size ()) != Z_OK)
                    return "column is not a zlib stream of the right length";
                if (m != raw.size ()) return "column has the wrong length";
                raw = out.substr (0, m);
            }
            src q (raw);
            for (auto &r : c.r)
                switch (k)
                {
                    case 0: r.x = from_bits (q.un (8)); break;
                    case 1: r.y = from_bits (q.un (8)); break;
                    case 2: r.z = from_bits (q.un (8)); break;
                    case 3: r.c = q.un (4); break;
                    case 4: r.p = q.un (4); break;
                    case 5: r.i = q.un (2); break;
                    case 6: r.r = q.un (2); break;
                    case 7: r.g = q.un (2); break;
                    case 8: r.b = q.un (2); break;
                    default: r.e[k - 9] = q.un (8);
                }
        }
    }
    at = i.at;
    return "";
}

// Decode exactly one file
inline cloud decode_all (const std::string &s, const std::string &what)
{
    cloud c;
    size_t at = 0;
    const auto err = decode (s, c, at);
    CHECK_MSG (err.empty (), what << " is not a well-formed SPOC file (" << s.size () << " bytes): " << err);
    CHECK_MSG (at == s.size (), what << " has " << s.size () - at << " trailing bytes");
    return c;
}

inline void check_same_records (const std::vector<rec> &got, const std::vector<rec> &want, const std::string &what)
{
    CHECK_MSG (got.size () == want.size (), what << ": " << got.size () << " records, expected " << want.size ());
    for (size_t k = 0; k < got.size (); ++k)
        CHECK_MSG (same (got[k], want[k]), what << ": record " << k << " of " << want.size () << " is " << got[k] << ", expected " << want[k]);
}
inline void check_same (const cloud &got, const cloud &want, const std::string &what)
{
    CHECK_MSG (got.wkt == want.wkt, what << ": wkt of " << got.wkt.size () << " bytes differs from the expected " << want.wkt.size ());
    CHECK_MSG (got.compressed == want.compressed, what << ": compressed flag is " << got.compressed);
    CHECK_MSG (got.extras () == want.extras (), what << ": " << got.extras () << " extra fields, expected " << want.extras ());
    check_same_records (got.r, want.r, what);
}

// ---- generators ----

// Any double, including NaN payloads, infinities, -0.0 and subnormals
inline double any_double (pbt::Bulk &b)
{
    switch (b.below (12))
    {
        case 0: return 0.0;
        case 1: return double (int64_t (b.below (2001)) - 1000);
        case 2: return -0.0;
        case 3: return (b.unit () - 0.5) * 1e3;
        case 4: return 500000 + b.unit () * 1e4;
        case 5: return 4.2e6 + b.below (100000) / 1000.0;
        case 6: return from_bits (b.next ());
        case 7: return b.chance (1, 2) ? INFINITY : -INFINITY;
        case 8: return from_bits (0x7ff0000000000000ull | b.next ());        // NaN or inf with payload
        case 9: return from_bits (b.next () & 0x800fffffffffffffull);        // subnormal
        case 10: return (b.chance (1, 2) ? 1 : -1) * 1.7976931348623157e308;
        default: return (b.unit () - 0.5) * 2e-3;
    }
}
inline double finite_double (pbt::Bulk &b)
{
    while (true)
    {
        const double d = any_double (b);
        if (std::isfinite (d)) return d;
    }
}
// A coordinate as surveys have them: within +-1e7
inline double coord (pbt::Bulk &b)
{
    switch (b.below (7))
    {
        case 0: return double (int64_t (b.below (21)) - 10);
        case 1: return (int64_t (b.below (2001)) - 1000) * 0.25;
        case 2: return (b.unit () - 0.5) * 200;
        case 3: return 500000 + b.unit () * 1000;
        case 4: return 4200000 + b.below (1000000) / 1000.0;
        case 5: return -0.0;
        default: return (b.unit () - 0.5) * 2e7;
    }
}
template<typename T> inline T any_int (pbt::Bulk &b)
{
    const unsigned w = sizeof (T) * 8;
    switch (b.below (6))
    {
        case 0: return 0;
        case 1: return T (b.below (4));
        case 2: return T (b.below (256));
        case 3: return T (~T (0) - b.below (3));
        case 4: return T (uint64_t (1) << b.below (w)) + T (b.below (3)) - 1;
        default: return T (b.next ());
    }
}

enum coord_kind { ANY, FINITE, SURVEY };

struct gen_opts
{
    coord_kind kind = ANY;
    uint64_t max_points = 60;
    unsigned max_extras = 6;
    uint64_t min_points = 0;
    bool constant_columns = true; // columns that are all zero, all equal, or zero but for one record
};

// The contents are drawn from a recorded seed; the shape by recorded choices
inline std::vector<rec> gen_records (pbt::Source &s, uint64_t n, unsigned extras, const gen_opts &o)
{
    std::vector<rec> v (n);
    // 0: all zero, 1: zero but for some columns, 2: sparse, 3: full
    const uint64_t mode = o.constant_columns ? uint64_t ("01122333"[s.draw (8)] - '0') : 3;
    pbt::Bulk b = s.sub ();
    const unsigned cols = 9 + extras;
    std::vector<unsigned> style (cols, 0); // 0 zero 1 constant 2 one nonzero 3 full 4 last nonzero 5 small values
    for (auto &t : style)
        t = mode == 0 ? 0 : mode == 1 ? (b.chance (1, 3) ? 3 : 0) : mode == 2 ? b.below (6) : (b.chance (1, 6) ? 5 : 3);
    for (unsigned k = 0; k < cols; ++k)
    {
        const unsigned t = style[k];
        const size_t one = n ? b.below (n) : 0;
        const uint64_t cseed = b.next ();
        pbt::Bulk q (cseed);
        for (size_t j = 0; j < n; ++j)
        {
            if (t == 0) { if (k >= 9) v[j].e.push_back (0); continue; }
            if (t == 1) q = pbt::Bulk (cseed);
            const bool zero = (t == 2 && j != one) || (t == 4 && j + 1 != n);
            if (k < 3)
            {
                double d = o.kind == ANY ? any_double (q) : o.kind == FINITE ? finite_double (q) : coord (q);
                if (t == 5) d = double (q.below (5));
                if (zero) d = 0;
                (k == 0 ? v[j].x : k == 1 ? v[j].y : v[j].z) = d;
            }
            else if (k < 5)
            {
                uint32_t u = zero ? 0 : t == 5 ? q.below (4) : any_int<uint32_t> (q);
                (k == 3 ? v[j].c : v[j].p) = u;
            }
            else if (k < 9)
            {
                uint16_t u = zero ? 0 : t == 5 ? q.below (4) : any_int<uint16_t> (q);
                (k == 5 ? v[j].i : k == 6 ? v[j].r : k == 7 ? v[j].g : v[j].b) = u;
            }
            else
                v[j].e.push_back (zero ? 0 : t == 5 ? q.below (4) : any_int<uint64_t> (q));
        }
    }
    return v;
}

// Number of points: mostly small, growing with the case's size, sometimes around buffer edges
inline uint64_t gen_count (pbt::Source &s, uint64_t lo, uint64_t hi)
{
    uint64_t top = lo + (hi - lo) * (s.size () + 4) / 104;
    if (top > hi) top = hi;
    switch (s.draw (4))
    {
        case 0: return s.range (lo, std::min (top, lo + 4));
        case 1: return s.range (lo, std::min (top, lo + 30));
        default: return s.range (lo, top);
    }
}

inline std::string gen_wkt (pbt::Source &s, bool big = true)
{
    const uint64_t kind = s.draw (big ? 7 : 4);
    uint64_t n = 0;
    switch (kind)
    {
        case 0: return "";
        case 1: n = s.range (1, 20); break;
        case 2: return "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]]]";
        case 3: n = s.range (1, 600); break;
        case 4: n = s.pick ({ 254, 255, 256, 257, 1023, 1024, 1025, 4096 }); break;
        case 5: n = s.pick ({ 65535, 65534, 32767, 32768, 65280 }); break;
        default: n = s.range (0, 65535); break;
    }
    pbt::Bulk b = s.sub ();
    const bool ascii = b.chance (1, 2);
    std::string t;
    for (uint64_t k = 0; k < n; ++k) t += ascii ? char (32 + b.below (95)) : char (b.below (256));
    return t;
}
// WKT as it would appear on a command line or in a text file: printable ASCII
inline std::string gen_text_wkt (pbt::Source &s)
{
    const uint64_t n = s.pick ({ 0, 1, 10, 80, 300 });
    pbt::Bulk b = s.sub ();
    std::string t;
    for (uint64_t k = 0; k < n; ++k) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZ[](),._ 0123456789\""[b.below (45)];
    return t;
}

inline unsigned gen_extras (pbt::Source &s, unsigned max)
{
    switch (s.draw (5))
    {
        case 0: return 0;
        case 1: return std::min<unsigned> (max, s.range (0, 2));
        case 2: return std::min<unsigned> (max, s.range (0, 8));
        case 3: return s.range (0, max);
        default: return std::min<unsigned> (max, s.pick ({ 0u, 1u, 10u, 122u, 123u, 124u, 125u, 128u, 200u, 254u, 255u }));
    }
}

inline cloud gen_cloud (pbt::Source &s, const gen_opts &o, int compressed = -1, bool big_wkt = true)
{
    cloud c;
    c.compressed = compressed < 0 ? s.coin () : compressed;
    c.wkt = gen_wkt (s, big_wkt);
    const bool large = o.max_points >= 100000; // asked for on purpose
    const unsigned extras = gen_extras (s, large ? std::min (o.max_extras, 3u) : o.max_extras);
    uint64_t n = large ? s.range (o.max_points / 2, o.max_points) : gen_count (s, o.min_points, o.max_points);
    if (extras > 30) n = std::min<uint64_t> (n, std::max<uint64_t> (o.min_points, 40));
    c.r = gen_records (s, n, extras, o);
    return c;
}

} // namespace model
