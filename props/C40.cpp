// C40: the Python bindings read and write the same files as the library.
// A Python interpreter with the bindings built from the tree is driven call by
// call; the reference model says what each call must show.
#include "cli.h"
#include <sys/prctl.h>
using namespace model;

static const char *SCRIPT = R"PY(
import struct, sys
import spocpy as sp
def d2h(d): return struct.pack('>d', d).hex()
def h2d(h): return struct.unpack('>d', bytes.fromhex(h))[0]
INTS = 'cpirgb'
def fmt(r):
    return ','.join([d2h(r.x), d2h(r.y), d2h(r.z)] + [str(getattr(r, k)) for k in INTS] + [str(e) for e in r.extra])
def parse(t):
    w = t.split(',')
    r = sp.PointRecord()
    r.x, r.y, r.z = h2d(w[0]), h2d(w[1]), h2d(w[2])
    for k, v in zip(INTS, w[3:9]): setattr(r, k, int(v))
    r.extra = [int(v) for v in w[9:]]
    return r
def spoil(r):
    r.x = 123.5; r.c = 99; r.b = 7; r.extra = [1, 2, 3, 4]
def text(h): return bytes.fromhex(h[1:]).decode('utf-8')
def hexed(t): return 'h' + t.encode('utf-8').hex()
f = {}
def do(w):
    op, k = w[0], w[1] if len(w) > 1 else None
    if op == 'reset': f.clear(); return ''
    if op == 'version': return '%d %d' % (sp.getmajorversion(), sp.getminorversion())
    if op == 'new': f[k] = sp.SpocFile(text(w[2]), w[3] == '1'); return ''
    if op == 'read': f[k] = sp.readspocfile(text(w[2])); return ''
    if op == 'write': sp.writespocfile(text(w[2]), f[k]); return ''
    if op == 'header':
        h = sp.readheader(text(k))
        return '%d %d %s %d %d %d' % (h.major_version, h.minor_version, hexed(h.wkt), h.extra_fields, h.total_points, int(h.compressed))
    if op == 'setwkt': f[k].setWKT(text(w[2])); return ''
    if op == 'setcomp': f[k].setCompressed(w[2] == '1'); return ''
    if op == 'setrecs':
        prs = [parse(t) for t in w[2:]]
        f[k].setPointRecords(prs)
        for r in prs: spoil(r)
        prs.clear()
        return ''
    if op == 'setrec':
        r = parse(w[3])
        try: f[k].setPointRecord(int(w[2]), r)
        finally: spoil(r)
        return ''
    if op == 'getrec':
        r = f[k].getPointRecord(int(w[2]))
        t = fmt(r)
        spoil(r)
        return t
    if op == 'getextra':
        v = f[k].getExtra(int(w[2]))
        t = ','.join(str(e) for e in v)
        if len(v): v[0] = 5
        return t
    if op == 'field':
        r = parse(w[3])
        try: setattr(r, w[1], [int(w[2])] if w[1] == 'extra' else int(w[2]))
        except Exception as e: return 'refused ' + fmt(r)
        return 'set ' + fmt(r)
    if op == 'dump':
        o = f[k]
        prs = o.getPointRecords()
        t = [str(o.getMajorVersion()), str(o.getMinorVersion()), hexed(o.getWKT()), str(int(o.getCompressed())), str(len(prs))]
        t += [fmt(r) for r in prs]
        for r in prs: spoil(r)
        prs.clear()
        n = int(t[4])
        cols = [[d2h(v) for v in c] for c in (o.getX(), o.getY(), o.getZ())]
        cols += [[str(v) for v in c] for c in (o.getC(), o.getP(), o.getI(), o.getR(), o.getG(), o.getB())]
        if n:
            cols += [[str(v) for v in o.getExtra(j)] for j in range(len(t[5].split(',')) - 9)]
        if any(len(c) != n for c in cols): return 'columns of lengths ' + str([len(c) for c in cols]) + ' for %d records' % n
        t += [','.join(c[j] for c in cols) for j in range(n)]
        return ' '.join(t)
    raise AssertionError('unknown op')
for line in sys.stdin:
    try: s = 'V ' + do(line.split())
    except Exception as e: s = 'E ' + type(e).__name__ + ' ' + str(e).replace('\n', ' ')[:300]
    sys.stdout.write(s + '\n')
    sys.stdout.flush()
)PY";

// One interpreter per worker process
struct python
{
    pid_t pid = 0;
    int in = -1, out = -1;
    std::string buf;
    void start ()
    {
        if (pid && owner == getpid ()) return;
        int a[2], b[2];
        if (pipe2 (a, O_CLOEXEC) || pipe2 (b, O_CLOEXEC)) throw std::runtime_error ("harness: pipe");
        owner = getpid ();
        buf.clear ();
        pid = fork ();
        if (pid == 0)
        {
            prctl (PR_SET_PDEATHSIG, SIGKILL);
            dup2 (a[0], 0);
            dup2 (b[1], 1);
            setenv ("OMP_NUM_THREADS", "2", 1);
            execl ("/usr/bin/python3", "python3", "-B", "-c", SCRIPT, nullptr);
            _exit (127);
        }
        close (a[0]);
        close (b[1]);
        in = a[1];
        out = b[0];
    }
    void stop ()
    {
        if (!pid || owner != getpid ()) return;
        close (in);
        close (out);
        kill (pid, SIGKILL);
        waitpid (pid, nullptr, 0);
        pid = 0;
    }
    pid_t owner = 0;
    // The reply to one call; a dead interpreter is a failure of the call
    std::string ask (const std::string &line, bool fresh = false)
    {
        start ();
        const std::string msg = line + "\n";
        const double t0 = pbt::now ();
        size_t sent = 0;
        fcntl (in, F_SETFL, O_NONBLOCK);
        while (true)
        {
            const auto nl = buf.find ('\n');
            if (nl != std::string::npos)
            {
                std::string r = buf.substr (0, nl);
                buf.erase (0, nl + 1);
                return r;
            }
            pollfd p[2] = { { sent < msg.size () ? in : -1, POLLOUT, 0 }, { out, POLLIN, 0 } };
            poll (p, 2, 1000);
            if (pbt::now () - t0 > 60) { stop (); throw pbt::Failure { "the Python call did not terminate: " + line.substr (0, 300) }; }
            if (sent < msg.size () && p[0].revents)
            {
                const ssize_t k = ::write (in, msg.data () + sent, msg.size () - sent);
                if (k > 0) sent += k;
            }
            if (p[1].revents)
            {
                char t[65536];
                const ssize_t k = ::read (out, t, sizeof t);
                if (k <= 0)
                {
                    int st = 0;
                    close (in); close (out);
                    waitpid (pid, &st, 0);
                    pid = 0;
                    if (WIFEXITED (st) && WEXITSTATUS (st) == 127) throw std::runtime_error ("harness: no python3");
                    std::ostringstream o;
                    o << "the Python interpreter ended (" << (WIFSIGNALED (st) ? "signal " : "status ") << (WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st)) << ") in: " << line.substr (0, 300);
                    throw pbt::Failure { o.str () };
                }
                buf.append (t, k);
            }
        }
    }
} py;

static std::string hex (const std::string &t)
{
    std::string h = "h";
    for (unsigned char c : t) { h += "0123456789abcdef"[c >> 4]; h += "0123456789abcdef"[c & 15]; }
    return h;
}
static std::string text (const rec &r)
{
    std::ostringstream o;
    char b[20];
    for (double d : { r.x, r.y, r.z }) { snprintf (b, sizeof b, "%016llx", (unsigned long long) bits (d)); o << b << ','; }
    o << r.c << ',' << r.p << ',' << r.i << ',' << r.r << ',' << r.g << ',' << r.b;
    for (auto e : r.e) o << ',' << e;
    return o.str ();
}

static std::string gen_utf8 (pbt::Source &s)
{
    const uint64_t n = s.draw (12) == 0 ? s.pick ({ 20000, 16383, 30000 }) : s.pick ({ 0, 1, 5, 40, 300 });
    pbt::Bulk b = s.sub ();
    const bool ascii = b.chance (1, 2);
    std::string t;
    while (t.size () < n)
    {
        uint32_t u = ascii || b.chance (1, 2) ? 32 + b.below (95) : b.chance (1, 2) ? b.below (0x800) : b.chance (1, 2) ? b.below (0xd800) : 0x10000 + b.below (0x100000);
        if (u < 0x80) t += char (u);
        else if (u < 0x800) { t += char (0xc0 | u >> 6); t += char (0x80 | (u & 63)); }
        else if (u < 0x10000) { t += char (0xe0 | u >> 12); t += char (0x80 | (u >> 6 & 63)); t += char (0x80 | (u & 63)); }
        else { t += char (0xf0 | u >> 18); t += char (0x80 | (u >> 12 & 63)); t += char (0x80 | (u >> 6 & 63)); t += char (0x80 | (u & 63)); }
    }
    return t;
}
static cloud gen (pbt::Source &s, unsigned max_points = 40)
{
    gen_opts o;
    o.max_points = max_points;
    o.max_extras = s.chance (1, 15) && max_points < 1000 ? 255 : 6;
    cloud c = gen_cloud (s, o, -1, false);
    c.wkt = gen_utf8 (s);
    return c;
}

// A call that must succeed; its value
static std::string good (const std::string &call)
{
    const auto r = py.ask (call);
    CHECK_MSG (r.rfind ("V ", 0) == 0, "'" << call.substr (0, 300) << "' raised " << r.substr (0, 400));
    return r.substr (2);
}
// A call that must raise
static void bad (const std::string &call, const std::string &what)
{
    const auto r = py.ask (call);
    CHECK_MSG (r.rfind ("E ", 0) == 0, what << ": no exception; the value was " << r.substr (0, 200) << ", the call " << call.substr (0, 200));
    CHECK_MSG (r.size () > 4, what << ": " << r);
}

static void observe (unsigned k, const cloud &m, const std::string &what)
{
    const auto got = good ("dump " + std::to_string (k));
    std::ostringstream o;
    o << "0 1 " << hex (m.wkt) << ' ' << m.compressed << ' ' << m.r.size ();
    for (int pass = 0; pass < 2; ++pass) for (const auto &r : m.r) o << ' ' << text (r);
    const auto want = o.str ();
    if (got == want) return;
    std::istringstream a (got), b (want);
    std::string x, y;
    unsigned at = 0;
    do { x.clear (); y.clear (); a >> x; b >> y; ++at; } while (x == y && !x.empty ());
    throw pbt::Failure { what + ": item " + std::to_string (at) + " of the object (version, version, wkt, compressed, count, records, columns) is '" + x.substr (0, 300) + "', expected '" + y.substr (0, 300) + "'" };
}

static std::string index_text (pbt::Source &s, size_t n, bool &inside)
{
    inside = true;
    if (n && !s.chance (1, 3)) return std::to_string (s.draw (n));
    inside = false;
    switch (s.draw (6))
    {
        case 0: return std::to_string (n);
        case 1: return std::to_string (n + 1 + s.draw (5));
        case 2: return "-1";
        case 3: return "-" + std::to_string (n);
        case 4: return "18446744073709551615";
        default: return "4294967296";
    }
}

// ---- reading: the binding shows exactly what the format describes ----
PROP (reading, 15000, "files with at least one record")
{
    const auto c = gen (s, s.rare (5) ? 140000 : 120);
    NOTE (s, c);
    const auto fn = cli::path ("r.spoc");
    cli::put (fn, encode (c, s.range (1, 9), s.coin ()));
    good ("reset");
    good ("read 0 " + hex (fn));
    observe (0, c, "reading a file");
    std::ostringstream o;
    o << "0 1 " << hex (c.wkt) << ' ' << c.extras () << ' ' << c.r.size () << ' ' << c.compressed;
    const auto h = good ("header " + hex (fn));
    CHECK_MSG (h == o.str (), "readheader gives " << h.substr (0, 300) << ", expected " << o.str ().substr (0, 300));
    CHECK (good ("version") == "0 1");
    if (c.r.size ()) s.nontrivial ();
    s.label (c.compressed ? "compressed" : "uncompressed");
}

// ---- writing what a file in hand holds ----
PROP (writing, 15000, "files with at least one record")
{
    const auto c = gen (s, s.rare (5) ? 140000 : 120);
    NOTE (s, c);
    const auto fn = cli::path ("w.spoc");
    good ("reset");
    good ("new 0 " + hex (c.wkt) + (c.compressed ? " 1" : " 0"));
    std::string call = "setrecs 0";
    for (const auto &r : c.r) call += " " + text (r);
    good (call);
    observe (0, c, "after setPointRecords");
    unlink (fn.c_str ());
    if (s.coin ()) cli::put (fn, std::string (s.range (0, 20000), 'x')); // an older, maybe longer file
    good ("write 0 " + hex (fn));
    const auto bytes = cli::get (fn);
    if (!c.compressed) CHECK_MSG (bytes == encode (c), "writespocfile wrote " << bytes.size () << " bytes that are not the documented layout (" << encode (c).size () << " bytes)");
    check_same (decode_all (bytes, "the file written"), c, "the file written");
    observe (0, c, "after writing");
    if (c.r.size ()) s.nontrivial ();
}

// ---- histories of binding calls ----
PROP (histories, 20000, "histories that change contents at least three times")
{
    const unsigned objects = 2;
    std::vector<cloud> m (objects);
    good ("reset");
    for (unsigned k = 0; k < objects; ++k) good ("new " + std::to_string (k) + " h 0");
    const unsigned steps = s.range (1, 16);
    unsigned changes = 0, refusals = 0;
    for (unsigned t = 0; t < steps; ++t)
    {
        const unsigned k = s.draw (objects), op = s.draw (12);
        const auto ks = " " + std::to_string (k);
        auto &c = m[k];
        std::string what;
        switch (op)
        {
            case 0: case 1:
            {
                what = "setPointRecords";
                gen_opts o;
                auto v = gen_records (s, s.range (0, 12), s.range (0, 4), o);
                const bool mixed = v.size () > 1 && s.chance (1, 3);
                if (mixed) v[s.draw (v.size ())].e.push_back (3);
                std::string call = "setrecs" + ks;
                for (const auto &r : v) call += " " + text (r);
                if (mixed) { bad (call, "setPointRecords with inconsistent extra fields"); ++refusals; }
                else { good (call); c.r = v; ++changes; }
                break;
            }
            case 2: case 3:
            {
                what = "setPointRecord";
                bool inside;
                const auto i = index_text (s, c.r.size (), inside);
                const unsigned e = s.chance (3, 4) ? c.extras () : s.range (0, 5);
                const auto r = gen_records (s, 1, e, gen_opts ())[0];
                const auto call = "setrec" + ks + " " + i + " " + text (r);
                if (!inside || e != c.extras ()) { bad (call, "setPointRecord with index " + i + " of " + std::to_string (c.r.size ())); ++refusals; }
                else { good (call); c.r[std::stoul (i)] = r; ++changes; }
                break;
            }
            case 4:
            {
                what = "getPointRecord";
                bool inside;
                const auto i = index_text (s, c.r.size (), inside);
                if (!inside) { bad ("getrec" + ks + " " + i, "getPointRecord(" + i + ") of " + std::to_string (c.r.size ())); ++refusals; }
                else
                {
                    const auto got = good ("getrec" + ks + " " + i);
                    CHECK_MSG (got == text (c.r[std::stoul (i)]), "getPointRecord(" << i << ") is " << got << ", expected " << text (c.r[std::stoul (i)]));
                }
                break;
            }
            case 5:
            {
                what = "getExtra";
                if (c.r.empty ()) break;
                bool inside;
                const auto j = index_text (s, c.extras (), inside);
                if (!inside) { bad ("getextra" + ks + " " + j, "getExtra(" + j + ") of " + std::to_string (c.extras ())); ++refusals; }
                else
                {
                    std::string want;
                    for (const auto &r : c.r) want += (want.empty () ? "" : ",") + std::to_string (r.e[std::stoul (j)]);
                    const auto got = good ("getextra" + ks + " " + j);
                    CHECK_MSG (got == want, "getExtra(" << j << ") is " << got << ", expected " << want);
                }
                break;
            }
            case 6: what = "setWKT"; c.wkt = s.chance (1, 12) ? std::string (65536, 'w') : gen_utf8 (s); good ("setwkt" + ks + " " + hex (c.wkt)); break;
            case 7: what = "setCompressed"; c.compressed = s.coin (); good ("setcomp" + ks + (c.compressed ? " 1" : " 0")); break;
            case 8: case 9:
            {
                what = "writing";
                const auto fn = cli::path ("h.spoc");
                unlink (fn.c_str ());
                if (c.wkt.size () > 65535) { bad ("write" + ks + " " + hex (fn), "writing a WKT of 65536 bytes"); ++refusals; break; }
                if (s.chance (1, 5)) { bad ("write" + ks + " " + hex (cli::path ("none/h.spoc")), "writing into a missing directory"); ++refusals; }
                if (s.chance (1, 5)) { bad ("write" + ks + " " + hex ("/dev/full"), "writing to a full device"); ++refusals; }
                good ("write" + ks + " " + hex (fn));
                check_same (decode_all (cli::get (fn), "the file written"), c, "the file written");
                const unsigned j = s.draw (objects);
                good ("read " + std::to_string (j) + " " + hex (fn));
                m[j] = cloud (c);
                ++changes;
                break;
            }
            case 10: what = "SpocFile"; c = cloud (); c.wkt = gen_utf8 (s); c.compressed = s.coin (); good ("new" + ks + " " + hex (c.wkt) + (c.compressed ? " 1" : " 0")); ++changes; break;
            default:
            {
                what = "reading";
                const auto d = gen (s, 20);
                const auto fn = cli::path ("h2.spoc");
                cli::put (fn, encode (d));
                good ("read" + ks + " " + hex (fn));
                c = d;
                ++changes;
            }
        }
        NOTE (s, what << "[" << k << "] ");
        for (unsigned q = 0; q < objects; ++q)
            observe (q, m[q], "object " + std::to_string (q) + " after step " + std::to_string (t) + ", " + what + " of object " + std::to_string (k));
    }
    if (changes >= 3) s.nontrivial ();
    s.label_if (refusals > 0, "some call refused");
}

// ---- bad files ----
PROP (bad_files, 15000, "damaged files")
{
    const auto c = gen (s, 20);
    const auto whole = encode (c);
    const auto fn = cli::path ("b.spoc");
    auto b = whole;
    const size_t hs = enc_header (c.wkt, c.extras (), c.r.size (), c.compressed).size ();
    bool header_bad = true;
    good ("reset");
    good ("new 0 h41 1");
    const unsigned kind = s.draw (5);
    NOTE (s, c << " damage " << kind);
    switch (kind)
    {
        case 0: b.resize (s.draw (hs)); break;
        case 1:
            if (b.size () == hs) s.discard ();
            b.resize (s.range (hs, b.size () - 1));
            header_bad = false;
            break;
        case 2: b[s.draw (4)] ^= 1 + s.draw (255); break;
        case 3: b[4 + s.draw (2)] ^= 1 + s.draw (255); break;
        default: b = ""; break;
    }
    cli::put (fn, b);
    if (kind == 4 && s.coin ()) unlink (fn.c_str ());
    bad ("read 0 " + hex (fn), "readspocfile of a damaged file");
    cloud m;
    m.wkt = "A";
    m.compressed = true;
    observe (0, m, "after a refused read");
    if (header_bad) bad ("header " + hex (fn), "readheader of a damaged file");
    else
    {
        std::ostringstream o;
        o << "0 1 " << hex (c.wkt) << ' ' << c.extras () << ' ' << c.r.size () << ' ' << c.compressed;
        const auto h = good ("header " + hex (fn));
        CHECK_MSG (h == o.str (), "readheader gives " << h.substr (0, 300) << ", expected " << o.str ().substr (0, 300));
    }
    s.nontrivial ();
    s.label_if (!header_bad, "body damaged");
}

// ---- record fields: values in range are held exactly, others refused ----
PROP (record_fields, 20000, "all")
{
    const auto r = gen_records (s, 1, s.range (0, 3), gen_opts ())[0];
    const unsigned k = s.draw (7);
    static const char *names[] = { "c", "p", "i", "r", "g", "b", "extra" };
    const unsigned w = k < 2 ? 32 : k < 6 ? 16 : 64;
    const unsigned __int128 top = (((unsigned __int128) 1) << w) - 1;
    pbt::Bulk b = s.sub ();
    unsigned __int128 v = 0;
    bool neg = false;
    switch (s.draw (5))
    {
        case 0: v = b.next () & uint64_t (top); break;
        case 1: v = top; break;
        case 2: v = top + 1 + b.below (3); break;
        case 3: v = 1 + b.below (70000); neg = true; break;
        default: v = b.below (3);
    }
    std::string t;
    for (auto q = v; q || t.empty (); q /= 10) t.insert (t.begin (), char ('0' + int (q % 10)));
    if (neg) t = "-" + t;
    const bool fits = !neg && v <= top;
    auto want = r;
    if (fits)
        switch (k)
        {
            case 0: want.c = v; break;
            case 1: want.p = v; break;
            case 2: want.i = v; break;
            case 3: want.r = v; break;
            case 4: want.g = v; break;
            case 5: want.b = v; break;
            default: want.e = { uint64_t (v) };
        }
    NOTE (s, names[k] << " = " << t);
    const auto got = good (std::string ("field ") + names[k] + " " + t + " " + text (r));
    CHECK_MSG (got == (fits ? "set " : "refused ") + text (want), "setting " << names[k] << " to " << t << " gives '" << got << "', expected '" << (fits ? "set " : "refused ") << text (want) << "'");
    s.nontrivial ();
    s.label_if (!fits, "out of range");
}

PBT_MAIN
