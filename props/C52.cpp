// C52: outcomes are determined by the inputs, the options and the seed
#include "calls.h"
#include "jobs.h"
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <sys/stat.h>
using namespace jobs;

// Everything around a program that is none of its business
static cli::opts surroundings (pbt::Source &s, bool stdin_unused, std::string &text)
{
    cli::opts o;
    o.bare_env = true;
    const std::string fill = s.pick<std::string> ({ "", "-zero", "-pattern" });
    o.bin = pbt::env ().bin + fill;
    auto set = [&] (const std::string &name, const std::string &value) { o.env.push_back (name + "=" + value); };
    set ("OMP_WAIT_POLICY", "passive");
    set ("OMP_NUM_THREADS", std::to_string (s.range (1, 5)));
    if (s.coin ()) set ("MALLOC_PERTURB_", std::to_string (s.range (1, 255)));
    if (s.coin ()) set ("LANG", s.pick<std::string> ({ "C", "C.utf8", "POSIX", "de_DE.UTF-8", "xx" }));
    if (s.coin ()) set ("LC_ALL", s.pick<std::string> ({ "C", "C.utf8", "", "fr_FR" }));
    if (s.coin ()) set ("TZ", s.pick<std::string> ({ "UTC", "Asia/Tokyo", "EST5EDT" }));
    if (s.coin ()) set ("TMPDIR", s.pick<std::string> ({ "/nonexistent", "/tmp", "" }));
    if (s.coin ()) set ("HOME", s.pick<std::string> ({ "/", "/nonexistent" }));
    if (s.coin ()) set ("PATH", s.pick<std::string> ({ "", "/usr/bin" }));
    static const char *names[] = { "SEED", "RANDOM_SEED", "SPOC_SEED", "RANDOM", "VERBOSE", "SPOC_VERBOSE", "DEBUG", "SPOC_DEBUG", "QUIET", "SPOC_QUIET", "COLUMNS", "LINES", "TERM", "USER", "PWD",
        "FORCE", "NO_COLOR", "SOURCE_DATE_EPOCH", "SPOC_LEVEL", "COMPRESSION_LEVEL", "GZIP", "PRECISION", "SPOC_PRECISION", "SPOC_FORMAT", "SPOC_WKT", "SPOC_OPTIONS", "CI", "SHELL", "EDITOR" };
    for (const char *n : names)
        if (s.chance (1, 4)) set (n, s.pick<std::string> ({ "1", "0", "", "true", "7", "80" }));
    if (s.chance (1, 20)) set ("LONG", std::string (100000, 'x'));
    if (s.coin ())
    {
        set ("LD_PRELOAD", pbt::env ().bin + "/surround.so");
        set ("SURROUND_TIME", std::to_string (s.irange (-1500000000, 3000000000)));
        set ("SURROUND_PID", std::to_string (s.range (1, 4000000)));
        set ("SURROUND_UID", std::to_string (s.pick ({ 0, 1, 1000, 65534 })));
        set ("SURROUND_TTY", std::to_string (s.draw (2)));
        if (s.coin ()) set ("SURROUND_CPUS", std::to_string (s.range (1, 9)));
        if (s.coin ()) set ("SURROUND_ANY", s.pick<std::string> ({ "1", "0", "", "true", "9", "80", "/tmp", "x" }));
    }
    const auto mask = s.pick ({ 022, 077, 0 });
    const long stack = s.pick ({ 1, 4, 8, 64 });
    const unsigned fds = s.draw (6), in = stdin_unused ? unsigned (s.draw (4)) : 0;
    const bool alone = s.coin ();
    const unsigned cpus = s.draw (4);
    o.prepare = [=] {
        umask (mask);
        rlimit rl;
        rl.rlim_cur = stack << 20;
        rl.rlim_max = RLIM_INFINITY;
        if (getrlimit (RLIMIT_STACK, &rl) == 0) { rl.rlim_cur = stack << 20; setrlimit (RLIMIT_STACK, &rl); }
        for (unsigned k = 0; k < fds; ++k) (void) !open ("/dev/null", O_RDWR);
        if (in == 1) close (0);
        if (in == 2) { const int n = open ("/dev/null", O_RDWR); dup2 (n, 0); close (n); }
        if (in == 3) { const int n = open ("/", O_RDONLY | O_DIRECTORY); dup2 (n, 0); close (n); }
        if (alone) setsid ();
        if (cpus)
        {
            // fewer processors
            cpu_set_t have, use;
            CPU_ZERO (&have);
            CPU_ZERO (&use);
            if (sched_getaffinity (0, sizeof have, &have) == 0)
            {
                unsigned n = 0;
                for (int k = 0; k < CPU_SETSIZE && n < cpus; ++k) if (CPU_ISSET (k, &have)) { CPU_SET (k, &use); ++n; }
                sched_setaffinity (0, sizeof use, &use);
            }
        }
    };
    std::ostringstream t;
    t << "tools" << fill << ", umask " << mask << ", stack " << stack << "M, " << cpus << " processors, " << fds << " more files open, stdin " << in;
    for (const auto &e : o.env) t << ", " << e.substr (0, 60);
    text = t.str ();
    return o;
}

struct seen_t
{
    cli::result r;
    std::string made, text;
};

PROP (programs, 3000, "the invocation succeeds on a file with records")
{
    static const std::vector<std::string> all = [] { auto t = tools (); t.push_back ("noop"); t.push_back ("spoc_filter"); t.push_back ("spoc_transform"); return t; } ();
    const auto tool = all[s.draw (all.size ())];
    const bool example = tool[0] != 's' || tool[1] != 'p';
    auto j = example ? job () : gen_job (s, tool);
    j.tool = tool;
    if (example) j.c = gen_input (s, 0);
    // often enough records for what is only done to many
    if (s.chance (1, 6)) j.c = gen_input_of (s, tool == "spoc_transform" || tool == "spoc_compress" || example ? 0 : j.c.compressed, s.range (500, 9000));
    if (tool == "spoc_filter" && s.coin ()) j.opts = { s.coin () ? "-u" : "--subsample=" + std::to_string (s.range (1, 20)) };
    if (tool == "spoc_transform" && s.chance (1, 3))
    {
        j.opts.clear ();
        for (unsigned k = s.range (1, 3); k; --k)
            j.opts.push_back (s.pick<std::string> ({ "--uniform-noise=1", "--gaussian-noise=2", "--uniform-noise-x=1", "--uniform-noise-y=2", "--uniform-noise-z=1", "--gaussian-noise-x=1", "--gaussian-noise-y=1", "--gaussian-noise-z=1" }));
    }
    if ((tool == "spoc_filter" || tool == "spoc_transform") && s.chance (2, 3)) j.opts.push_back ("--random-seed=" + std::to_string (s.coin () ? s.draw (4) : s.draw (2147483647)));
    auto in = encode (j.c);
    const unsigned damage = s.draw (12);
    if (damage == 0) in.resize (s.draw (in.size ()));
    if (damage == 1) in[s.draw (6)] ^= 0x55;
    std::vector<std::string> a = { tool };
    const bool usage = s.chance (1, 20) && !example;
    if (usage) a.push_back (s.pick<std::string> ({ "--help", "--version", "--unknown", "--verbose=3" }));
    a.insert (a.end (), j.opts.begin (), j.opts.end ());
    if (s.chance (1, 4) && !example) a.push_back ("--verbose");
    const std::string ext = j.c.compressed ? ".zpoc" : ".spoc";
    const auto f_in = cli::path ("in" + ext), f_real = cli::path ("real"), f_out = cli::path ("out.spoc");
    std::string feed;
    bool by_name = !example && s.chance (2, 3);
    bool named_out = false;
    switch (j.kind)
    {
        case job::IN_OUT: if (by_name) { a.push_back (f_in); if ((named_out = s.coin ())) a.push_back (f_out); } break;
        case job::SRS_SET: if (by_name) { a.push_back (f_in); a.push_back (f_out); named_out = true; } break;
        case job::FILES_ONLY:
            by_name = true;
            a.push_back (f_in);
            for (size_t k = 0; k < j.more.size (); ++k) { a.push_back (cli::path ("more" + std::to_string (k))); cli::put (a.back (), encode (j.more[k])); }
            break;
        case job::TILE: by_name = by_name || s.coin (); if (by_name) a.push_back (f_in); if (!by_name || s.coin ()) a.push_back ("--prefix=t"); break;
        default: if (by_name) a.push_back (f_in);
    }
    if (!by_name) feed = in;
    for (const auto &f : j.side) cli::put (cli::path (f.first), f.second);
    NOTE (s, cli::shell_text (a) << " on " << j.c.r.size () << " records, damage " << damage);
    s.label (tool);
    std::vector<seen_t> seen;
    const unsigned runs = s.range (2, 4);
    for (unsigned k = 0; k < runs; ++k)
    {
        seen_t x;
        // first as the checks always do
        const bool plain = k == 0;
        cli::opts o;
        if (plain) x.text = "plainly";
        else o = surroundings (s, by_name, x.text);
        o.cwd = cli::fresh_dir (plain ? "here" : s.pick<std::string> ({ "there", "d i r", "0", "here" }));
        // the same file, in another guise
        unlink (f_in.c_str ());
        unlink (f_real.c_str ());
        unlink (f_out.c_str ());
        const unsigned guise = plain ? 0 : s.draw (4);
        cli::put (guise == 1 ? f_real : f_in, in);
        if (guise == 1 && symlink (f_real.c_str (), f_in.c_str ())) throw std::runtime_error ("harness: symlink");
        if (guise == 2 && link (f_in.c_str (), f_real.c_str ())) throw std::runtime_error ("harness: link");
        if (guise == 3) { chmod (f_in.c_str (), 0400); timespec ts[2] = { { 0, 0 }, { time_t (s.draw (2000000000)), 0 } }; utimensat (AT_FDCWD, f_in.c_str (), ts, 0); }
        if (!plain && named_out && !usage && s.coin ()) cli::put (f_out, std::string (s.draw (50000), 'x'));
        x.r = cli::run (a, feed, o);
        x.made = named_out && x.r.ok () ? cli::get (f_out) : "";
        x.made += "|" + dir_bytes (o.cwd);
        CHECK_MSG (cli::get (f_in) == in, cli::shell_text (a) << " changed its input, " << x.text);
        // messages may name the program
        if (!o.bin.empty ()) for (size_t p; o.bin != pbt::env ().bin && (p = x.r.err.find (o.bin)) != std::string::npos;) x.r.err.replace (p, o.bin.size (), pbt::env ().bin);
        seen.push_back (x);
        const auto &f = seen[0];
        CHECK_MSG (x.r.exited () && x.r.status == f.r.status, cli::shell_text (a) << ": " << x.r.text () << " [" << x.text << "]; plainly: " << f.r.text ());
        CHECK_MSG (x.r.out == f.r.out, cli::shell_text (a) << " prints " << x.r.out.size () << " other bytes [" << x.text << "] than the " << f.r.out.size () << " it prints plainly: " << pbt::tail (x.r.out, 100) << " / " << pbt::tail (f.r.out, 100));
        CHECK_MSG (x.made == f.made, cli::shell_text (a) << " makes other files [" << x.text << "]");
        CHECK_MSG (x.r.err == f.r.err, cli::shell_text (a) << " says '" << pbt::tail (x.r.err, 300) << "' [" << x.text << "], plainly '" << pbt::tail (f.r.err, 300) << "'");
    }
    s.label_if (!seen[0].r.ok (), "refused");
    if (seen[0].r.ok () && !j.c.r.empty () && !usage) s.nontrivial ();
}

// ---- the library: whatever the memory it gets was used for ----
__attribute__ ((noinline)) static void paint (unsigned char c)
{
    volatile unsigned char a[256 * 1024];
    memset ((void *) a, c, sizeof a);
    asm volatile ("" : : "r" (a) : "memory");
}
struct heap_fill
{
    heap_fill (int c) { mallopt (M_PERTURB, c); }
    ~heap_fill () { mallopt (M_PERTURB, 0); }
};
PROP (memory, 20000, "operations on records")
{
    const unsigned pool = s.range (1, 3);
    const auto w = calls::gen_world (s, pool, s.chance (1, 100) ? 4000 : s.chance (1, 20) ? 600 : 30);
    std::vector<calls::op> ops (s.range (1, 6));
    for (auto &q : ops)
    {
        q.kind = s.draw (calls::KINDS);
        q.a = s.draw (pool);
        q.b = q.kind == 1 ? s.draw (w.bytes.size ()) : s.draw (pool);
        q.seed = s.draw (1000);
        s.label (calls::NAMES[q.kind]);
    }
    std::ostringstream t;
    for (const auto &q : ops) t << calls::NAMES[q.kind] << " (" << q.a << ", " << q.b << ", " << q.seed << "); ";
    NOTE (s, t.str ());
    auto all = [&] (unsigned char c) {
        heap_fill h (c);
        std::vector<std::string> v;
        for (const auto &q : ops) { paint (c); v.push_back (calls::perform (w, q)); }
        return v;
    };
    const auto u = all (0), v = all (0xa5), x = all (0x01);
    for (size_t k = 0; k < ops.size (); ++k)
        CHECK_MSG (u[k] == v[k] && u[k] == x[k], calls::NAMES[ops[k].kind] << " depends on what memory was used for before");
    for (const auto &c : w.c) if (!c.r.empty ()) s.nontrivial ();
}

PBT_MAIN
