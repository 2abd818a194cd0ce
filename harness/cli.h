// Run the command line tools under test
#pragma once
#include "model.h"
#include <dirent.h>
#include <poll.h>

namespace cli
{

struct opts
{
    long fsize = -1;          // RLIMIT_FSIZE
    int threads = 2;          // OMP_NUM_THREADS
    std::string out_file;     // send stdout to a file
    std::string in_file;      // take stdin from a file
    bool close_stdout_early = false; // read only the first bytes of stdout, then close
    unsigned cpu_s = 40;
    std::string cwd;
    long as_mb = 0;           // address space limit
    long data_mb = 0;         // limit on the memory that is written (RLIMIT_DATA)
    std::vector<std::string> env; // further NAME=VALUE
    std::function<void ()> prepare; // in the new process
    std::string bin;              // where the tools are, if not in the usual place
    bool bare_env = false;        // only 'env'
};

struct result
{
    int status = -1; // exit status, or -1
    int sig = 0;
    std::string out, err;
    bool timed_out = false;
    // A clean end: exited by itself, and no sanitizer or abort was involved
    bool exited () const { return sig == 0 && !timed_out; }
    bool ok () const { return exited () && status == 0; }
    // Failed, with a message, by itself
    bool rejected () const { return exited () && status != 0 && status != 77; }
    std::string text () const
    {
        std::ostringstream o;
        if (timed_out) o << "timed out";
        else if (sig) o << "killed by signal " << sig;
        else o << "exit status " << status;
        o << ", stderr: " << pbt::tail (err, 900);
        return o.str ();
    }
};

inline std::string shell_text (const std::vector<std::string> &a)
{
    std::string t;
    for (const auto &x : a) t += (t.empty () ? "" : " ") + (x.empty () || x.find_first_of (" \"'()[]$*?;&|<>\n") != std::string::npos ? "'" + x + "'" : x);
    return t;
}

inline result run (std::vector<std::string> args, const std::string &in = "", const opts &o = opts ())
{
    if (args[0].find ('/') == std::string::npos)
        args[0] = (o.bin.empty () ? pbt::env ().bin : o.bin) + "/" + args[0];
    std::vector<char *> av;
    for (auto &a : args) av.push_back (const_cast<char *> (a.c_str ()));
    av.push_back (nullptr);
    std::vector<std::string> ev = { "PATH=/usr/bin:/bin", "HOME=/tmp", "LANG=C.UTF-8", "OMP_NUM_THREADS=" + std::to_string (o.threads),
        "OMP_WAIT_POLICY=passive", "ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=0:hard_rss_limit_mb=6000:max_allocation_size_mb=4000", "UBSAN_OPTIONS=print_stacktrace=0" };
    if (o.bare_env) ev.clear ();
    for (const auto &x : o.env) ev.push_back (x);
    std::vector<char *> en;
    for (auto &e : ev) en.push_back (const_cast<char *> (e.c_str ()));
    en.push_back (nullptr);

    int pin[2], pout[2], perr[2];
    if (pipe2 (pin, O_CLOEXEC) || pipe2 (pout, O_CLOEXEC) || pipe2 (perr, O_CLOEXEC)) throw std::runtime_error ("harness: pipe");
    const pid_t pid = fork ();
    if (pid < 0) throw std::runtime_error ("harness: fork");
    if (pid == 0)
    {
        signal (SIGPIPE, SIG_DFL);
        signal (SIGXFSZ, SIG_IGN);
        int i = pin[0], q = pout[1];
        if (!o.in_file.empty ()) i = open (o.in_file.c_str (), O_RDONLY);
        if (!o.out_file.empty ()) q = open (o.out_file.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2 (i, 0);
        dup2 (q, 1);
        dup2 (perr[1], 2);
        if (!o.cwd.empty () && chdir (o.cwd.c_str ())) _exit (126);
        rlimit rl;
        rl.rlim_cur = rl.rlim_max = o.cpu_s;
        setrlimit (RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit (RLIMIT_CORE, &rl);
        if (o.fsize >= 0) { rl.rlim_cur = rl.rlim_max = o.fsize; setrlimit (RLIMIT_FSIZE, &rl); }
        if (o.as_mb && pbt::env ().variant == "rel") { rl.rlim_cur = rl.rlim_max = o.as_mb << 20; setrlimit (RLIMIT_AS, &rl); }
        if (o.data_mb && pbt::env ().variant == "rel") { rl.rlim_cur = rl.rlim_max = o.data_mb << 20; setrlimit (RLIMIT_DATA, &rl); }
        if (o.prepare) o.prepare ();
        execve (av[0], av.data (), en.data ());
        _exit (127);
    }
    close (pin[0]);
    close (pout[1]);
    close (perr[1]);
    fcntl (pin[1], F_SETFL, O_NONBLOCK);
    result r;
    size_t sent = 0;
    int w = pin[1], a = pout[0], b = perr[0];
    if (in.empty () || !o.in_file.empty ()) { close (w); w = -1; }
    const double t0 = pbt::now ();
    std::vector<char> buf (1 << 16);
    while (a >= 0 || b >= 0 || w >= 0)
    {
        pollfd p[3] = { { w, POLLOUT, 0 }, { a, POLLIN, 0 }, { b, POLLIN, 0 } };
        const int n = poll (p, 3, 1000);
        if (pbt::now () - t0 > 120) { r.timed_out = true; kill (pid, SIGKILL); break; }
        if (n <= 0) continue;
        if (w >= 0 && p[0].revents)
        {
            const ssize_t k = write (w, in.data () + sent, in.size () - sent);
            if (k > 0) sent += k;
            if ((k < 0 && errno != EAGAIN) || sent == in.size ()) { close (w); w = -1; }
        }
        if (a >= 0 && p[1].revents)
        {
            const ssize_t k = ::read (a, buf.data (), buf.size ());
            if (k > 0) r.out.append (buf.data (), k);
            if (k <= 0 || o.close_stdout_early) { close (a); a = -1; }
        }
        if (b >= 0 && p[2].revents)
        {
            const ssize_t k = ::read (b, buf.data (), buf.size ());
            if (k > 0) { if (r.err.size () < 100000) r.err.append (buf.data (), k); }
            else { close (b); b = -1; }
        }
    }
    for (int f : { w, a, b }) if (f >= 0) close (f);
    int st = 0;
    waitpid (pid, &st, 0);
    if (WIFEXITED (st)) r.status = WEXITSTATUS (st);
    else { r.sig = WTERMSIG (st); if (r.sig == SIGXCPU || (r.sig == SIGKILL && pbt::now () - t0 > 20)) r.timed_out = true; }
    if (r.status == 127 || r.status == 126) throw std::runtime_error ("harness: could not execute " + args[0]);
    return r;
}

// Files in the worker's scratch directory
inline std::string path (const std::string &name) { return pbt::env ().scratch + "/" + name; }
inline void put (const std::string &fn, const std::string &bytes)
{
    std::ofstream f (fn, std::ios::binary | std::ios::trunc);
    f.write (bytes.data (), bytes.size ());
    f.close ();
    if (!f) throw std::runtime_error ("harness: could not write " + fn);
}
inline bool exists (const std::string &fn) { struct stat st; return stat (fn.c_str (), &st) == 0; }
inline std::string get (const std::string &fn) { return pbt::read_file (fn); }
inline std::vector<std::string> ls (const std::string &dir)
{
    std::vector<std::string> v;
    DIR *d = opendir (dir.c_str ());
    if (!d) return v;
    while (auto *e = readdir (d)) { const std::string n = e->d_name; if (n != "." && n != "..") v.push_back (n); }
    closedir (d);
    std::sort (v.begin (), v.end ());
    return v;
}
// An empty directory below the scratch directory
inline std::string fresh_dir (const std::string &name)
{
    const auto d = path (name);
    if (exists (d)) { for (const auto &f : ls (d)) unlink ((d + "/" + f).c_str ()); rmdir (d.c_str ()); }
    mkdir (d.c_str (), 0700);
    return d;
}

// Run a tool that must succeed and write one SPOC file to stdout
inline model::cloud run_cloud (const std::vector<std::string> &args, const std::string &in, const opts &o = opts ())
{
    const auto r = run (args, in, o);
    CHECK_MSG (r.ok (), "'" << shell_text (args) << "' failed: " << r.text ());
    return model::decode_all (r.out, "the output of '" + shell_text (args) + "'");
}

} // namespace cli
