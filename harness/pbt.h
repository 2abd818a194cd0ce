// A small property-based testing runner.
//
// A property is a function of a Source of bounded random choices. Every choice
// is recorded, so a case *is* its choice sequence: it can be replayed exactly,
// shrunk by editing the sequence (delete blocks, zero, minimise), and hashed.
// Workers are forked, and the sequence of the running case lives in shared
// memory, so that a crash, sanitizer abort or hang is caught and shrunk the
// same way as a failed comparison.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string msg;
};
struct Discard
{
};

inline uint64_t mix (uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Bulk generator: a pure function of a recorded seed
struct Bulk
{
    uint64_t s;
    explicit Bulk (uint64_t seed) : s (mix (seed ^ 0x1234567)) {}
    uint64_t next () { s += 0x9e3779b97f4a7c15ull; return mix (s); }
    uint64_t below (uint64_t n) { return n <= 1 ? 0 : next () % n; }
    double unit () { return (next () >> 11) * 0x1.0p-53; }
    bool chance (unsigned num, unsigned den) { return below (den) < num; }
};

constexpr size_t MAX_CHOICES = 1 << 15;

struct Shared
{
    std::atomic<uint64_t> case_no;   // cases started
    std::atomic<uint64_t> n;         // choices made by the running case
    std::atomic<uint32_t> status;    // 0 running, 1 ok, 2 failed, 3 timeout, 4 discarded
    char msg[16384];
    uint64_t choices[MAX_CHOICES];
};

class Source
{
    public:
    // random mode
    Source (Shared *sh, uint64_t seed) : sh (sh), bulk (seed), replay (false) { sh->n = 0; }
    // replay mode
    Source (Shared *sh, const std::vector<uint64_t> &v) : sh (sh), bulk (0), replay (true), script (v) { sh->n = 0; }
    // fuzz mode
    Source (Shared *sh, const uint8_t *p, size_t n) : sh (sh), bulk (0), replay (false), fuzz (p), fuzz_n (n) { sh->n = 0; }

    // Uniform in [0,n); n == 0 means the full 64-bit range
    uint64_t draw (uint64_t n)
    {
        const size_t k = sh->n;
        uint64_t v = 0;
        if (k >= MAX_CHOICES)
            return 0;
        if (fuzz)
        {
            unsigned bytes = 0;
            for (uint64_t m = n - 1; ; m >>= 8) { if (n == 1) break; ++bytes; if (m < 256) break; }
            for (unsigned b = 0; b < bytes && fuzz_i < fuzz_n; ++b)
                v |= uint64_t (fuzz[fuzz_i++]) << (8 * b);
            if (n)
                v %= n;
        }
        else if (replay)
        {
            v = k < script.size () ? script[k] : 0;
            if (n && v >= n)
                v = n - 1;
        }
        else
            v = n ? bulk.below (n) : bulk.next ();
        sh->choices[k] = v;
        sh->n = k + 1;
        return v;
    }
    // The runner steers the size of each case
    void force (uint64_t n, uint64_t v)
    {
        if (fuzz || replay) { size_ = draw (n); return; }
        const size_t k = sh->n;
        sh->choices[k] = v;
        sh->n = k + 1;
        size_ = v;
    }
    uint64_t size () const { return size_; }
    uint64_t range (uint64_t lo, uint64_t hi) { return lo + draw (hi - lo + 1); } // inclusive
    int64_t irange (int64_t lo, int64_t hi) { return lo + int64_t (draw (uint64_t (hi - lo) + 1)); }
    uint64_t u64 () { return draw (0); }
    bool coin () { return draw (2) == 1; }
    bool chance (unsigned num, unsigned den) { return draw (den) >= den - num; } // 0 = no
    // True for 'times' of the cases of a quick run, evenly spaced: for what is too expensive to leave to chance
    bool rare (unsigned times)
    {
        if (fuzz) return draw (1000) == 999;
        if (replay) return draw (2) == 1;
        const uint64_t period = std::max (uint64_t (quick_cases / times), uint64_t (1)), v = case_index % period == period / 2;
        sh->choices[sh->n] = v;
        sh->n = sh->n + 1;
        return v;
    }
    Bulk sub () { return Bulk (draw (uint64_t (1) << 32)); }
    template<typename T> const T &pick (const std::vector<T> &v) { return v[draw (v.size ())]; }
    template<typename T> T pick (std::initializer_list<T> v) { return *(v.begin () + draw (v.size ())); }

    void nontrivial () { nontrivial_ = true; }
    void label (const std::string &s) { labels.insert (s); }
    void label_if (bool f, const std::string &s) { if (f) labels.insert (s); }
    template<typename F> void note (F f) { if (want_notes && notes.size () < 6000) { std::ostringstream o; o.precision (17); f (o); notes += o.str (); } }
    [[noreturn]] void discard () { throw Discard (); }

    Shared *sh;
    bool want_notes = false;
    bool nontrivial_ = false;
    std::set<std::string> labels;
    std::string notes;
    uint64_t case_index = 0;
    double quick_cases = 1e9;

    private:
    Bulk bulk;
    bool replay;
    std::vector<uint64_t> script;
    const uint8_t *fuzz = nullptr;
    size_t fuzz_n = 0, fuzz_i = 0;
    uint64_t size_ = 0;
};

#define NOTE(s, expr) (s).note ([&] (std::ostream &o_) { o_ << expr; })

#define CHECK_MSG(cond, expr)                                                                          \
    do {                                                                                               \
        if (!(cond))                                                                                   \
        {                                                                                              \
            std::ostringstream o_;                                                                     \
            o_.precision (17);                                                                         \
            o_ << expr << "  [" #cond ", " << (__FILE__) << ":" << __LINE__ << "]";                    \
            throw pbt::Failure { o_.str () };                                                          \
        }                                                                                              \
    } while (0)
#define CHECK(cond) CHECK_MSG (cond, "")

struct Prop
{
    std::string name;
    std::string rule;
    double cases;      // quick tier, release variant
    std::function<void (Source &)> fn;
    double case_cpu_s; // CPU seconds one case may use before it counts as non-terminating
};

inline std::vector<Prop> &props ()
{
    static std::vector<Prop> p;
    return p;
}

struct Reg
{
    Reg (const char *name, double cases, const char *rule, std::function<void (Source &)> fn, double cpu = 20)
    {
        props ().push_back (Prop { name, rule, cases, fn, cpu });
    }
};

#define PROP(id, cases, rule) PROP_CPU (id, cases, rule, 20)
#define PROP_CPU(id, cases, rule, cpu)                          \
    static void prop_##id (pbt::Source &s);                     \
    static pbt::Reg reg_##id (#id, cases, rule, prop_##id, cpu); \
    static void prop_##id ([[maybe_unused]] pbt::Source &s)

// Set at start-up
struct Env
{
    std::string variant = "rel";
    std::string bin;     // directory of the command line tools under test
    std::string scratch; // private scratch directory of this process
    bool thorough = false;
};
inline Env &env ()
{
    static Env e;
    return e;
}

inline Shared *g_shared = nullptr;

inline void on_timer (int)
{
    g_shared->status = 3;
    static const char m[] = "the case did not terminate within its CPU-time limit";
    memcpy (g_shared->msg, m, sizeof m);
    _exit (43);
}

inline void set_limit (double cpu_s)
{
    signal (SIGPROF, on_timer);
    struct itimerval t;
    memset (&t, 0, sizeof t);
    t.it_value.tv_sec = long (cpu_s);
    t.it_value.tv_usec = long ((cpu_s - long (cpu_s)) * 1e6);
    setitimer (ITIMER_PROF, &t, nullptr);
}

inline void set_msg (Shared *sh, const std::string &m)
{
    const size_t n = std::min (m.size (), sizeof (sh->msg) - 1);
    memcpy (sh->msg, m.data (), n);
    sh->msg[n] = 0;
}

// Run one case in this process; false on failure
inline bool run_case (const Prop &p, Source &s, uint64_t size_value)
{
    Shared *sh = s.sh;
    sh->status = 0;
    sh->msg[0] = 0;
    set_limit (p.case_cpu_s);
    bool ok = true;
    try
    {
        s.force (101, size_value);
        p.fn (s);
        sh->status = 1;
    }
    catch (const Discard &) { sh->status = 4; }
    catch (const Failure &f) { ok = false; set_msg (sh, f.msg + (s.notes.empty () ? "" : "\ncase: " + s.notes)); }
    catch (const std::exception &e) { ok = false; set_msg (sh, std::string ("unexpected exception: ") + e.what () + (s.notes.empty () ? "" : "\ncase: " + s.notes)); }
    catch (...) { ok = false; set_msg (sh, "unexpected exception of unknown type"); }
    set_limit (0);
    if (!ok)
        sh->status = 2;
    return ok;
}

inline Shared *new_shared ()
{
    void *p = mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror ("mmap"); exit (2); }
    return new (p) Shared ();
}

inline std::string read_file (const std::string &fn)
{
    std::ifstream f (fn, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf ();
    return o.str ();
}

inline std::string json_str (const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char (c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); o += b; }
        else o += char (c);
    }
    return o + "\"";
}

inline double now ()
{
    return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count ();
}

struct Outcome
{
    bool failed = false;
    std::string msg;
    std::vector<uint64_t> choices;
};

inline void enter_child_scratch (const std::string &base, const std::string &tag)
{
    env ().scratch = base + "/" + tag;
    mkdir (env ().scratch.c_str (), 0700);
    if (chdir (env ().scratch.c_str ()) != 0) { perror ("chdir"); _exit (44); }
    const std::string err = base + "/" + tag + ".err";
    const int fd = open (err.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2 (fd, 2); close (fd); }
    setpgid (0, 0);
}

inline std::string tail (const std::string &s, size_t n) { return s.size () <= n ? s : s.substr (s.size () - n); }

// Replay a choice sequence in a child
inline Outcome run_script (const Prop &p, const std::vector<uint64_t> &script, const std::string &base, bool notes)
{
    static int counter = 0;
    const std::string tag = "s" + std::to_string (getpid ()) + "_" + std::to_string (counter++);
    Shared *sh = new_shared ();
    fflush (nullptr);
    const pid_t pid = fork ();
    if (pid == 0)
    {
        g_shared = sh;
        enter_child_scratch (base, tag);
        Source s (sh, script);
        s.want_notes = notes;
        const bool ok = run_case (p, s, 0);
        _exit (ok ? 0 : 42);
    }
    Outcome o;
    const double t0 = now ();
    int st = 0;
    while (true)
    {
        const pid_t r = waitpid (pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now () - t0 > 240)
        {
            kill (-pid, SIGKILL);
            kill (pid, SIGKILL);
            waitpid (pid, &st, 0);
            break;
        }
        usleep (300);
    }
    kill (-pid, SIGKILL);
    const size_t n = std::min<size_t> (sh->n, MAX_CHOICES);
    o.choices.assign (sh->choices, sh->choices + n);
    while (!o.choices.empty () && o.choices.back () == 0)
        o.choices.pop_back ();
    if (sh->status == 2 || sh->status == 3)
    {
        o.failed = true;
        o.msg = sh->msg;
    }
    else if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0) && sh->status == 0)
    {
        o.failed = true;
        std::ostringstream m;
        if (WIFSIGNALED (st)) m << "crashed with signal " << WTERMSIG (st);
        else m << "exited with status " << WEXITSTATUS (st);
        const auto err = read_file (base + "/" + tag + ".err");
        // the head of a sanitizer report names the fault
        auto at = err.find ("ERROR: AddressSanitizer");
        if (at == std::string::npos) at = err.find ("runtime error");
        if (at == std::string::npos) at = err.find ("Assertion");
        m << ": " << (at == std::string::npos ? tail (err, 1500) : err.substr (at > 200 ? at - 200 : 0, 1500));
        o.msg = m.str ();
    }
    munmap (sh, sizeof (Shared));
    const std::string cmd = "rm -rf '" + base + "/" + tag + "' '" + base + "/" + tag + ".err'";
    if (system (cmd.c_str ()) != 0) {}
    return o;
}

inline bool shorter (const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
    if (a.size () != b.size ()) return a.size () < b.size ();
    return a < b;
}

inline Outcome shrink (const Prop &p, Outcome best, const std::string &base, unsigned budget, double seconds)
{
    const double t0 = now ();
    unsigned used = 0;
    auto attempt = [&] (const std::vector<uint64_t> &c) -> bool
    {
        if (used >= budget || now () - t0 > seconds)
            return false;
        if (!shorter (c, best.choices))
            return false;
        ++used;
        Outcome o = run_script (p, c, base, false);
        if (!o.failed)
            return false;
        // keep what the case consumed, if it is no bigger
        best.msg = o.msg;
        best.choices = shorter (o.choices, c) ? o.choices : c;
        return true;
    };
    bool progress = true;
    while (progress && used < budget && now () - t0 < seconds)
    {
        progress = false;
        // Delete blocks
        for (size_t k = std::max<size_t> (1, best.choices.size () / 2); k >= 1; k /= 2)
        {
            for (size_t i = best.choices.size (); i >= k && i > 0;)
            {
                i -= k;
                if (i + k > best.choices.size ()) { if (i == 0) break; continue; }
                auto c = best.choices;
                c.erase (c.begin () + i, c.begin () + i + k);
                if (attempt (c)) progress = true;
                if (i < k) break;
            }
            if (k == 1) break;
        }
        // Zero, halve and decrement single choices
        for (size_t i = 0; i < best.choices.size (); ++i)
        {
            if (best.choices[i] == 0) continue;
            auto c = best.choices;
            c[i] = 0;
            if (attempt (c)) { progress = true; continue; }
            // binary search for the smallest failing value
            uint64_t lo = 0;
            while (i < best.choices.size () && best.choices[i] > lo + 1)
            {
                c = best.choices;
                const uint64_t mid = lo + (c[i] - lo) / 2;
                c[i] = mid;
                if (attempt (c)) progress = true;
                else lo = mid;
                if (used >= budget || now () - t0 > seconds) break;
            }
        }
    }
    return best;
}

struct Stats
{
    uint64_t evaluated = 0, discarded = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    double wall = 0;
    bool stopped_early = false;
};

inline void worker (const Prop &p, Shared *sh, uint64_t seed, uint64_t cases, unsigned shard, unsigned jobs,
    const std::string &base, double deadline)
{
    g_shared = sh;
    const std::string tag = "w" + std::to_string (shard);
    enter_child_scratch (base, tag);
    uint64_t discarded = 0, evaluated = 0;
    bool early = false;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    uint64_t name_h = 1469598103934665603ull;
    for (char c : p.name) name_h = (name_h ^ uint8_t (c)) * 1099511628211ull;
    bool ok = true;
    for (uint64_t idx = shard; idx < cases; idx += jobs)
    {
        if (now () > deadline) { early = true; break; }
        sh->case_no = idx + 1;
        Source s (sh, mix (seed * 0x100000001b3ull ^ name_h) ^ mix (idx));
        s.want_notes = samples.size () < 3 && (idx / jobs) % 7 == 3;
        s.case_index = idx;
        s.quick_cases = p.cases;
        ok = run_case (p, s, (idx / 1) % 101);
        if (!ok) break;
        if (sh->status == 4) { ++discarded; continue; }
        ++evaluated;
        for (const auto &l : s.labels) ++labels[l];
        if (s.nontrivial_)
        {
            uint64_t h = 1469598103934665603ull;
            const size_t n = sh->n;
            for (size_t i = 0; i < n; ++i) h = mix (h ^ sh->choices[i]);
            distinct.insert (h);
            if (s.want_notes && !s.notes.empty ()) samples.push_back (s.notes);
        }
    }
    std::ofstream f (base + "/" + tag + ".stat");
    f << evaluated << ' ' << discarded << ' ' << early << ' ' << distinct.size () << ' ' << labels.size () << ' ' << samples.size () << '\n';
    for (auto h : distinct) f << h << '\n';
    for (const auto &l : labels) f << l.second << ' ' << l.first << '\n';
    for (auto t : samples) { t = t.substr (0, 900); std::replace (t.begin (), t.end (), '\n', ' '); f << t << '\n'; }
    f.close ();
    _exit (ok ? 0 : 42);
}

inline bool run_prop (const Prop &p, uint64_t seed, uint64_t cases, unsigned jobs, const std::string &base,
    double budget_s, Stats &st, Outcome &fail)
{
    const double t0 = now ();
    std::vector<Shared *> sh (jobs);
    std::vector<pid_t> pid (jobs);
    fflush (nullptr);
    for (unsigned j = 0; j < jobs; ++j)
    {
        sh[j] = new_shared ();
        pid[j] = fork ();
        if (pid[j] == 0)
            worker (p, sh[j], seed, cases, j, jobs, base, t0 + budget_s);
    }
    std::vector<uint64_t> last_case (jobs, 0);
    std::vector<double> last_t (jobs, now ());
    unsigned running = jobs;
    std::vector<bool> alive (jobs, true);
    int bad = -1;
    std::string bad_msg;
    while (running && bad < 0)
    {
        bool any = false;
        for (unsigned j = 0; j < jobs; ++j)
        {
            if (!alive[j]) continue;
            int ws = 0;
            const pid_t r = waitpid (pid[j], &ws, WNOHANG);
            if (r == pid[j])
            {
                any = true;
                alive[j] = false;
                --running;
                if (WIFEXITED (ws) && WEXITSTATUS (ws) == 0) continue;
                bad = j;
                if (sh[j]->status == 2 || sh[j]->status == 3) bad_msg = sh[j]->msg;
                else
                {
                    std::ostringstream m;
                    if (WIFSIGNALED (ws)) m << "crashed with signal " << WTERMSIG (ws);
                    else m << "exited with status " << WEXITSTATUS (ws);
                    bad_msg = m.str () + ": " + tail (read_file (base + "/w" + std::to_string (j) + ".err"), 2500);
                }
                break;
            }
            // A case that makes no progress for minutes of wall time
            if (sh[j]->case_no != last_case[j]) { last_case[j] = sh[j]->case_no; last_t[j] = now (); }
            else if (now () - last_t[j] > 200)
            {
                bad = j;
                bad_msg = "the case made no progress for 200 s of wall time";
                break;
            }
        }
        if (!any) usleep (2000);
    }
    for (unsigned j = 0; j < jobs; ++j)
    {
        if (alive[j]) { kill (-pid[j], SIGKILL); kill (pid[j], SIGKILL); int ws; waitpid (pid[j], &ws, 0); }
        kill (-pid[j], SIGKILL);
    }
    for (unsigned j = 0; j < jobs; ++j)
    {
        std::ifstream f (base + "/w" + std::to_string (j) + ".stat");
        uint64_t ev = 0, di = 0, nd = 0, nl = 0, ns = 0; bool early = false;
        if (f >> ev >> di >> early >> nd >> nl >> ns)
        {
            st.evaluated += ev; st.discarded += di; st.stopped_early |= early;
            for (uint64_t k = 0; k < nd; ++k) { uint64_t h; f >> h; st.distinct.insert (h); }
            for (uint64_t k = 0; k < nl; ++k) { uint64_t c; f >> c; f.get (); std::string l; std::getline (f, l); st.labels[l] += c; }
            for (uint64_t k = 0; k < ns; ++k) { std::string l; std::getline (f, l); if (st.samples.size () < 3) st.samples.push_back (l); }
        }
        else
            st.evaluated += (sh[j]->case_no + jobs - 1) / jobs;
    }
    st.wall = now () - t0;
    if (bad >= 0)
    {
        const size_t n = std::min<size_t> (sh[bad]->n, MAX_CHOICES);
        fail.failed = true;
        fail.msg = bad_msg;
        fail.choices.assign (sh[bad]->choices, sh[bad]->choices + n);
    }
    for (auto x : sh) munmap (x, sizeof (Shared));
    return bad < 0;
}

inline void write_replay (const std::string &fn, const std::string &property, const Prop &p, const Outcome &o)
{
    std::ofstream f (fn);
    f << "property " << property << "\nprop " << p.name << "\nvariant " << env ().variant << "\nchoices " << o.choices.size ();
    for (auto c : o.choices) f << ' ' << c;
    f << "\n# " << property << " / " << p.name << "\n# ";
    for (char c : o.msg.substr (0, 6000)) { f << c; if (c == '\n') f << "# "; }
    f << '\n';
}

inline int main_ (int argc, char **argv)
{
    std::string property = "C00", base = "/tmp", out, replay, replay_dir = ".", only;
    uint64_t seed = 1;
    double scale = 1, budget = 600;
    unsigned jobs = 4;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        const auto eq = a.find ('=');
        const std::string k = a.substr (0, eq), v = eq == std::string::npos ? "" : a.substr (eq + 1);
        if (k == "--property") property = v;
        else if (k == "--variant") env ().variant = v;
        else if (k == "--bin") env ().bin = v;
        else if (k == "--scratch") base = v;
        else if (k == "--out") out = v;
        else if (k == "--seed") seed = std::stoull (v);
        else if (k == "--scale") scale = std::stod (v);
        else if (k == "--budget") budget = std::stod (v);
        else if (k == "--jobs") jobs = std::stoul (v);
        else if (k == "--replay") replay = v;
        else if (k == "--replay-dir") replay_dir = v;
        else if (k == "--only") only = v;
        else if (k == "--thorough") env ().thorough = true;
        else { std::cerr << "unknown argument " << a << std::endl; return 2; }
    }
    mkdir (base.c_str (), 0700);
    signal (SIGPIPE, SIG_IGN);
    if (!replay.empty ())
    {
        std::ifstream f (replay);
        std::string w, name; std::vector<uint64_t> c;
        while (f >> w)
        {
            if (w == "prop") f >> name;
            else if (w == "choices") { size_t n; f >> n; c.resize (n); for (auto &x : c) f >> x; break; }
            else f >> w;
        }
        for (const auto &p : props ())
            if (p.name == name)
            {
                Outcome o;
                for (int k = 0; k < 3 && !o.failed; ++k)
                    o = run_script (p, c, base, true);
                std::cout << (o.failed ? "FAILED " : "passed ") << name << "\n" << o.msg << std::endl;
                return o.failed ? 1 : 0;
            }
        std::cerr << "no such prop: " << name << std::endl;
        return 2;
    }
    // spread the budget over the sub-properties in proportion to nothing: each may use what is left
    const double t_start = now ();
    const double t_end = t_start + budget;
    bool any_fail = false;
    std::ostringstream js;
    js << "{\"variant\": " << json_str (env ().variant) << ", \"props\": [";
    bool first = true;
    for (const auto &p : props ())
    {
        if (!only.empty () && p.name != only) continue;
        // A broken tree is reported without spending the whole time on its other breakage
        if (any_fail && now () - t_start > 90) break;
        Stats st;
        Outcome fail;
        const uint64_t cases = p.cases < 4 ? uint64_t (p.cases * scale) : std::max<uint64_t> (jobs, uint64_t (p.cases * scale)); // fewer than 4: expensive, so not in the sanitizer build
        run_prop (p, seed, cases, jobs, base, std::max (2.0, t_end - now ()), st, fail);
        std::string replay_path, inconclusive;
        if (fail.failed)
        {
            // Confirm: the recorded case must fail again when replayed
            unsigned again = 0, tries = 0;
            const bool slow = fail.msg.find ("did not terminate") != std::string::npos || fail.msg.find ("no progress") != std::string::npos || fail.msg.find ("signal 9") != std::string::npos;
            Outcome conf = fail;
            const double t_conf = now ();
            for (; tries < (slow ? 2u : 30u) && again < (slow ? 1u : 3u); ++tries)
            {
                Outcome o = run_script (p, fail.choices, base, slow);
                if (o.failed) { ++again; conf = o; if (conf.choices.empty ()) conf.choices = fail.choices; }
            }
            if (again == 0)
                inconclusive = fail.msg;
            else
            {
                any_fail = true;
                Outcome best = conf;
                best.choices = fail.choices;
                // what takes minutes is reported as it was found
                if (!slow || now () - t_conf < 30)
                {
                    best = shrink (p, best, base, slow ? 3 : 500, slow ? 60 : 40);
                    Outcome fin = run_script (p, best.choices, base, true);
                    if (fin.failed) best.msg = fin.msg;
                }
                replay_path = replay_dir + "/" + property + "-" + p.name + "-" + env ().variant + ".replay";
                write_replay (replay_path, property, p, best);
                fail = best;
            }
        }
        js << (first ? "" : ", ") << "{\"name\": " << json_str (p.name) << ", \"rule\": " << json_str (p.rule)
           << ", \"evaluations\": " << st.evaluated << ", \"discarded\": " << st.discarded
           << ", \"distinct_nontrivial\": " << st.distinct.size () << ", \"wall_s\": " << st.wall
           << ", \"stopped_early\": " << (st.stopped_early ? "true" : "false") << ", \"labels\": {";
        bool f2 = true;
        for (const auto &l : st.labels) { js << (f2 ? "" : ", ") << json_str (l.first) << ": " << l.second; f2 = false; }
        js << "}, \"samples\": [";
        f2 = true;
        for (const auto &l : st.samples) { js << (f2 ? "" : ", ") << json_str (l); f2 = false; }
        js << "]";
        if (!replay_path.empty ()) js << ", \"violation\": " << json_str (fail.msg) << ", \"replay\": " << json_str (replay_path);
        if (!inconclusive.empty ()) js << ", \"unreproduced\": " << json_str (inconclusive);
        js << "}";
        first = false;
    }
    js << "]}";
    if (!out.empty ()) { std::ofstream f (out); f << js.str () << std::endl; }
    else std::cout << js.str () << std::endl;
    return any_fail ? 1 : 0;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the bytes are the choices. A failure of any kind
// saves the choice sequence as a replay file of the ordinary harness.
extern "C" void __sanitizer_set_death_callback (void (*) (void));
namespace pbt
{
inline const Prop *fuzz_prop = nullptr;
inline std::string fuzz_msg;
inline void fuzz_save ()
{
    static bool done = false;
    if (done || !fuzz_prop || !g_shared) return;
    done = true;
    Outcome o;
    o.msg = fuzz_msg.empty () ? "crashed; see the sanitizer report" : fuzz_msg;
    o.choices.assign (g_shared->choices, g_shared->choices + std::min<size_t> (g_shared->n, MAX_CHOICES));
    if (const char *r = getenv ("PBT_REPLAY_OUT")) write_replay (r, getenv ("PBT_PROPERTY") ? getenv ("PBT_PROPERTY") : "C00", *fuzz_prop, o);
}
}
extern "C" int LLVMFuzzerTestOneInput (const uint8_t *data, size_t size)
{
    using namespace pbt;
    static Shared *sh = [] {
        g_shared = new_shared ();
        env ().variant = "san";
        const char *n = getenv ("PBT_PROP");
        for (const auto &q : props ()) if (n && q.name == n) fuzz_prop = &q;
        if (!fuzz_prop) { fprintf (stderr, "PBT_PROP not set\n"); exit (2); }
        __sanitizer_set_death_callback (fuzz_save);
        return g_shared;
    } ();
    Source s (sh, data, size);
    sh->status = 0;
    try { s.force (101, 0); fuzz_prop->fn (s); return 0; }
    catch (const Discard &) { return 0; }
    catch (const Failure &f) { fuzz_msg = f.msg; }
    catch (const std::exception &e) { fuzz_msg = std::string ("unexpected exception: ") + e.what (); }
    fuzz_save ();
    fprintf (stderr, "PROPERTY FAILED: %s\n", fuzz_msg.c_str ());
    __builtin_trap ();
}
#define PBT_MAIN
#else
#define PBT_MAIN int main (int argc, char **argv) { return pbt::main_ (argc, argv); }
#endif
