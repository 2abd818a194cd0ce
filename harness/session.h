// A running program whose input can be held back at any byte
#pragma once
#include "cli.h"
#include <sys/ioctl.h>

namespace cli
{
struct session
{
    std::string out, err;
    std::vector<std::string> args;
    pid_t pid = 0;
    int w = -1, a = -1, b = -1;
    bool fifo = false, ended = false;
    int st = 0;

    // stdin and stdout are pipes, or with 'fifo' the last two arguments name pipes to open
    session (std::vector<std::string> av0, bool fifo = false, bool ignore_sigpipe = false) : args (av0), fifo (fifo)
    {
        if (av0[0].find ('/') == std::string::npos) av0[0] = pbt::env ().bin + "/" + av0[0];
        int pin[2] = { -1, -1 }, pout[2] = { -1, -1 }, perr[2];
        if (fifo)
        {
            const auto fi = path ("fifo_in"), fo = path ("fifo_out");
            unlink (fi.c_str ());
            unlink (fo.c_str ());
            if (mkfifo (fi.c_str (), 0600) || mkfifo (fo.c_str (), 0600)) throw std::runtime_error ("harness: mkfifo");
            av0.push_back (fi);
            av0.push_back (fo);
            w = open (fi.c_str (), O_RDWR | O_CLOEXEC | O_NONBLOCK);
            a = open (fo.c_str (), O_RDONLY | O_CLOEXEC | O_NONBLOCK);
            if (w < 0 || a < 0) throw std::runtime_error ("harness: opening a fifo");
        }
        else if (pipe2 (pin, O_CLOEXEC) || pipe2 (pout, O_CLOEXEC)) throw std::runtime_error ("harness: pipe");
        if (pipe2 (perr, O_CLOEXEC)) throw std::runtime_error ("harness: pipe");
        std::vector<char *> av, en;
        for (auto &x : av0) av.push_back (const_cast<char *> (x.c_str ()));
        av.push_back (nullptr);
        std::vector<std::string> ev = { "PATH=/usr/bin:/bin", "HOME=/tmp", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "OMP_NUM_THREADS=2", "ASAN_OPTIONS=detect_leaks=0:exitcode=77" };
        for (auto &e : ev) en.push_back (const_cast<char *> (e.c_str ()));
        en.push_back (nullptr);
        pid = fork ();
        if (pid < 0) throw std::runtime_error ("harness: fork");
        if (pid == 0)
        {
            signal (SIGPIPE, ignore_sigpipe ? SIG_IGN : SIG_DFL);
            if (!fifo) { dup2 (pin[0], 0); dup2 (pout[1], 1); }
            else { const int n = open ("/dev/null", O_RDWR); dup2 (n, 0); dup2 (n, 1); }
            dup2 (perr[1], 2);
            rlimit rl;
            rl.rlim_cur = rl.rlim_max = 40;
            setrlimit (RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit (RLIMIT_CORE, &rl);
            execve (av[0], av.data (), en.data ());
            _exit (127);
        }
        if (!fifo) { close (pin[0]); close (pout[1]); w = pin[1]; a = pout[0]; fcntl (w, F_SETFL, O_NONBLOCK); fcntl (a, F_SETFL, O_NONBLOCK); }
        close (perr[1]);
        b = perr[0];
        fcntl (b, F_SETFL, O_NONBLOCK);
    }
    ~session ()
    {
        for (int f : { w, a, b }) if (f >= 0) close (f);
        if (!ended) { kill (pid, SIGKILL); waitpid (pid, &st, 0); }
    }
    session (const session &) = delete;

    bool poll_end () { if (!ended && waitpid (pid, &st, WNOHANG) == pid) ended = true; return ended; }
    bool take (int &f, std::string &to)
    {
        char t[65536];
        bool some = false;
        while (f >= 0)
        {
            const ssize_t k = ::read (f, t, sizeof t);
            if (k > 0) { to.append (t, k); some = true; continue; }
            if (k == 0 && !(fifo && &f == &a && !ended)) { close (f); f = -1; }
            break;
        }
        return some;
    }
    // Move bytes until 'done' or nothing can happen for 'limit' seconds
    bool pump (const std::string &in, size_t &sent, const std::function<bool ()> &done, double limit)
    {
        double t0 = pbt::now ();
        while (true)
        {
            bool some = take (a, out);
            some |= take (b, err);
            if (w >= 0 && sent < in.size ())
            {
                const ssize_t k = ::write (w, in.data () + sent, in.size () - sent);
                if (k > 0) { sent += k; some = true; }
                if (k < 0 && errno == EPIPE) { close (w); w = -1; }
            }
            if (done ()) return true;
            if (poll_end ())
            {
                take (a, out);
                take (b, err);
                return done ();
            }
            if (some) t0 = pbt::now ();
            if (pbt::now () - t0 > limit) return false;
            if (!some)
            {
                pollfd p[3] = { { w >= 0 && sent < in.size () ? w : -1, POLLOUT, 0 }, { fifo ? -1 : a, POLLIN, 0 }, { b, POLLIN, 0 } };
                if (fifo && !(w >= 0 && sent < in.size ())) { p[1].fd = a; }
                ::poll (p, 3, fifo ? 1 : 20);
                if (fifo && (p[1].revents & POLLHUP) && !(p[1].revents & POLLIN)) usleep (300);
            }
        }
    }
    void close_in ()
    {
        if (w < 0) return;
        // a named pipe must have been opened, and read, before its last writer leaves
        size_t z = 0;
        int n = 0;
        if (fifo) pump ("", z, [&] { n = 0; ioctl (w, FIONREAD, &n); return n == 0; }, 30);
        close (w);
        w = -1;
    }
    void close_out () { if (a >= 0) { close (a); a = -1; } }
    // The end of the program, once its input is closed or complete
    result finish (double limit = 30)
    {
        size_t z = 0;
        result r;
        pump ("", z, [&] { return poll_end (); }, limit);
        if (!ended) { r.timed_out = true; kill (pid, SIGKILL); waitpid (pid, &st, 0); ended = true; }
        take (a, out);
        take (b, err);
        r.out = out;
        r.err = err;
        if (WIFEXITED (st)) r.status = WEXITSTATUS (st); else r.sig = WTERMSIG (st);
        if (r.status == 127 || r.status == 126) throw std::runtime_error ("harness: could not execute " + args[0]);
        return r;
    }
};
} // namespace cli
