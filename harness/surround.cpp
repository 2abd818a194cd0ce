// Loaded into a program: another time, process, user, host and terminal
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

// The environment as it is
extern "C" { static char *variable (const char *name); }
static long number (const char *name)
{
    const char *v = variable (name);
    return v ? atol (v) : 0;
}
extern "C"
{
int clock_gettime (clockid_t c, struct timespec *t)
{
    static auto real = (int (*) (clockid_t, struct timespec *)) dlsym (RTLD_NEXT, "clock_gettime");
    const int r = real (c, t);
    if (r == 0) { t->tv_sec += number ("SURROUND_TIME"); }
    return r;
}
int gettimeofday (struct timeval *t, void *)
{
    timespec s;
    clock_gettime (CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time (time_t *t)
{
    timespec s;
    clock_gettime (CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
clock_t clock () { return number ("SURROUND_TIME") % 1000000; }
pid_t getpid () { return pid_t (number ("SURROUND_PID")); }
pid_t getppid () { return pid_t (number ("SURROUND_PID") + 7); }
uid_t getuid () { return uid_t (number ("SURROUND_UID")); }
uid_t geteuid () { return uid_t (number ("SURROUND_UID")); }
int isatty (int) { return int (number ("SURROUND_TTY")); }
int gethostname (char *n, size_t k) { const char *u = variable ("SURROUND_UID"); strncpy (n, u ? u : "", k); return 0; }
// Variables that the program itself asks for, whatever their names are; the libraries get what is there
static bool library (void *caller)
{
    Dl_info i;
    if (!dladdr (caller, &i) || !i.dli_fname) return true;
    const char *n = strrchr (i.dli_fname, '/');
    n = n ? n + 1 : i.dli_fname;
    return !strncmp (n, "lib", 3) || !strncmp (n, "ld-", 3) || strstr (n, ".so");
}
static char *variable (const char *name)
{
    static auto real = (char *(*) (const char *)) dlsym (RTLD_NEXT, "getenv");
    return real (name);
}
char *getenv (const char *name) noexcept
{
    char *v = variable (name), *w = variable ("SURROUND_ANY");
    return v || !w || library (__builtin_return_address (0)) ? v : w;
}
char *secure_getenv (const char *name) noexcept
{
    char *v = variable (name), *w = variable ("SURROUND_ANY");
    return v || !w || library (__builtin_return_address (0)) ? v : w;
}
// Another number of processors
int get_nprocs ()
{
    const long n = number ("SURROUND_CPUS");
    if (n) return int (n);
    static auto real = (int (*) ()) dlsym (RTLD_NEXT, "get_nprocs");
    return real ();
}
int get_nprocs_conf () { return get_nprocs (); }
long sysconf (int what) noexcept
{
    static auto real = (long (*) (int)) dlsym (RTLD_NEXT, "sysconf");
    const long n = number ("SURROUND_CPUS");
    return n && (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF) ? n : real (what);
}
}
