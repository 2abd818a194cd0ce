// The OpenMP runtime for harnesses built with -fsanitize=thread.
//
// libgomp synchronizes with futexes that ThreadSanitizer does not see, so that
// every parallel region looks like a race. These entry points, with plain
// threads and mutexes that it does see, take the place of libgomp's: a report is
// then a race in the program. Teams have the requested number of threads
// even when the machine has fewer processors.
#include <condition_variable>
#include <cstdlib>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <chrono>

namespace
{
struct loop
{
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool up = true;
    unsigned sections = 0, at = 0;
    bool single = false;
    unsigned left = 0;     // threads that have finished with it
};
struct team
{
    unsigned n = 1;
    std::mutex m;
    std::condition_variable cv;
    unsigned waiting = 0, generation = 0;
    std::map<unsigned, loop> loops; // by the number of work-sharing constructs met so far
    void *copy = nullptr;
};
struct self
{
    team *t = nullptr;
    unsigned id = 0, met = 0;
    self *up = nullptr;
};
thread_local self *me = nullptr;
thread_local int wanted = 0;
int initial ()
{
    const char *e = getenv ("OMP_NUM_THREADS");
    const int n = e ? atoi (e) : 0;
    return n > 0 ? n : 4;
}
std::recursive_mutex &critical (const std::string &name)
{
    static std::mutex m;
    static std::map<std::string, std::recursive_mutex> all;
    std::lock_guard<std::mutex> l (m);
    return all[name];
}
void barrier (team &t)
{
    std::unique_lock<std::mutex> l (t.m);
    const unsigned g = t.generation;
    if (++t.waiting == t.n) { t.waiting = 0; ++t.generation; t.cv.notify_all (); }
    else t.cv.wait (l, [&] { return t.generation != g; });
}
void run (void (*fn) (void *), void *data, unsigned n, loop *first)
{
    if (n == 0) n = wanted > 0 ? wanted : initial ();
    if (n > 4) n = 4;          // enough for a race, and threads are expensive here
    if (me && me->t) n = 1; // nested regions have one thread
    team t;
    t.n = n;
    if (first) t.loops[1] = *first;
    auto body = [&] (unsigned id, self *up) {
        self s;
        s.t = &t;
        s.id = id;
        s.met = first ? 1 : 0;
        s.up = up;
        self *before = me;
        me = &s;
        fn (data);
        me = before;
    };
    std::vector<std::thread> v;
    for (unsigned k = 1; k < n; ++k) v.emplace_back (body, k, nullptr);
    body (0, me);
    for (auto &x : v) x.join ();
}
// outside any region there is one thread
team &my_team ()
{
    if (me && me->t) return *me->t;
    thread_local team t;
    thread_local self s;
    s.t = &t;
    me = &s;
    return t;
}
loop &begin (const loop &l)
{
    team &t = my_team ();
    const unsigned k = ++me->met;
    std::lock_guard<std::mutex> g (t.m);
    return t.loops.emplace (k, l).first->second;
}
bool next (long *s, long *e)
{
    team &t = my_team ();
    std::lock_guard<std::mutex> g (t.m);
    loop &l = t.loops[me->met];
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    l.next += l.chunk * l.incr;
    if (l.incr > 0 ? l.next > l.end : l.next < l.end) l.next = l.end;
    *e = l.next;
    return true;
}
bool unext (unsigned long long *s, unsigned long long *e)
{
    team &t = my_team ();
    std::lock_guard<std::mutex> g (t.m);
    loop &l = t.loops[me->met];
    if (l.unext == l.uend) return false;
    *s = l.unext;
    const unsigned long long step = l.uchunk * l.uincr;
    const unsigned long long room = l.up ? l.uend - l.unext : l.unext - l.uend;
    l.unext = (l.up ? step : 0 - step) >= room ? l.uend : l.unext + step;
    *e = l.unext;
    return true;
}
loop make (long s, long e, long i, long c) { loop l; l.next = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1; return l; }
loop umake (bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c)
{
    loop l;
    l.up = up; l.unext = s; l.uend = e; l.uincr = i; l.uchunk = c ? c : 1;
    if (up ? s >= e : s <= e) l.uend = s;
    return l;
}
} // namespace

extern "C"
{
void omp_set_num_threads (int n) { wanted = n; }
int omp_get_num_threads () { return me && me->t ? me->t->n : 1; }
int omp_get_thread_num () { return me && me->t ? me->id : 0; }
int omp_get_max_threads () { return wanted > 0 ? wanted : initial (); }
int omp_in_parallel () { return me && me->t && me->t->n > 1; }
int omp_get_num_procs () { return 4; }
void omp_set_dynamic (int) {}
double omp_get_wtime () { return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count (); }

void GOMP_parallel (void (*fn) (void *), void *data, unsigned n, unsigned) { run (fn, data, n, nullptr); }
void GOMP_barrier () { barrier (my_team ()); }
void GOMP_critical_start () { critical ("").lock (); }
void GOMP_critical_end () { critical ("").unlock (); }
void GOMP_critical_name_start (void **p) { critical (std::to_string (size_t (p))).lock (); }
void GOMP_critical_name_end (void **p) { critical (std::to_string (size_t (p))).unlock (); }
void GOMP_atomic_start () { critical ("atomic").lock (); }
void GOMP_atomic_end () { critical ("atomic").unlock (); }
bool GOMP_single_start ()
{
    begin (loop ());
    team &t = my_team ();
    std::lock_guard<std::mutex> g (t.m);
    loop &l = t.loops[me->met];
    if (l.single) return false;
    return l.single = true;
}
void *GOMP_single_copy_start ()
{
    if (GOMP_single_start ()) return nullptr;
    GOMP_barrier ();
    return my_team ().copy;
}
void GOMP_single_copy_end (void *p) { my_team ().copy = p; GOMP_barrier (); }

unsigned GOMP_sections_next ()
{
    team &t = my_team ();
    std::lock_guard<std::mutex> g (t.m);
    loop &l = t.loops[me->met];
    return l.at < l.sections ? ++l.at : 0;
}
unsigned GOMP_sections_start (unsigned n) { loop l; l.sections = n; begin (l); return GOMP_sections_next (); }
void GOMP_sections_end () { GOMP_barrier (); }
void GOMP_sections_end_nowait () {}
void GOMP_parallel_sections (void (*fn) (void *), void *data, unsigned n, unsigned count, unsigned) { loop l; l.sections = count; run (fn, data, n, &l); }

void GOMP_loop_end () { GOMP_barrier (); }
void GOMP_loop_end_nowait () {}
#define SPOC_LOOP(kind) \
bool GOMP_loop_##kind##_start (long s, long e, long i, long c, long *p, long *q) { begin (make (s, e, i, c)); return next (p, q); } \
bool GOMP_loop_##kind##_next (long *p, long *q) { return next (p, q); } \
void GOMP_parallel_loop_##kind (void (*fn) (void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { loop l = make (s, e, i, c); run (fn, data, n, &l); } \
bool GOMP_loop_ull_##kind##_start (bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *p, unsigned long long *q) { begin (umake (up, s, e, i, c)); return unext (p, q); } \
bool GOMP_loop_ull_##kind##_next (unsigned long long *p, unsigned long long *q) { return unext (p, q); }
SPOC_LOOP (static)
SPOC_LOOP (dynamic)
SPOC_LOOP (guided)
SPOC_LOOP (nonmonotonic_dynamic)
SPOC_LOOP (nonmonotonic_guided)
#define SPOC_RUNTIME(kind) \
bool GOMP_loop_##kind##_start (long s, long e, long i, long *p, long *q) { begin (make (s, e, i, 1)); return next (p, q); } \
bool GOMP_loop_##kind##_next (long *p, long *q) { return next (p, q); } \
void GOMP_parallel_loop_##kind (void (*fn) (void *), void *data, unsigned n, long s, long e, long i, unsigned) { loop l = make (s, e, i, 1); run (fn, data, n, &l); } \
bool GOMP_loop_ull_##kind##_start (bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *p, unsigned long long *q) { begin (umake (up, s, e, i, 1)); return unext (p, q); } \
bool GOMP_loop_ull_##kind##_next (unsigned long long *p, unsigned long long *q) { return unext (p, q); }
SPOC_RUNTIME (runtime)
SPOC_RUNTIME (nonmonotonic_runtime)
SPOC_RUNTIME (maybe_nonmonotonic_runtime)
}
