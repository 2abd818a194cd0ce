// C45: independent threads may use the library at the same time
#include "xform.h"
#include <thread>
#include <atomic>
#include "calls.h"
using namespace xform;
using namespace calls;

PROP (threads, 2500, "at least two threads each with several operations on records")
{
    const unsigned pool = s.range (1, 4);
    const uint64_t top = s.chance (1, 10) && pbt::env ().variant == "rel" ? 800 : 40;
    const world w = gen_world (s, pool, top);
    const unsigned n = s.range (2, 5);
    std::vector<std::vector<op>> work (n);
    auto b = s.sub ();
    const unsigned only = s.draw (3) ? KINDS : s.draw (KINDS); // all threads at the same operation, or at any
    size_t total = 0;
    for (auto &t : work)
    {
        for (uint64_t k = s.range (1, 8); k; --k)
        {
            op q;
            q.kind = only < KINDS ? only : b.below (KINDS);
            q.a = b.below (pool);
            q.b = q.kind == 1 ? b.below (w.bytes.size ()) : b.below (pool);
            q.seed = b.next () >> 8;
            t.push_back (q);
            ++total;
        }
    }
    NOTE (s, n << " threads, " << total << " operations" << (only < KINDS ? std::string (", all of them: ") + NAMES[only] : "") << ", " << w.c[0].r.size () << " records in the first of " << pool << " clouds");
    // one after another
    std::vector<std::vector<std::string>> want (n), got (n);
    for (unsigned k = 0; k < n; ++k) for (const auto &q : work[k]) want[k].push_back (perform (w, q));
    // in another order: no call leaves anything behind for another
    for (unsigned k = n; k--;) for (size_t j = work[k].size (); j--;)
        CHECK_MSG (perform (w, work[k][j]) == want[k][j], NAMES[work[k][j].kind] << " gives another result after other calls");
    // all at once
    std::atomic<unsigned> ready (0);
    std::vector<std::string> failed (n);
    {
        std::vector<std::thread> v;
        for (unsigned k = 0; k < n; ++k)
            v.emplace_back ([&, k] {
                ++ready;
                while (ready < n) std::this_thread::yield ();
                try { for (const auto &q : work[k]) got[k].push_back (perform (w, q)); }
                catch (const std::exception &e) { failed[k] = std::string ("threw: ") + e.what (); }
                catch (const pbt::Failure &) { failed[k] = "failed"; }
            });
        for (auto &t : v) t.join ();
    }
    for (unsigned k = 0; k < n; ++k)
    {
        CHECK_MSG (failed[k].empty (), "operation " << got[k].size () << " of thread " << k << " (" << NAMES[work[k][got[k].size ()].kind] << ") " << failed[k]);
        for (size_t j = 0; j < work[k].size (); ++j)
        {
            CHECK_MSG (got[k][j] == want[k][j], NAMES[work[k][j].kind] << " gives another result while other threads are at work");
            s.label (NAMES[work[k][j].kind]);
        }
    }
    for (unsigned k = 0; k < pool; ++k) CHECK_MSG (text_of (w.f[k]) == text_of (to_file (w.c[k])), "a shared file changed");
    if (total >= n * 2 && !w.c[0].r.empty ()) s.nontrivial ();
}

PBT_MAIN
