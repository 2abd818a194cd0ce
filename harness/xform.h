// A reference model of spoc_transform's deterministic commands
#pragma once
#include "geom.h"
#include "cli.h"
#include "transform.h"
#include "transform_cmd.h"

namespace xform
{
using namespace geom;

struct cmd
{
    std::string name, params;
    bool coords = false;   // touches x, y or z
    bool rotates = false, quantizes = false;
    std::set<std::string> fields;                        // the fields it may change
    std::function<void (rec &, double &)> f;             // second argument: bound on the coordinates' magnitude
};
inline std::string text (double v, bool full = true)
{
    char t[64];
    snprintf (t, sizeof t, full ? "%.17g" : "%g", v);
    return t;
}
inline uint64_t get (const rec &r, const std::string &f)
{
    switch (f[0])
    {
        case 'c': return r.c; case 'p': return r.p; case 'i': return r.i; case 'r': return r.r; case 'g': return r.g; case 'b': return r.b;
        default: return r.e.at (std::stoul (f.substr (1)));
    }
}
inline void put (rec &r, const std::string &f, uint64_t v)
{
    switch (f[0])
    {
        case 'c': r.c = v; break; case 'p': r.p = v; break; case 'i': r.i = v; break; case 'r': r.r = v; break; case 'g': r.g = v; break; case 'b': r.b = v; break;
        default: r.e.at (std::stoul (f.substr (1))) = v;
    }
}
inline uint64_t width_max (const std::string &f) { return f[0] == 'c' || f[0] == 'p' ? 0xffffffffull : f[0] == 'e' ? ~0ull : 0xffffull; }
inline std::string gen_int_field (pbt::Source &s, unsigned extras)
{
    const unsigned k = s.draw (6 + (extras ? 3 : 0));
    return k < 6 ? std::string (1, "cpirgb"[k]) : "e" + std::to_string (s.draw (extras));
}
// A value that may occur in the field: 31 bits at most, as the commands take it
inline uint64_t gen_value (pbt::Source &s, const std::string &f, const cloud &c)
{
    const uint64_t top = std::min<uint64_t> (width_max (f), 0x7fffffff);
    switch (s.draw (5))
    {
        case 0: return s.draw (4);
        case 1: return s.range (0, top);
        case 2: return top;
        default:
            if (!c.r.empty ()) { const uint64_t v = get (c.r[s.draw (c.r.size ())], f); if (v <= top) return v; }
            return s.draw (10);
    }
}
// Sub-arguments are separated by commas
inline cmd gen_cmd (pbt::Source &s, const cloud &c, bool tame)
{
    cmd q;
    const unsigned extras = c.extras ();
    auto number = [&] () {
        double v;
        switch (s.draw (5))
        {
            case 0: v = double (s.irange (-4, 4)); break;
            case 1: v = s.irange (-1000, 1000) * 0.125; break;
            case 2: v = s.irange (-1000, 1000) * 0.001; break;
            case 3: { auto b = s.sub (); v = tame ? (b.unit () - 0.5) * 100 : coord (b); break; }
            default: v = s.pick ({ 1.0, -1.0, 0.0, 0.5, 2.0 });
        }
        const auto t = text (v, s.coin ());
        return std::make_pair (t, strtod (t.c_str (), nullptr));
    };
    const int a = s.draw (3);
    const std::string A (1, "xyz"[a]);
    switch (s.draw (10))
    {
        case 0: case 1:
        {
            const auto v = number ();
            q.name = "add-" + A; q.params = v.first; q.coords = true; q.fields = { A };
            q.f = [=] (rec &r, double &m) { (a == 0 ? r.x : a == 1 ? r.y : r.z) += v.second; m += std::abs (v.second); };
            break;
        }
        case 2:
        {
            const auto v = number ();
            q.name = "scale-" + A; q.params = v.first; q.coords = true; q.fields = { A };
            q.f = [=] (rec &r, double &m) { (a == 0 ? r.x : a == 1 ? r.y : r.z) *= v.second; m *= std::max (1.0, std::abs (v.second)); };
            break;
        }
        case 3:
        {
            static const double deg[] = { 90, 180, 45, -30, 360, 1, 12.5, -270, 0 };
            const double d = s.coin () ? deg[s.draw (9)] : s.irange (-3600, 3600) * 0.1;
            q.name = "rotate-" + A; q.params = text (d); q.coords = q.rotates = true;
            const double t = strtod (q.params.c_str (), nullptr) * M_PI / 180.0;
            q.fields = { a == 0 ? "y" : "x", a == 2 ? "y" : "z" };
            q.f = [=] (rec &r, double &m) {
                double &u = a == 0 ? r.y : r.x, &w = a == 2 ? r.y : r.z;
                const double u1 = u * cos (t) - w * sin (t), w1 = u * sin (t) + w * cos (t);
                u = u1; w = w1; m *= 1.5; };
            break;
        }
        case 4:
        {
            const double p = s.pick ({ 1.0, 0.5, 0.1, 0.01, 10.0, 0.001, 1e-6 });
            q.name = "quantize-xyz"; q.params = text (p, false); q.coords = q.quantizes = true; q.fields = { "x", "y", "z" };
            q.f = [=] (rec &r, double &) { for (double *d : { &r.x, &r.y, &r.z }) *d = std::trunc (*d / p) * p; };
            break;
        }
        case 5: case 6:
        {
            q.name = "set";
            if (s.chance (1, 3))
            {
                const auto v = number ();
                q.params = A + "," + v.first; q.coords = true; q.fields = { A };
                q.f = [=] (rec &r, double &m) { (a == 0 ? r.x : a == 1 ? r.y : r.z) = v.second; m = std::max (m, std::abs (v.second)); };
            }
            else
            {
                const auto f = gen_int_field (s, extras);
                const uint64_t top = std::min<uint64_t> (width_max (f), uint64_t (1) << 53);
                const uint64_t v = s.coin () ? s.range (0, top) : s.coin () ? top : s.draw (10);
                q.params = f + "," + std::to_string (v); q.fields = { f };
                q.f = [=] (rec &r, double &) { put (r, f, v); };
            }
            break;
        }
        case 7:
        {
            const auto f = gen_int_field (s, extras);
            const uint64_t v1 = gen_value (s, f, c), v2 = gen_value (s, f, c);
            q.name = "replace"; q.params = f + "," + std::to_string (v1) + "," + std::to_string (v2); q.fields = { f };
            q.f = [=] (rec &r, double &) { if (get (r, f) == v1) put (r, f, v2); };
            break;
        }
        case 8:
        {
            const auto f = gen_int_field (s, extras);
            std::vector<uint64_t> v;
            for (unsigned k = s.chance (1, 15) ? s.range (5, 70) : s.range (1, 4); k; --k) v.push_back (gen_value (s, f, c));
            const uint64_t to = gen_value (s, f, c);
            q.name = "replace-not"; q.params = f; q.fields = { f };
            for (auto x : v) q.params += "," + std::to_string (x);
            q.params += "," + std::to_string (to);
            q.f = [=] (rec &r, double &) { if (std::count (v.begin (), v.end (), get (r, f)) == 0) put (r, f, to); };
            break;
        }
        default:
        {
            const auto f1 = gen_int_field (s, extras), f2 = gen_int_field (s, extras);
            q.name = "copy-field"; q.params = f1 + "," + f2; q.fields = { f2 };
            q.f = [=] (rec &r, double &) { put (r, f2, get (r, f1) & width_max (f2)); };
        }
    }
    return q;
}
inline std::vector<spoc::transform_cmd::command> commands (const std::vector<cmd> &v)
{
    std::vector<spoc::transform_cmd::command> c;
    for (const auto &q : v) c.push_back ({ q.name, q.params });
    return c;
}
inline std::vector<std::string> options (const std::vector<cmd> &v)
{
    std::vector<std::string> a { "spoc_transform" };
    for (const auto &q : v) a.push_back ("--" + q.name + "=" + q.params);
    return a;
}
inline std::string run_lib (const std::string &in, const std::vector<spoc::transform_cmd::command> &c, size_t seed = 0)
{
    std::istringstream is (in);
    std::ostringstream os;
    spoc::transform_app::apply (is, os, c, seed);
    return os.str ();
}
} // namespace xform
