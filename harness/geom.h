// Generators of point clouds for the geometric properties
#pragma once
#include "lib.h"
#include <array>

namespace geom
{
using namespace lib;
using P = spoc::point::point<double>;
using Ps = std::vector<P>;

inline P mk (double x, double y, double z) { P p; p.x = x; p.y = y; p.z = z; return p; }
inline bool same_bits (const P &a, const P &b) { return bits (a.x) == bits (b.x) && bits (a.y) == bits (b.y) && bits (a.z) == bits (b.z); }
inline std::string str (const P &p) { std::ostringstream o; o.precision (17); o << "(" << p.x << ", " << p.y << ", " << p.z << ")"; return o.str (); }
inline double ax (const P &p, int k) { return k == 0 ? p.x : k == 1 ? p.y : p.z; }
inline double &ax (P &p, int k) { return k == 0 ? p.x : k == 1 ? p.y : p.z; }

struct shape
{
    std::string name;
    double unit;   // a length comparable to the spacing of the points
    bool exact;    // coordinates are small multiples of a power of two, so that differences are exact
};

// A cloud of n points; duplicates, coplanar and collinear sets included
inline Ps gen_points (pbt::Source &s, uint64_t n, shape &sh)
{
    const unsigned kind = s.draw (9);
    const unsigned flat = s.draw (6);     // which axes are constant: mostly none
    const unsigned dup = s.draw (3);      // how often points repeat
    auto b = s.sub ();
    // where the cloud lies
    static const double offs[] = { 0, 0, -1000, 500000, 4200000, -7654321, 1048576, 1e8 };
    const P o = mk (offs[b.below (8)], offs[b.below (8)], b.chance (1, 2) ? 0 : -offs[b.below (8)]);
    Ps v (n);
    sh.exact = false;
    sh.unit = 1;
    const double span = std::cbrt (double (n) + 1) * 1.5 + 1;
    P c = mk (b.unit (), b.unit (), b.unit ());
    for (auto &p : v)
        switch (kind)
        {
            case 0: // small integer lattice
            case 1:
                p = mk (o.x + int64_t (b.below (uint64_t (span))), o.y + int64_t (b.below (uint64_t (span))), o.z + int64_t (b.below (uint64_t (span))));
                sh.exact = true; sh.name = "lattice"; break;
            case 2: // lattice of quarters around zero
                p = mk ((int64_t (b.below (2 * uint64_t (span) + 1)) - int64_t (span)) * 0.25, (int64_t (b.below (2 * uint64_t (span) + 1)) - int64_t (span)) * 0.25, (int64_t (b.below (5)) - 2) * 0.25);
                sh.exact = true; sh.unit = 0.25; sh.name = "quarters"; break;
            case 3: // uniform
                p = mk (o.x + b.unit () * span, o.y + b.unit () * span, o.z + b.unit () * span);
                sh.name = "uniform"; break;
            case 4: // a survey: millimetres, slowly varying height
                p = mk (o.x + b.below (uint64_t (span * 1000)) / 1000.0, o.y + b.below (uint64_t (span * 1000)) / 1000.0, o.z + 200 + b.below (3000) / 1000.0);
                sh.name = "survey"; break;
            case 5: // clusters
                if (b.chance (1, 6)) c = mk (o.x + b.unit () * 50, o.y + b.unit () * 50, o.z + b.unit () * 50);
                p = mk (c.x + (b.unit () - 0.5), c.y + (b.unit () - 0.5), c.z + (b.unit () - 0.5));
                sh.unit = 0.3; sh.name = "clusters"; break;
            case 6: // tiny
                p = mk (b.unit () * span * 1e-6, -b.unit () * span * 1e-6, b.unit () * span * 1e-6);
                sh.unit = 1e-6; sh.name = "tiny"; break;
            case 7: // spread over very different scales
                p = mk (std::pow (10, b.unit () * 8) * (b.chance (1, 2) ? 1 : -1), std::pow (10, b.unit () * 8), b.unit ());
                sh.name = "multiscale"; break;
            default: // a far outlier next to a dense cloud
                p = b.chance (1, 20) ? mk (o.x + 1e9 * b.unit (), o.y - 1e9 * b.unit (), o.z) : mk (o.x + b.unit () * span, o.y + b.unit () * span, o.z + b.unit () * span);
                sh.name = "outliers";
        }
    if (flat == 3) for (auto &p : v) p.z = v[0].z;
    if (flat == 4) for (auto &p : v) p.x = v[0].x;
    if (flat == 5) for (auto &p : v) { p.y = v[0].y; if (b.chance (1, 2)) p.z = v[0].z; }
    if (dup) for (size_t k = 1; k < v.size (); ++k) if (b.chance (dup, 6)) v[k] = v[b.below (k)];
    s.label (sh.name);
    return v;
}

// Records around given locations: other fields differ from record to record
inline std::vector<rec> records_at (pbt::Source &s, const Ps &p, unsigned extras)
{
    auto b = s.sub ();
    std::vector<rec> v (p.size ());
    for (size_t k = 0; k < v.size (); ++k)
    {
        auto &r = v[k];
        r.x = p[k].x; r.y = p[k].y; r.z = p[k].z;
        r.c = any_int<uint32_t> (b); r.p = uint32_t (k); r.i = any_int<uint16_t> (b); r.r = b.next (); r.g = b.next (); r.b = b.next ();
        for (unsigned e = 0; e < extras; ++e) r.e.push_back (any_int<uint64_t> (b));
    }
    return v;
}

inline P min_corner (const Ps &v)
{
    P m = v.at (0);
    for (const auto &p : v) for (int k = 0; k < 3; ++k) if (ax (p, k) < ax (m, k)) ax (m, k) = ax (p, k);
    return m;
}
inline P max_corner (const Ps &v)
{
    P m = v.at (0);
    for (const auto &p : v) for (int k = 0; k < 3; ++k) if (ax (p, k) > ax (m, k)) ax (m, k) = ax (p, k);
    return m;
}

using vox = std::array<uint64_t, 3>;
inline vox voxel_of (const P &p, const P &m, double res)
{
    return vox { uint64_t ((p.x - m.x) / res), uint64_t ((p.y - m.y) / res), uint64_t ((p.z - m.z) / res) };
}
// A resolution suited to the cloud; indexes stay below 2^50
inline double gen_res (pbt::Source &s, const shape &sh, const P &lo, const P &hi)
{
    double r;
    switch (s.draw (8))
    {
        case 0: r = sh.unit; break;
        case 1: r = sh.unit * 2; break;
        case 2: r = sh.unit * 0.5; break;
        case 3: r = sh.unit * 3; break;
        case 4: r = sh.unit * (0.05 + double (s.draw (1000)) / 200); break;
        case 5: r = sh.unit * 0.001; break;
        case 6: r = sh.unit * 1e-8; break;
        default: r = sh.unit * 1e6; break;
    }
    const double side = std::max ({ hi.x - lo.x, hi.y - lo.y, hi.z - lo.z });
    if (side / r > 1e15) r = side / 1e15;
    return r;
}
// Points about one unit apart along a line, in shuffled order: those at a distance below 1.5 are the neighbors along
// the line. at[k] is the position of point k on the line, who[p] the point at position p.
struct line
{
    Ps v;
    std::vector<size_t> at, who;
};
inline line gen_line (pbt::Source &s, size_t n)
{
    line l;
    auto b = s.sub ();
    static const double ds[4][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 0.6, -0.8, 0 } };
    const double *u = ds[b.below (4)];
    const P d = mk (u[0], u[1], u[2]);
    const P o = mk (double (b.below (1000)), -double (b.below (1000)), double (b.below (100)));
    l.who.resize (n);
    l.at.resize (n);
    for (size_t k = 0; k < n; ++k) l.who[k] = k;
    if (b.chance (3, 4)) for (size_t k = n; k > 1; --k) std::swap (l.who[k - 1], l.who[b.below (k)]);
    for (size_t k = 0; k < n; ++k) l.at[l.who[k]] = k;
    for (size_t k = 0; k < n; ++k)
    {
        const double t = double (l.at[k]) + b.unit () * 0.2;
        l.v.push_back (mk (o.x + d.x * t, o.y + d.y * t, o.z + d.z * t));
    }
    return l;
}
} // namespace geom
