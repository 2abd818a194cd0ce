// Bridges between the reference model and the library under test
#pragma once
#include "model.h"
#include "spoc/spoc.h"

namespace lib
{
using namespace model;

inline spoc::point_record::point_record to_pr (const rec &r)
{
    spoc::point_record::point_record p;
    p.x = r.x; p.y = r.y; p.z = r.z; p.c = r.c; p.p = r.p; p.i = r.i; p.r = r.r; p.g = r.g; p.b = r.b;
    p.extra = r.e;
    return p;
}
inline rec from_pr (const spoc::point_record::point_record &p)
{
    rec r;
    r.x = p.x; r.y = p.y; r.z = p.z; r.c = p.c; r.p = p.p; r.i = p.i; r.r = p.r; r.g = p.g; r.b = p.b;
    r.e = p.extra;
    return r;
}
inline spoc::point_record::point_records to_prs (const std::vector<rec> &v)
{
    spoc::point_record::point_records p;
    for (const auto &r : v) p.push_back (to_pr (r));
    return p;
}
inline std::vector<rec> from_prs (const spoc::point_record::point_records &v)
{
    std::vector<rec> p;
    for (const auto &r : v) p.push_back (from_pr (r));
    return p;
}
inline spoc::file::spoc_file to_file (const cloud &c)
{
    return spoc::file::spoc_file (c.wkt, c.compressed, to_prs (c.r));
}
inline cloud from_file (const spoc::file::spoc_file &f)
{
    cloud c;
    c.wkt = f.get_wkt ();
    c.compressed = f.get_compressed ();
    c.r = from_prs (f.get_point_records ());
    return c;
}
inline std::string write (const spoc::file::spoc_file &f)
{
    std::ostringstream o (std::ios::binary);
    spoc::io::write_spoc_file (o, f);
    return o.str ();
}
inline spoc::file::spoc_file read (const std::string &s)
{
    std::istringstream i (s, std::ios::binary);
    return spoc::io::read_spoc_file (i);
}
} // namespace lib
