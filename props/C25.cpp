// C25: set, replace, replace-not and copy-field affect exactly the named field
#include "xform.h"
using namespace xform;

// Files where values repeat, and where several fields hold the same values
static cloud gen (pbt::Source &s, unsigned max_extras)
{
    gen_opts o;
    o.max_points = s.rare (4) ? 140000 : 20;
    o.max_extras = max_extras;
    auto c = gen_cloud (s, o, 0, false);
    auto b = s.sub ();
    const unsigned mode = s.draw (3);
    if (mode)
        for (auto &r : c.r)
        {
            auto v = [&] () -> uint64_t { return mode == 1 ? b.below (4) : b.chance (1, 2) ? b.below (3) : (uint64_t (1) << (8 * b.below (8))) + b.below (3); };
            r.c = v (); r.p = v (); r.i = v (); r.r = v (); r.g = v (); r.b = v ();
            for (auto &e : r.e) e = v ();
        }
    return c;
}
static bool is_field_cmd (const cmd &q) { return q.name == "set" || q.name == "replace" || q.name == "replace-not" || q.name == "copy-field"; }
static cmd gen_field_cmd (pbt::Source &s, const cloud &c)
{
    for (int k = 0; k < 30; ++k) { auto q = gen_cmd (s, c, false); if (is_field_cmd (q)) return q; }
    cmd q;
    q.name = "set"; q.params = "c,7"; q.fields = { "c" }; q.f = [] (rec &r, double &) { r.c = 7; };
    return q;
}
static bool run_plan (pbt::Source &s, const cloud &c, const cmd &q, cloud &w)
{
    w = c;
    bool some = false, none = false;
    for (auto &r : w.r) { const rec o = r; double m = 0; q.f (r, m); (same (o, r) ? none : some) = true; }
    s.label (q.name);
    s.label (q.name + " " + (*q.fields.begin ())[0]);
    NOTE (s, c << ": --" << q.name << "=" << q.params);
    return some;
}

PROP (library, 250000, "the command changes some record")
{
    const auto c = gen (s, 8);
    const auto q = gen_field_cmd (s, c);
    cloud w;
    if (run_plan (s, c, q, w)) s.nontrivial ();
    const auto out = run_lib (encode (c), commands ({ q }));
    check_same (decode_all (out, "the output"), w, q.name + "=" + q.params);
}

PROP (tool, 4000, "the command changes some record")
{
    const auto c = gen (s, 255);
    const auto q = gen_field_cmd (s, c);
    cloud w;
    if (run_plan (s, c, q, w)) s.nontrivial ();
    std::vector<std::string> a { "spoc_transform" };
    if (s.coin ()) a.push_back ("--" + q.name + "=" + q.params);
    else { a.push_back ("--" + q.name); a.push_back (q.params); }
    check_same (cli::run_cloud (a, encode (c)), w, cli::shell_text (a));
}

PROP (errors, 60000, "a command that names a field it must not, on a file with records")
{
    auto c = gen (s, 6);
    if (c.r.empty ()) c.r.resize (1);
    const unsigned extras = c.extras ();
    const std::string missing = "e" + std::to_string (extras + (s.coin () ? 0 : s.draw (300)));
    const std::string xyz (1, "xyz"[s.draw (3)]);
    const std::string ok = gen_int_field (s, extras);
    const bool m = s.coin ();
    const std::string bad = m ? missing : xyz;
    std::string name, par;
    switch (s.draw (m ? 5 : 4))
    {
        case 0: name = "replace"; par = bad + ",1,2"; break;
        case 1: name = "replace-not"; par = bad + ",1,2,3"; break;
        case 2: name = "copy-field"; par = bad + "," + ok; break;
        case 3: name = "copy-field"; par = ok + "," + bad; break;
        default: name = "set"; par = bad + ",1"; break;
    }
    NOTE (s, extras << " extra fields, " << c.r.size () << " records: --" << name << "=" << par);
    s.nontrivial ();
    s.label (name + (m ? " missing extra" : " xyz"));
    bool threw = false;
    try { run_lib (encode (c), { { name, par } }); }
    catch (const std::exception &) { threw = true; }
    CHECK_MSG (threw, name << "=" << par << " was accepted with " << extras << " extra fields");
    if (s.chance (1, 60))
    {
        const auto r = cli::run ({ "spoc_transform", "--" + name + "=" + par }, encode (c));
        CHECK_MSG (r.rejected () && !r.err.empty (), "spoc_transform --" << name << "=" << par << ": " << r.text ());
        s.label ("tool");
    }
}
PBT_MAIN
