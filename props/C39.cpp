// C39: field names and value lists are parsed exactly
#include "lib.h"
#include "cli.h"
#include "spoc/app_utils.h"
using namespace lib;
namespace au = spoc::app_utils;

// The grammar of names; index: of an extra field, or -1
static bool valid (const std::string &t, int64_t &index)
{
    index = -1;
    if (t.size () == 1 && std::string ("xyzcpirgb").find (t[0]) != std::string::npos) return true;
    if (t.size () < 2 || t[0] != 'e') return false;
    int64_t v = 0;
    for (size_t k = 1; k < t.size (); ++k)
    {
        if (t[k] < '0' || t[k] > '9') return false;
        v = std::min<int64_t> (v * 10 + (t[k] - '0'), INT64_MAX / 20);
    }
    index = v;
    return true;
}
static std::string gen_name (pbt::Bulk &b, bool alnum)
{
    static const char *fields[] = { "x", "y", "z", "c", "p", "i", "r", "g", "b" };
    switch (b.below (8))
    {
        case 0: case 1: return fields[b.below (9)];
        case 2: return "e" + std::to_string (b.below (4));
        case 3: return "e" + std::to_string (b.below (300));
        case 4: return "e" + std::string (b.below (4), '0') + std::to_string (any_int<uint32_t> (b) >> 1);
        case 5: // close to a name
        {
            std::string t = b.chance (1, 2) ? "e" + std::to_string (b.below (30)) : fields[b.below (9)];
            const char c = alnum ? "xeEX019a"[b.below (8)] : "xeEX019a+- ._"[b.below (13)];
            if (b.chance (1, 2)) t.insert (b.below (t.size () + 1), 1, c);
            else t[b.below (t.size ())] = c;
            return t;
        }
        case 6: { std::string t; for (uint64_t n = b.below (4) + 1; n; --n) t += "xyzcpirgbe0123456789EXQ"[b.below (23)]; return t; }
        default:
        {
            if (alnum) return b.chance (1, 2) ? "e" : "extra";
            static const char *odd[] = { "e", "e-1", "e+1", "e 1", "e1 ", "e1.5", "e0x1", "ee1", "E1", " x", "x ", "xy", "extra", "e1e", "classification", "-", "e--1", "e99999999999999999999" };
            return odd[b.below (18)];
        }
    }
}

PROP (names, 400000, "a name of an extra field, or text that is close to a name")
{
    auto b = s.sub ();
    const auto t = gen_name (b, false);
    int64_t index;
    const bool ok = valid (t, index);
    NOTE (s, "'" << t << "'");
    if (t.size () > 1) s.nontrivial ();
    s.label (ok ? index < 0 ? "field" : "extra field" : "no name");
    if (ok && index > INT32_MAX) { s.label ("index beyond an int"); return; }
    CHECK_MSG (au::check_field_name (t) == ok, "'" << t << "' is " << (ok ? "refused" : "accepted"));
    if (ok)
    {
        CHECK_MSG (au::is_extra_field (t) == (index >= 0), "'" << t << "' as an extra field");
        CHECK_MSG (au::get_extra_index (t) == index, "the index of '" << t << "' is " << au::get_extra_index (t));
    }
}

static const char seps[] = ",=:;/ |\t";

PROP (lists, 200000, "at least three items")
{
    auto b = s.sub ();
    const unsigned kind = s.draw (4); // names, integers, numbers, mixed
    const unsigned n = s.chance (1, 12) ? s.range (8, 80) : s.range (1, 7);
    const char sep = seps[s.draw (8)];
    struct item { int kind; std::string text; uint32_t i; double d; };
    std::vector<item> v;
    for (unsigned k = 0; k < n; ++k)
    {
        item q;
        q.kind = kind == 3 ? b.below (3) : kind;
        int64_t index;
        switch (q.kind)
        {
            case 0: do q.text = gen_name (b, true); while (!valid (q.text, index) || index > INT32_MAX); break;
            case 1: q.i = b.chance (1, 2) ? b.below (300) : any_int<uint32_t> (b) & 0x7fffffff; q.text = std::to_string (q.i); if (b.chance (1, 8)) q.text.insert (0, "00"); break;
            default:
            {
                const double d = b.chance (1, 3) ? double (int64_t (b.below (2001)) - 1000) : b.chance (1, 2) ? (b.unit () - 0.5) * 2e6 : std::ldexp (b.unit () + 0.5, int (b.below (600)) - 300);
                char t[64];
                static const char *f[] = { "%.17g", "%.3f", "%g", "%e", "%.0f" };
                snprintf (t, sizeof t, f[b.below (5)], d);
                q.text = t;
                if (q.text[0] != '-' && b.chance (1, 10)) q.text.insert (0, "+");
                q.d = strtod (q.text.c_str (), nullptr);
            }
        }
        v.push_back (q);
    }
    std::string t;
    for (unsigned k = 0; k < n; ++k) t += (k ? std::string (1, sep) : "") + v[k].text;
    NOTE (s, "'" << t << "'");
    if (n >= 3) s.nontrivial ();
    std::string rest = t;
    for (unsigned k = 0; k < n; ++k)
    {
        const std::string before = rest;
        switch (v[k].kind)
        {
            case 0: { const auto g = au::consume_field_name (rest); CHECK_MSG (g == v[k].text, "the name is '" << g << "', expected '" << v[k].text << "'"); break; }
            case 1: { const auto g = au::consume_int (rest); CHECK_MSG (g == v[k].i, "the integer is " << g << ", expected " << v[k].i); break; }
            default: { const auto g = au::consume_double (rest); CHECK_MSG (bits (g) == bits (v[k].d), "the number is " << g << ", expected " << v[k].d); break; }
        }
        std::string w;
        for (unsigned j = k + 1; j < n; ++j) w += (j > k + 1 ? std::string (1, sep) : "") + v[j].text;
        CHECK_MSG (rest == w, "after item " << k << " of '" << before << "', '" << rest << "' is left, expected '" << w << "'");
    }
}

PROP (all_integers, 200000, "at least three integers")
{
    auto b = s.sub ();
    const unsigned n = s.chance (1, 12) ? s.range (10, 300) : s.range (1, 9);
    const char sep = seps[s.draw (8)];
    std::vector<unsigned> v;
    std::string t;
    for (unsigned k = 0; k < n; ++k)
    {
        v.push_back (b.chance (1, 2) ? b.below (300) : any_int<uint32_t> (b) & 0x7fffffff);
        t += (k ? std::string (1, sep) : "") + std::to_string (v[k]);
    }
    const std::string tail = s.pick ({ "", "", "x", "end,5", "e1,2" });
    if (!tail.empty ()) t += sep + tail;
    NOTE (s, "'" << t << "'");
    if (n >= 3) s.nontrivial ();
    std::string rest = t;
    const auto g = au::consume_ints (rest);
    CHECK_MSG (g == v, g.size () << " integers read, expected " << n << ", or with other values");
    CHECK_MSG (rest == tail, "'" << rest << "' is left, expected '" << tail << "'");
}

PROP (refused, 200000, "every case: text that does not start with the expected item")
{
    auto b = s.sub ();
    const unsigned kind = s.draw (3);
    std::string t;
    s.nontrivial ();
    bool threw = false;
    if (kind == 0)
    {
        int64_t index;
        std::string name;
        do name = gen_name (b, true); while (valid (name, index));
        t = name + std::string (b.below (2), ',') + (b.chance (1, 2) ? "1" : "");
        if (t == name + "1") t = name;
        if (b.chance (1, 6)) t = b.chance (1, 2) ? ",x" : "=1";
        NOTE (s, "name: '" << t << "'");
        try { au::consume_field_name (t); } catch (const std::runtime_error &) { threw = true; }
    }
    else
    {
        static const char *heads[] = { "", "x", ",1", "=1", "c,1", "-", "+", "--1", "abc", "e5", "*", ".", "-x", "99999999999999999999", "1e999" };
        const char *h = heads[b.below (kind == 1 ? 14 : 13)];
        if (kind == 2 && b.chance (1, 10)) h = heads[14];
        t = h;
        if (b.chance (1, 2) && !t.empty () && !isdigit ((unsigned char) t.back ()) && !strchr ("+-.", t.back ())) t += ",5";
        NOTE (s, (kind == 1 ? "integer: '" : "number: '") << t << "'");
        try { if (kind == 1) au::consume_int (t); else au::consume_double (t); } catch (const std::runtime_error &) { threw = true; }
    }
    CHECK_MSG (threw, "was accepted");
}

PROP (tool, 2500, "a name of an extra field, or text that is close to a name")
{
    // an application accepts the same names
    auto b = s.sub ();
    const auto t = gen_name (b, true);
    int64_t index;
    const bool ok = valid (t, index);
    cloud c;
    for (int k = 0; k < 3; ++k) { rec r; r.c = 7; for (int e = 0; e < 5; ++e) r.e.push_back (100 + e); c.r.push_back (r); }
    std::vector<std::string> a { "spoc_tool", "--get-field=" + t };
    NOTE (s, cli::shell_text (a));
    if (t.size () > 1) s.nontrivial ();
    const auto r = cli::run (a, encode (c));
    if (ok && index < 5)
    {
        CHECK_MSG (r.ok (), "'" << t << "' was refused: " << r.text ());
        if (index >= 0) { const auto v = std::to_string (100 + index) + "\n"; CHECK_MSG (r.out == v + v + v, "field '" << t << "' is printed as " << r.out); }
    }
    else CHECK_MSG (r.rejected () && !r.err.empty () && r.out.empty (), "'" << t << "' was accepted: " << r.text ());
}
PBT_MAIN
