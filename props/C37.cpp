// C37: JSON printing represents the whole value tree
#include "lib.h"
#include "jsonp.h"
#include "spoc/json.h"
#include <deque>
using namespace lib;
namespace js = spoc::json;

// A value, and what its text has to say
struct want
{
    jsonp::node::kind_t kind = jsonp::node::NUMBER;
    std::string exact;              // an integer, a string or a truth value
    bool real = false;
    double d = 0;
    std::map<std::string, want> members;
    std::vector<want> items;
    size_t count = 1, depth = 1;
};

static std::deque<std::string> keep; // for const char *

static std::string gen_string (pbt::Bulk &b)
{
    static const char set[] = "abz09 _-:,{}[]\"\\/\n\t.xE+\xc3\xa9";
    std::string t;
    for (uint64_t n = b.chance (1, 4) ? 0 : b.below (b.chance (1, 20) ? 300 : 12); n; --n) t += set[b.below (sizeof set - 1)];
    if (b.chance (1, 8)) t = b.chance (1, 2) ? "true" : "12";
    return t;
}
template<typename T> static js::value integer (pbt::Bulk &b, want &w)
{
    const T v = any_int<T> (b);
    w.exact = std::to_string (v);
    return js::value (v);
}
static js::value gen (pbt::Bulk &b, want &w, unsigned depth, unsigned width)
{
    const unsigned kind = depth && b.chance (1, 2) ? 11 + b.below (4) : b.below (11);
    w = want ();
    switch (kind)
    {
        case 0: { const int v = int (any_int<uint32_t> (b)); w.exact = std::to_string (v); return js::value (v); }
        case 1: { const char v = char (b.next ()); w.exact = std::to_string (int (v)); return js::value (v); }
        case 2: return integer<uint8_t> (b, w);
        case 3: return integer<uint16_t> (b, w);
        case 4: return integer<uint32_t> (b, w);
        case 5: return integer<uint64_t> (b, w);
        case 6: { const float v = float ((b.unit () - 0.5) * std::pow (10, b.below (30))); w.real = true; w.d = v; return js::value (v); }
        case 7: { double v = b.chance (1, 2) ? finite_double (b) : (b.unit () - 0.5) * 1e6; if (std::fabs (v) > 1e307) v = v / 1e10; w.real = true; w.d = v; return js::value (v); }
        case 8: { const bool v = b.chance (1, 2); w.kind = jsonp::node::BOOL; w.exact = v ? "true" : "false"; return js::value (v); }
        case 9: { const auto t = gen_string (b); w.kind = jsonp::node::STRING; w.exact = t; return js::value (t); }
        case 10: { keep.push_back (gen_string (b)); w.kind = jsonp::node::STRING; w.exact = keep.back (); return js::value (keep.back ().c_str ()); }
        case 11: case 12:
        {
            js::array a;
            w.kind = jsonp::node::ARRAY;
            for (uint64_t n = b.below (width + 1); n; --n)
            {
                want x;
                a.push_back (gen (b, x, depth - 1, width));
                w.count += x.count; w.depth = std::max (w.depth, x.depth + 1);
                w.items.push_back (x);
            }
            return js::value (a);
        }
        default:
        {
            js::object o;
            w.kind = jsonp::node::OBJECT;
            for (uint64_t n = b.below (width + 1); n; --n)
            {
                want x;
                const auto k = gen_string (b);
                o[k] = gen (b, x, depth - 1, width);
                w.count += x.count; w.depth = std::max (w.depth, x.depth + 1);
                w.members[k] = x;
            }
            return js::value (o);
        }
    }
}
static void compare (const jsonp::node &n, const want &w, int precision, const std::string &where)
{
    CHECK_MSG (n.kind == w.kind, where << " is of another kind: '" << n.text << "', expected '" << w.exact << "'");
    if (w.real)
    {
        const double v = n.number ();
        if (precision >= 17) CHECK_MSG (v == w.d, where << " reads " << n.text << ", which is not " << w.d);
        else CHECK_MSG (std::fabs (v - w.d) <= std::fabs (w.d) * std::pow (10, 1 - precision) + 1e-300, where << " reads " << n.text << ", which is not " << w.d);
        return;
    }
    if (w.kind == jsonp::node::ARRAY)
    {
        CHECK_MSG (n.items.size () == w.items.size (), where << " has " << n.items.size () << " elements, expected " << w.items.size ());
        for (size_t k = 0; k < w.items.size (); ++k) compare (n.items[k], w.items[k], precision, where + "[" + std::to_string (k) + "]");
        return;
    }
    if (w.kind == jsonp::node::OBJECT)
    {
        CHECK_MSG (n.members.size () == w.members.size (), where << " has " << n.members.size () << " members, expected " << w.members.size ());
        size_t k = 0;
        for (const auto &m : w.members)
        {
            CHECK_MSG (n.members[k].first == m.first, where << " has key '" << n.members[k].first << "', expected '" << m.first << "'");
            compare (n.members[k].second, m.second, precision, where + "." + m.first);
            ++k;
        }
        return;
    }
    CHECK_MSG (n.text == w.exact, where << " reads '" << n.text << "', expected '" << w.exact << "'");
}

PROP (trees, 150000, "a tree of at least 5 values, nested at least 3 deep")
{
    keep.clear ();
    const unsigned depth = s.draw (6), width = s.range (1, 6);
    const int precision = s.coin () ? 17 : s.range (3, 12);
    const unsigned top = s.draw (3);
    auto b = s.sub ();
    want w;
    auto v = gen (b, w, depth, width);
    if (top == 1) { js::object o; want x; x.kind = jsonp::node::OBJECT; o["k"] = v; x.members["k"] = w; x.count = w.count + 1; x.depth = w.depth + 1; w = x; v = o; }
    if (top == 2) { js::array a; want x; x.kind = jsonp::node::ARRAY; a.push_back (v); a.push_back (v); x.items = { w, w }; x.count = 2 * w.count + 1; x.depth = w.depth + 1; w = x; v = a; }
    if (w.count > 3000) return s.discard ();
    NOTE (s, w.count << " values, " << w.depth << " deep, precision " << precision);
    if (w.count >= 5 && w.depth >= 3) s.nontrivial ();
    std::ostringstream c, p;
    c.precision (precision);
    p.precision (precision);
    // through the overload for the static type, or as a value
    if (top == 1 && s.coin ()) { const auto o = std::any_cast<js::object> (v); js::operator<< (c, o); js::pretty_print (p, o, 0); }
    else if (top == 2 && s.coin ()) { const auto a = std::any_cast<js::array> (v); js::operator<< (c, a); js::pretty_print (p, a, 0); }
    else { js::operator<< (c, v); js::pretty_print (p, v, 0); }
    NOTE (s, ": " << pbt::tail (c.str (), 200));
    compare (jsonp::parse (c.str ()), w, precision, "the compact form");
    compare (jsonp::parse (p.str ()), w, precision, "the pretty form");
    CHECK_MSG (jsonp::squeeze (c.str ()) == jsonp::squeeze (p.str ()), "the two forms differ in more than white space");
}

// Long lists, objects with many keys, deep nesting, long strings
PROP (big, 120, "more than 1000 elements, more than 100 levels, or a string of more than 4000 characters")
{
    keep.clear ();
    auto b = s.sub ();
    want w;
    js::value v;
    const unsigned kind = s.draw (4);
    const size_t n = kind == 2 ? s.range (1, 400) : s.range (10, s.chance (1, 4) ? 140000 : 5000);
    NOTE (s, n << (kind == 0 ? " elements" : kind == 1 ? " keys" : kind == 2 ? " levels" : " characters"));
    if (n > (kind == 2 ? 100 : kind == 3 ? 4000 : 1000)) s.nontrivial ();
    if (kind == 0)
    {
        js::array a;
        w.kind = jsonp::node::ARRAY;
        for (size_t k = 0; k < n; ++k) { want x; a.push_back (gen (b, x, 0, 1)); w.items.push_back (x); }
        v = a;
    }
    else if (kind == 1)
    {
        js::object o;
        w.kind = jsonp::node::OBJECT;
        for (size_t k = 0; k < n; ++k) { want x; const auto key = std::to_string (b.below (n)); o[key] = gen (b, x, 0, 1); w.members[key] = x; }
        v = o;
    }
    else if (kind == 2)
    {
        v = gen (b, w, 0, 1);
        for (size_t k = 0; k < n; ++k)
        {
            want x;
            if (b.chance (1, 2)) { x.kind = jsonp::node::ARRAY; x.items.push_back (std::move (w)); v = js::value (js::array { v }); }
            else { x.kind = jsonp::node::OBJECT; x.members["k"] = std::move (w); js::object o; o["k"] = v; v = o; }
            w = std::move (x);
        }
    }
    else
    {
        std::string t;
        for (size_t k = 0; k < n; ++k) t += char ('a' + b.below (26));
        w.kind = jsonp::node::STRING;
        w.exact = t;
        keep.push_back (t);
        v = b.chance (1, 2) ? js::value (t) : js::value (keep.back ().c_str ());
    }
    std::ostringstream c, p;
    c.precision (17);
    p.precision (17);
    js::operator<< (c, v);
    js::pretty_print (p, v, 0);
    compare (jsonp::parse (c.str ()), w, 17, "the compact form");
    compare (jsonp::parse (p.str ()), w, 17, "the pretty form");
    CHECK_MSG (jsonp::squeeze (c.str ()) == jsonp::squeeze (p.str ()), "the two forms differ in more than white space");
}

PROP (integers, 200000, "every case: one integer of each type")
{
    // all widths at once, in one object
    auto b = s.sub ();
    js::object o;
    std::map<std::string, std::string> w;
    want x;
    const int i = int (any_int<uint32_t> (b));
    o["int"] = i; w["int"] = std::to_string (i);
    const char ch = char (b.next ());
    o["char"] = ch; w["char"] = std::to_string (int (ch));
    o["u8"] = integer<uint8_t> (b, x); w["u8"] = x.exact;
    o["u16"] = integer<uint16_t> (b, x); w["u16"] = x.exact;
    o["u32"] = integer<uint32_t> (b, x); w["u32"] = x.exact;
    o["u64"] = integer<uint64_t> (b, x); w["u64"] = x.exact;
    o["size"] = size_t (b.next ()); w["size"] = std::to_string (std::any_cast<size_t> (o["size"]));
    const bool t = b.chance (1, 2);
    o["bool"] = t; w["bool"] = t ? "true" : "false";
    s.nontrivial ();
    std::ostringstream c, p;
    js::operator<< (c, o);
    js::pretty_print (p, o, s.draw (3));
    NOTE (s, c.str ());
    for (const auto &text : { c.str (), p.str () })
    {
        const auto n = jsonp::parse (text);
        CHECK (n.members.size () == w.size ());
        for (const auto &m : w) CHECK_MSG (n.find (m.first) && n.find (m.first)->text == m.second, m.first << " is printed as " << (n.find (m.first) ? n.find (m.first)->text : "nothing") << ", expected " << m.second);
    }
}

// Values of types that have no JSON form: marked as such, and the rest of the document is still there
PROP (other_types, 60000, "every case: a value of an unsupported type among others")
{
    auto b = s.sub ();
    js::object o;
    js::array a;
    const unsigned n = s.range (1, 5), at = s.draw (n), kind = s.draw (5);
    NOTE (s, "type " << kind << " at " << at << " of " << n);
    s.nontrivial ();
    std::string want;
    for (unsigned k = 0; k < n; ++k)
    {
        std::any v = int (1000 + k);
        if (k == at)
            switch (kind)
            {
                case 0: v = std::vector<int> { 1 }; break;
                case 1: v = short (3); break;
                case 2: v = std::pair<int, int> (1, 2); break;
                case 3: v = (long double) 1; break;
                default: v = static_cast<const void *> (nullptr);
            }
        o["k" + std::to_string (k)] = v;
        a.push_back (v);
    }
    for (unsigned form = 0; form < 4; ++form)
    {
        std::ostringstream t;
        if (form == 0) js::operator<< (t, o); else if (form == 1) js::pretty_print (t, o, 0); else if (form == 2) js::operator<< (t, a); else js::pretty_print (t, a, 0);
        CHECK_MSG (t.good (), "the stream failed");
        CHECK_MSG (t.str ().find ("unknown type") != std::string::npos, "the value of an unsupported type is not marked in " << t.str ());
        for (unsigned k = 0; k < n; ++k) CHECK_MSG (k == at || t.str ().find (std::to_string (1000 + k)) != std::string::npos, "the value " << 1000 + k << " is missing in " << t.str ());
    }
}
PBT_MAIN
