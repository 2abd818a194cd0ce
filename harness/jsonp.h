// A parser for what spoc/json.h prints: JSON with single quotes and without escapes
#pragma once
#include "pbt.h"
#include <map>

namespace jsonp
{
struct node
{
    enum kind_t { NUMBER, STRING, BOOL, OBJECT, ARRAY } kind = NUMBER;
    std::string text;                                   // of a number, a string or a truth value
    std::vector<std::pair<std::string, node>> members;  // of an object, as printed
    std::vector<node> items;                            // of an array
    const node *find (const std::string &k) const { for (const auto &m : members) if (m.first == k) return &m.second; return nullptr; }
    double number () const { return strtod (text.c_str (), nullptr); }
};

class parser
{
    const std::string &s;
    size_t i = 0;
    [[noreturn]] void fail (const std::string &why) { CHECK_MSG (false, "not JSON at byte " << i << ": " << why << ": ..." << s.substr (i > 40 ? i - 40 : 0, 80)); abort (); }
    void space () { while (i < s.size () && strchr (" \n\t\r", s[i])) ++i; }
    bool eat (char c) { space (); if (i < s.size () && s[i] == c) { ++i; return true; } return false; }
    std::string quoted ()
    {
        if (!eat ('\'')) fail ("a string is expected");
        const size_t e = s.find ('\'', i);
        if (e == std::string::npos) fail ("a string does not end");
        const auto t = s.substr (i, e - i);
        i = e + 1;
        return t;
    }
public:
    explicit parser (const std::string &t) : s (t) {}
    bool done () { space (); return i == s.size (); }
    node value ()
    {
        node n;
        space ();
        if (i == s.size ()) fail ("a value is missing");
        if (s[i] == '{')
        {
            ++i;
            n.kind = node::OBJECT;
            if (eat ('}')) return n;
            while (true)
            {
                const auto k = quoted ();
                if (!eat (':')) fail ("a colon is missing");
                n.members.push_back ({ k, value () });
                if (eat ('}')) return n;
                if (!eat (',')) fail ("a comma is missing");
            }
        }
        if (s[i] == '[')
        {
            ++i;
            n.kind = node::ARRAY;
            if (eat (']')) return n;
            while (true)
            {
                n.items.push_back (value ());
                if (eat (']')) return n;
                if (!eat (',')) fail ("a comma is missing");
            }
        }
        if (s[i] == '\'') { n.kind = node::STRING; n.text = quoted (); return n; }
        const size_t b = i;
        while (i < s.size () && (isalnum ((unsigned char) s[i]) || strchr ("+-.", s[i]))) ++i;
        n.text = s.substr (b, i - b);
        if (n.text == "true" || n.text == "false") { n.kind = node::BOOL; return n; }
        char *e = nullptr;
        strtod (n.text.c_str (), &e);
        if (n.text.empty () || *e) fail ("no value");
        return n;
    }
};
inline std::vector<node> parse_all (const std::string &t)
{
    parser p (t);
    std::vector<node> v;
    while (!p.done ()) v.push_back (p.value ());
    return v;
}
inline node parse (const std::string &t)
{
    auto v = parse_all (t);
    CHECK_MSG (v.size () == 1, v.size () << " JSON values where one is expected");
    return v[0];
}
// Without the white space between tokens
inline std::string squeeze (const std::string &t)
{
    std::string o;
    bool q = false;
    for (char c : t)
    {
        if (c == '\'') q = !q;
        if (q || !strchr (" \n\t\r", c)) o += c;
    }
    return o;
}
} // namespace jsonp
