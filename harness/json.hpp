// Minimal JSON reader/writer used by the conformance drivers.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>

namespace vj
{

struct Val
{
    enum Kind { Null, Num, Str, Arr, Obj, Bool } kind = Null;
    long long num = 0;
    std::string str;
    std::vector<Val> arr;
    std::map<std::string, Val> obj;

    bool has(char const* k) const { return obj.count(k) != 0; }
    Val const& operator[](char const* k) const
    {
        auto it = obj.find(k);
        if (it == obj.end()) throw std::runtime_error(std::string("script: missing field ") + k);
        return it->second;
    }
    long long i(char const* k) const { return (*this)[k].num; }
    long long i(char const* k, long long d) const { return has(k) ? (*this)[k].num : d; }
    std::string s(char const* k) const { return (*this)[k].str; }
    std::vector<std::uint8_t> bytes(char const* k) const
    {
        std::vector<std::uint8_t> r;
        if (has(k)) for (auto const& e : (*this)[k].arr) r.push_back(static_cast<std::uint8_t>(e.num));
        return r;
    }
};

class Parser
{
public:
    explicit Parser(std::string const& t) : p(t.c_str()) {}
    Val parse() { Val v = value(); return v; }
private:
    char const* p;
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
    Val value()
    {
        ws();
        Val v;
        switch (*p)
        {
        case '{':
        {
            v.kind = Val::Obj; ++p; ws();
            while (*p != '}')
            {
                ws();
                std::string k = string();
                ws(); if (*p != ':') throw std::runtime_error("json"); ++p;
                v.obj[k] = value();
                ws(); if (*p == ',') ++p;
                ws();
                if (!*p) throw std::runtime_error("json");
            }
            ++p;
        }
        break;
        case '[':
        {
            v.kind = Val::Arr; ++p; ws();
            while (*p != ']')
            {
                v.arr.push_back(value());
                ws(); if (*p == ',') ++p;
                ws();
                if (!*p) throw std::runtime_error("json");
            }
            ++p;
        }
        break;
        case '"': v.kind = Val::Str; v.str = string(); break;
        case 't': v.kind = Val::Bool; v.num = 1; p += 4; break;
        case 'f': v.kind = Val::Bool; v.num = 0; p += 5; break;
        case 'n': p += 4; break;
        default:
        {
            char* e;
            v.kind = Val::Num;
            v.num = std::strtoll(p, &e, 10);
            if (e == p) throw std::runtime_error("json");
            p = e;
        }
        }
        return v;
    }
    std::string string()
    {
        if (*p != '"') throw std::runtime_error("json");
        ++p;
        std::string s;
        while (*p && *p != '"')
        {
            if (*p == '\\') ++p;
            s += *p++;
        }
        if (*p) ++p;
        return s;
    }
};

inline Val parse(std::string const& t) { return Parser(t).parse(); }

// ---- writer -------------------------------------------------------------
inline std::string n(long long v) { return std::to_string(v); }
inline std::string q(std::string const& s) { return "\"" + s + "\""; }
inline std::string bytes(void const* d, std::size_t len)
{
    auto const* b = static_cast<std::uint8_t const*>(d);
    std::string r = "[";
    for (std::size_t i = 0; i < len; ++i) { if (i) r += ","; r += std::to_string(b[i]); }
    return r + "]";
}
inline std::string bytes(std::vector<std::uint8_t> const& v) { return bytes(v.data(), v.size()); }
inline std::string arr(std::vector<std::string> const& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
    return r + "]";
}
struct O
{
    std::string s = "{";
    O& raw(char const* k, std::string const& v) { if (s.size() > 1) s += ","; s += q(k) + ":" + v; return *this; }
    O& num(char const* k, long long v) { return raw(k, n(v)); }
    O& str(char const* k, std::string const& v) { return raw(k, q(v)); }
    std::string done() const { return s + "}"; }
};

} // namespace vj
