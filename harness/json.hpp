// Minimal JSON for the conformance drivers (independent of the code under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

struct J
{
    enum K { Nul, Bool, Int, Str, Arr, Obj } k = Nul;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() = default;
    J(bool v) : k(Bool), b(v) {}
    J(int v) : k(Int), i(v) {}
    J(long v) : k(Int), i(v) {}
    J(long long v) : k(Int), i(v) {}
    J(unsigned v) : k(Int), i(v) {}
    J(unsigned long v) : k(Int), i(static_cast<long long>(v)) {}
    J(const char* v) : k(Str), s(v) {}
    J(const std::string& v) : k(Str), s(v) {}
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    template<class C> static J list(const C& c) { J j = arr(); for (const auto& x : c) j.a.push_back(J(x)); return j; }

    J& add(const J& v) { k = Arr; a.push_back(v); return *this; }
    J& set(const std::string& key, const J& v)
    {
        k = Obj;
        for (auto& p : o) if (p.first == key) { p.second = v; return *this; }
        o.emplace_back(key, v);
        return *this;
    }
    bool has(const std::string& key) const
    {
        for (auto& p : o) if (p.first == key) return true;
        return false;
    }
    const J& operator[](const std::string& key) const
    {
        for (auto& p : o) if (p.first == key) return p.second;
        static const J nul;
        return nul;
    }
    const J& operator[](std::size_t n) const
    {
        static const J nul;
        return n < a.size() ? a[n] : nul;
    }
    const J& operator[](int n) const { return (*this)[static_cast<std::size_t>(n)]; }
    std::size_t size() const { return k == Obj ? o.size() : a.size(); }
    const std::string& str() const { return s; }
    long long num() const { return i; }
    bool boolean() const { return b; }

    static void esc(std::string& out, const std::string& v)
    {
        out += '"';
        for (unsigned char c : v)
        {
            switch (c)
            {
            case '"': out += "\\\""; break;
            case '\\': out += "\\\\"; break;
            case '\n': out += "\\n"; break;
            case '\t': out += "\\t"; break;
            case '\r': out += "\\r"; break;
            default:
                if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); out += b; }
                else out += static_cast<char>(c);
            }
        }
        out += '"';
    }
    void dump(std::string& out) const
    {
        switch (k)
        {
        case Nul: out += "null"; break;
        case Bool: out += b ? "true" : "false"; break;
        case Int: out += std::to_string(i); break;
        case Str: esc(out, s); break;
        case Arr:
            out += '[';
            for (std::size_t n = 0; n < a.size(); n++) { if (n) out += ','; a[n].dump(out); }
            out += ']';
            break;
        case Obj:
            out += '{';
            for (std::size_t n = 0; n < o.size(); n++)
            {
                if (n) out += ',';
                esc(out, o[n].first);
                out += ':';
                o[n].second.dump(out);
            }
            out += '}';
            break;
        }
    }
    std::string dump() const { std::string s_; dump(s_); return s_; }

    struct P
    {
        const std::string& t;
        std::size_t p = 0;
        [[noreturn]] void bad() { std::fprintf(stderr, "bad JSON at %zu: %s\n", p, t.c_str()); std::abort(); }
        void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) p++; }
        std::string str()
        {
            std::string r;
            if (t[p] != '"') bad();
            for (p++; p < t.size() && t[p] != '"'; p++)
            {
                if (t[p] != '\\') { r += t[p]; continue; }
                p++;
                switch (t[p])
                {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u':
                {
                    unsigned c = static_cast<unsigned>(std::stoul(t.substr(p + 1, 4), nullptr, 16));
                    p += 4;
                    if (c < 0x80) r += static_cast<char>(c);
                    else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
                    else { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
                    break;
                }
                default: r += t[p];
                }
            }
            p++;
            return r;
        }
        J val()
        {
            ws();
            J j;
            char c = t[p];
            if (c == '{')
            {
                j.k = Obj;
                p++; ws();
                if (t[p] == '}') { p++; return j; }
                while (true)
                {
                    ws();
                    std::string key = str();
                    ws();
                    if (t[p] != ':') bad();
                    p++;
                    j.o.emplace_back(key, val());
                    ws();
                    if (t[p] == ',') { p++; continue; }
                    if (t[p] == '}') { p++; return j; }
                    bad();
                }
            }
            if (c == '[')
            {
                j.k = Arr;
                p++; ws();
                if (t[p] == ']') { p++; return j; }
                while (true)
                {
                    j.a.push_back(val());
                    ws();
                    if (t[p] == ',') { p++; continue; }
                    if (t[p] == ']') { p++; return j; }
                    bad();
                }
            }
            if (c == '"') { j.k = Str; j.s = str(); return j; }
            if (t.compare(p, 4, "true") == 0) { p += 4; j.k = Bool; j.b = true; return j; }
            if (t.compare(p, 5, "false") == 0) { p += 5; j.k = Bool; return j; }
            if (t.compare(p, 4, "null") == 0) { p += 4; return j; }
            std::size_t e = p;
            if (t[e] == '-') e++;
            while (e < t.size() && ((t[e] >= '0' && t[e] <= '9') || t[e] == '.' || t[e] == 'e' || t[e] == 'E' || t[e] == '+' || t[e] == '-')) e++;
            if (e == p) bad();
            j.k = Int;
            j.i = std::stoll(t.substr(p, e - p));
            p = e;
            return j;
        }
    };
    static J parse(const std::string& t) { P p {t}; return p.val(); }
};
