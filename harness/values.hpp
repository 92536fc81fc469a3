// Typed values <-> JSON, shared by the drivers of the configuration containers.
#pragma once
#include "driver.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include <deque>
#include <set>
#include <algorithm>
#include <utility>

using NeoFOAM::Dictionary;
using NeoFOAM::TokenList;

inline const char* intern(const std::string& s)
{
    static std::deque<std::string> pool;
    for (auto& p : pool) if (p == s) return p.c_str();
    pool.push_back(s);
    return pool.back().c_str();
}
inline std::vector<double> parseVec(const std::string& s)
{
    std::vector<double> r;
    std::stringstream ss(s);
    std::string p;
    while (std::getline(ss, p, ',')) r.push_back(std::stod(p));
    return r;
}
inline std::string num(double d)
{
    std::ostringstream o;
    o.precision(17);
    o << d;
    return o.str();
}

// one place that knows the C++ type behind every type tag
template<class F>
auto withType(const std::string& t, F&& f)
{
    if (t == "int") return f.template operator()<int>();
    if (t == "double") return f.template operator()<double>();
    if (t == "float") return f.template operator()<float>();
    if (t == "bool") return f.template operator()<bool>();
    if (t == "size_t") return f.template operator()<std::size_t>();
    if (t == "i64") return f.template operator()<std::int64_t>();
    if (t == "str") return f.template operator()<std::string>();
    if (t == "cstr") return f.template operator()<const char*>();
    if (t == "vec") return f.template operator()<std::vector<double>>();
    if (t == "tok") return f.template operator()<TokenList>();
    if (t == "dict") return f.template operator()<Dictionary>();
    std::fprintf(stderr, "driver: unknown type %s\n", t.c_str());
    std::abort();
}

// what a reader of a message recognises the type by
template<class T> std::string tname()
{
    if constexpr (std::is_same_v<T, int>) return "int";
    else if constexpr (std::is_same_v<T, double>) return "double";
    else if constexpr (std::is_same_v<T, float>) return "float";
    else if constexpr (std::is_same_v<T, bool>) return "bool";
    else if constexpr (std::is_same_v<T, std::size_t>) return "unsigned long";
    else if constexpr (std::is_same_v<T, std::int64_t>) return "long";
    else if constexpr (std::is_same_v<T, std::string>) return "string";
    else if constexpr (std::is_same_v<T, const char*>) return "char const*";
    else if constexpr (std::is_same_v<T, std::vector<double>>) return "vector<double";
    else if constexpr (std::is_same_v<T, TokenList>) return "NeoFOAM::TokenList";
    else return "NeoFOAM::Dictionary";
}
J anyToJ(const std::any& a);
J dictToJ(const Dictionary& d);

template<class T> T lit(const std::string& v);
template<> inline int lit<int>(const std::string& v) { return std::stoi(v); }
template<> inline double lit<double>(const std::string& v) { return std::stod(v); }
template<> inline float lit<float>(const std::string& v) { return std::stof(v); }
template<> inline bool lit<bool>(const std::string& v) { return v == "true"; }
template<> inline std::size_t lit<std::size_t>(const std::string& v) { return std::stoull(v); }
template<> inline std::int64_t lit<std::int64_t>(const std::string& v) { return std::stoll(v); }
template<> inline std::string lit<std::string>(const std::string& v) { return v; }
template<> inline const char* lit<const char*>(const std::string& v) { return intern(v); }
template<> inline std::vector<double> lit<std::vector<double>>(const std::string& v) { return parseVec(v); }
template<> inline TokenList lit<TokenList>(const std::string& v)
{
    TokenList l;
    std::stringstream ss(v);
    std::string p;
    while (std::getline(ss, p, ' ')) l.insert(p);
    return l;
}
template<> inline Dictionary lit<Dictionary>(const std::string&) { return Dictionary(); }

inline std::string unlit(int v) { return std::to_string(v); }
inline std::string unlit(double v) { return num(v); }
inline std::string unlit(float v) { return num(static_cast<double>(v)); }
inline std::string unlit(bool v) { return v ? "true" : "false"; }
inline std::string unlit(std::size_t v) { return std::to_string(v); }
inline std::string unlit(std::int64_t v) { return std::to_string(v); }
inline std::string unlit(const std::string& v) { return v; }
inline std::string unlit(const char* v) { return v; }
inline std::string unlit(const std::vector<double>& v)
{
    std::string r;
    for (auto d : v) { if (!r.empty()) r += ","; r += num(d); }
    return r;
}
inline std::string unlit(const TokenList& l)
{
    std::string r;
    for (std::size_t i = 0; i < l.size(); i++) { if (i) r += " "; r += l.get<std::string>(i); }
    return r;
}

template<class T>
J valToJ(const T& v)
{
    if constexpr (std::is_same_v<T, Dictionary>) return dictToJ(v);
    else
    {
        std::string t;
        if constexpr (std::is_same_v<T, int>) t = "int";
        else if constexpr (std::is_same_v<T, double>) t = "double";
        else if constexpr (std::is_same_v<T, float>) t = "float";
        else if constexpr (std::is_same_v<T, bool>) t = "bool";
        else if constexpr (std::is_same_v<T, std::size_t>) t = "size_t";
        else if constexpr (std::is_same_v<T, std::int64_t>) t = "i64";
        else if constexpr (std::is_same_v<T, std::string>) t = "str";
        else if constexpr (std::is_same_v<T, const char*>) t = "cstr";
        else if constexpr (std::is_same_v<T, std::vector<double>>) t = "vec";
        else if constexpr (std::is_same_v<T, TokenList>) t = "tok";
        return tv(t, unlit(v));
    }
}

inline J anyToJ(const std::any& a)
{
    for (const char* t : {"int", "double", "float", "bool", "size_t", "i64", "str", "cstr", "vec", "tok", "dict"})
    {
        J r;
        bool hit = withType(t, [&]<class T>() {
            if (auto* p = std::any_cast<T>(&a)) { r = valToJ<T>(*p); return true; }
            return false;
        });
        if (hit) return r;
    }
    return tv("other", a.type().name());
}

// projection of a dictionary through its public interface; every accessor must tell the same story
inline J dictTree(const Dictionary& d)
{
    J t = J::obj();
    std::vector<std::string> ks = d.keys();
    std::sort(ks.begin(), ks.end());
    std::string bad;
    for (std::size_t i = 0; i + 1 < ks.size(); i++) if (ks[i] == ks[i + 1]) bad += " dupkey:" + ks[i];
    if (d.empty() != ks.empty()) bad += " empty()";
    if (d.getMap().size() != ks.size()) bad += " getMap()";
    Dictionary& m = const_cast<Dictionary&>(d);
    if (&m.getMap() != &d.getMap()) bad += " getMap-alias";
    for (auto& k : ks)
    {
        try
        {
            if (!d.contains(k)) bad += " contains:" + k;
            if (!d.getMap().contains(k)) bad += " map:" + k;
            const std::any& a = d[k];
            if (&a != &m[k]) bad += " alias:" + k;
            bool isd = std::any_cast<Dictionary>(&a) != nullptr;
            if (d.isDict(k) != isd) bad += " isDict:" + k;
            if (isd && (&d.subDict(k) != &m.subDict(k) || &d.get<Dictionary>(k) != &d.subDict(k))) bad += " sub:" + k;
            t.set(k, anyToJ(a));
        }
        catch (const std::exception& e) { bad += " throws:" + k; }
    }
    if (!bad.empty()) t.set("!inconsistent", J(bad));
    return t;
}
inline J dictToJ(const Dictionary& d)
{
    J v = J::obj();
    v.set("t", "dict").set("d", dictTree(d));
    return v;
}
