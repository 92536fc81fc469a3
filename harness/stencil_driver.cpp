#include "driver.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <map>
#include <set>
#include <utility>
using NeoFOAM::StencilDataBase;
struct Thing { std::string name; };
using Ptr = std::shared_ptr<Thing>;
// shared objects: one per name, identity matters
static std::map<std::string, Ptr>& things() { static std::map<std::string, Ptr> m; return m; }
static Ptr thing(const std::string& n)
{
    auto& p = things()[n];
    if (!p) p = std::make_shared<Thing>(Thing {n});
    return p;
}
template<class F> auto withT(const std::string& t, F&& f)
{
    if (t == "int") return f.template operator()<int>();
    if (t == "str") return f.template operator()<std::string>();
    if (t == "vec") return f.template operator()<std::vector<int>>();
    if (t == "ptr") return f.template operator()<Ptr>();
    std::abort();
}
template<class T> T lit(const std::string& v);
template<> int lit<int>(const std::string& v) { return std::stoi(v); }
template<> std::string lit<std::string>(const std::string& v) { return v; }
template<> std::vector<int> lit<std::vector<int>>(const std::string& v) { return std::vector<int>(v.begin(), v.end()); }
template<> Ptr lit<Ptr>(const std::string& v) { return thing(v); }
static J toJ(int v) { return tv("int", std::to_string(v)); }
static J toJ(const std::string& v) { return tv("str", v); }
static J toJ(const std::vector<int>& v) { return tv("vec", std::string(v.begin(), v.end())); }
static J toJ(const Ptr& v) { return tv("ptr", v && thing(v->name) == v ? v->name : "another object"); }
static J anyJ(const std::any& a)
{
    if (auto* p = std::any_cast<int>(&a)) return toJ(*p);
    if (auto* p = std::any_cast<std::string>(&a)) return toJ(*p);
    if (auto* p = std::any_cast<std::vector<int>>(&a)) return toJ(*p);
    if (auto* p = std::any_cast<Ptr>(&a)) return toJ(*p);
    return tv("other", a.type().name());
}
struct S : Session
{
    std::map<std::string, StencilDataBase> db;
    std::set<std::string> keys;
    const void* held = nullptr;
    std::string heldType;
    S(const std::vector<std::string>& hs) { for (auto& h : hs) db[h]; }
    J step(const J& op) override
    {
        const std::string n = op["n"].str(), k = op["k"].str(), h = op["h"].str();
        const J& a = op["a"];
        if (!h.empty() || n != "refRead") keys.insert(k);
        return guarded([&]() -> J {
            if (n == "refRead")
                return withT(heldType, [&]<class T>() -> J { return retVal(toJ(*static_cast<const T*>(held))); });
            StencilDataBase& d = db[h];
            if (n == "insert")
                return withT(a[0]["t"].str(), [&]<class T>() -> J { d.insert(k, lit<T>(a[0]["v"].str())); return retOk(); });
            if (n == "get")
                return withT(a[0].str(), [&]<class T>() -> J {
                    return retVal(toJ(a[1].boolean() ? std::as_const(d).get<T>(k) : d.get<T>(k)));
                });
            if (n == "index") return retVal(anyJ(a[0].boolean() ? std::as_const(d)[k] : d[k]));
            if (n == "contains") return retBool(d.contains(k));
            if (n == "set")
                return withT(a[0]["t"].str(), [&]<class T>() -> J { d.get<T>(k) = lit<T>(a[0]["v"].str()); return retOk(); });
            if (n == "assign")
                return withT(a[0]["t"].str(), [&]<class T>() -> J { d[k] = lit<T>(a[0]["v"].str()); return retOk(); });
            if (n == "hold")
            {
                for (auto t : {"int", "str", "vec", "ptr"})
                    withT(t, [&]<class T>() {
                        if (std::any_cast<T>(&d[k])) { held = &d.get<T>(k); heldType = t; }
                        return 0;
                    });
                return retOk();
            }
            if (n == "copy") { db[a[0].str()] = d; return retOk(); }
            std::abort();
        });
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& [h, d] : db)
        {
            J t = J::obj();
            for (auto& k : keys)
            {
                if (d.contains(k)) t.set(k, anyJ(std::as_const(d)[k]));
                else
                {
                    bool thrown = false;
                    try { (void)d[k]; } catch (const std::out_of_range&) { thrown = true; }
                    if (!thrown || d.contains(k)) t.set(k, J("!created by access"));
                }
            }
            o.set(h, t);
        }
        return o;
    }
};
int main(int argc, char** argv)
{
    std::vector<std::string> hs(argv + 1, argv + argc);
    return runDriver([&] { return std::make_unique<S>(hs); });
}
