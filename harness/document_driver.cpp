#include "values.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <map>
#include <optional>

using NeoFOAM::Document;

static std::any mk(const J& v)
{
    return withType(v["t"].str(), [&]<class T>() { return std::any(lit<T>(v["v"].str())); });
}
static Dictionary mkDict(const J& o)
{
    Dictionary d;
    for (auto& [k, v] : o.o) d.insert(k, mk(v));
    return d;
}
static NeoFOAM::DocumentValidator validator(const std::string& v)
{
    if (v == "hasId") return NeoFOAM::hasId;
    if (v == "named") return [](const Dictionary& d) { return d.contains("name"); };
    if (v == "nameAndV") return [](const Dictionary& d) { return d.contains("name") && d.contains("v"); };
    if (v == "vIs1")
        return [](const Dictionary& d)
        {
            if (!d.contains("v")) return false;
            auto* p = std::any_cast<int>(&d["v"]);
            return p && *p == 1;
        };
    if (v == "noX") return [](const Dictionary& d) { return !d.contains("x"); };
    if (v == "always") return [](const Dictionary&) { return true; };
    if (v == "never") return [](const Dictionary&) { return false; };
    std::abort();
}

struct S : Session
{
    std::map<std::string, std::optional<Document>> doc;
    std::map<std::string, std::string> ids; // generated id -> canonical name
    std::vector<std::string> supplied;
    explicit S(const std::vector<std::string>& hs)
    {
        for (auto& h : hs) doc[h];
    }
    // names a generated id by order of first appearance
    std::string canon(const std::string& id)
    {
        if (id == "u1" || id == "u2" || id == "") return id;
        return ids.contains(id) ? ids[id] : "!unknown " + id;
    }
    bool fresh(const Document& d)
    {
        std::string id = d.id();
        if (ids.contains(id)) return false;
        ids[id] = "#" + std::to_string(ids.size() + 1);
        return true;
    }
    J idVal(const std::string& id) { return tv("str", canon(id)); }

    J step(const J& op) override
    {
        const std::string n = op["n"].str(), k = op["k"].str(), h = op["h"].str();
        const J& a = op["a"];
        return guarded([&]() -> J {
            auto& d = doc[h];
            if (n == "new")
            {
                Document t;
                bool f = fresh(t);
                d.emplace(t);
                return f ? retOk() : ret("duplicate id", okv());
            }
            if (n == "make" || n == "makeDefault")
            {
                Dictionary dict = mkDict(a[0]);
                bool gen = !dict.contains("id");
                std::optional<Document> t;
                if (n == "make") t.emplace(dict, validator(a[1].str()));
                else t.emplace(dict);
                bool f = !gen || fresh(*t);
                d = t;
                return f ? retOk() : ret("duplicate id", okv());
            }
            if (n == "insert") { d->insert(k, mk(a[0])); return retOk(); }
            if (n == "remove") { d->remove(k); return retOk(); }
            if (n == "validate") return retBool(d->validate());
            if (n == "id") return retVal(idVal(d->id()));
            if (n == "name") return retVal(tv("str", NeoFOAM::name(std::as_const(*d)) == NeoFOAM::name(*d) ? NeoFOAM::name(*d) : "!"));
            if (n == "setName") { NeoFOAM::name(*d) = a[0].str(); return retOk(); }
            if (n == "copy")
            {
                if (a[1].str() == "ctor") { Document t(*d); doc[a[0].str()].emplace(t); }
                else { if (!doc[a[0].str()]) doc[a[0].str()].emplace(); *doc[a[0].str()] = *d; }
                return retOk();
            }
            if (n == "move") { doc[a[0].str()].emplace(std::move(*d)); d.reset(); return retOk(); }
            if (n == "rebuild")
            {
                Document t(static_cast<const Dictionary&>(*d), validator(a[1].str()));
                doc[a[0].str()].emplace(t);
                return retOk();
            }
            std::abort();
        });
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& [h, d] : doc)
        {
            J t = d ? dictTree(*d) : J::arr();
            for (auto& [k, v] : t.o)
                if (k == "id" && v["t"].str() == "str") v.set("v", canon(v["v"].str()));
            o.set(h, t);
        }
        return o;
    }
};
int main(int argc, char** argv)
{
    std::vector<std::string> hs(argv + 1, argv + argc);
    return runDriver([&] { return std::make_unique<S>(hs); });
}
