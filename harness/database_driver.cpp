// Replays behaviours of Database.tla: Database, Collection, CollectionMixin.
#include "values.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <map>
#include <optional>
using namespace NeoFOAM;

static bool validator(const Dictionary& d) { return d.contains("name") && d.contains("v"); }
static Dictionary content(const std::string& id, const std::string& v)
{
    Dictionary d;
    d.insert("id", id);
    d.insert("name", std::string("doc"));
    d.insert("v", v);
    return d;
}
template<int K>
struct Doc
{
    Document d;
    Doc(const Document& x) : d(x) {}
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return K == 0 ? "A" : "B"; }
};
// two collections built on the library's mixin ...
template<int K>
struct MixCol : CollectionMixin<Doc<K>>
{
    using CollectionMixin<Doc<K>>::CollectionMixin;
    bool insert(const Document& d)
    {
        if (this->docs_.contains(d.id())) return false;
        this->docs_.emplace(d.id(), Doc<K>(d));
        return true;
    }
};
// ... and one that shares nothing with it
struct OwnCol
{
    std::map<std::string, std::unique_ptr<Document>> m;
    Database* d;
    std::string n;
    OwnCol(Database& db, std::string name) : d(&db), n(name) {}
    OwnCol(OwnCol&&) = default;
    Document& doc(const std::string& i) { return *m.at(i); }
    const Document& doc(const std::string& i) const { return *m.at(i); }
    std::vector<std::string> find(const std::function<bool(const Document&)>& p) const
    {
        std::vector<std::string> r;
        for (auto& [k, x] : m) if (p(*x)) r.push_back(k);
        return r;
    }
    std::size_t size() const { return m.size(); }
    std::string type() const { return "C"; }
    std::string name() const { return n; }
    Database& db() { return *d; }
    const Database& db() const { return *d; }
    bool insert(const Document& x)
    {
        if (m.contains(x.id())) return false;
        m.emplace(x.id(), std::make_unique<Document>(x));
        return true;
    }
    std::vector<std::string> sortedKeys() const
    {
        std::vector<std::string> r;
        for (auto& [k, x] : m) r.push_back(k);
        return r;
    }
};
template<class F> auto withCol(const std::string& t, F&& f)
{
    if (t == "A") return f.template operator()<MixCol<0>>();
    if (t == "B") return f.template operator()<MixCol<1>>();
    if (t == "C") return f.template operator()<OwnCol>();
    std::abort();
}
static std::function<bool(const Document&)> pred(const std::string& p, const std::vector<std::string>& order)
{
    if (p == "all") return [](const Document&) { return true; };
    if (p == "none") return [](const Document&) { return false; };
    if (p == "v1") return [](const Document& d) { return d.get<std::string>("v") == "1"; };
    if (p == "not1") return [](const Document& d) { return d.get<std::string>("v") != "1"; };
    if (p == "firstId") return [=](const Document& d) { return d.id() == order.front(); };
    if (p == "lastId") return [=](const Document& d) { return d.id() == order.back(); };
    std::abort();
}
static J strs(const std::vector<std::string>& v)
{
    J a = J::arr();
    for (auto& s : v) a.add(J(s));
    J r = J::obj();
    r.set("t", "ids").set("v", a);
    return r;
}
struct S : Session
{
    std::map<std::string, std::unique_ptr<Database>> db;
    std::map<std::string, std::optional<Collection>> loose;
    std::map<std::string, std::vector<std::string>> names; // every name ever used per database
    std::vector<std::string> order;
    Document* ref = nullptr;
    Collection* cref = nullptr;
    S(const std::vector<std::string>& ds, const std::vector<std::string>& ls, const std::vector<std::string>& o) : order(o)
    {
        for (auto& d : ds) db[d] = std::make_unique<Database>();
        for (auto& l : ls) loose[l];
    }
    static J summary(const Collection& c)
    {
        J r = J::obj();
        r.set("t", "col").set("ty", c.type()).set("n", c.name()).set("size", std::to_string(c.size()));
        return r;
    }
    static J docJ(const Document& d)
    {
        J r = J::obj();
        r.set("t", "doc").set("id", d.id()).set("v", d.get<std::string>("v"));
        return r;
    }
    J step(const J& op) override
    {
        const std::string n = op["n"].str(), k = op["k"].str(), h = op["h"].str();
        const J& a = op["a"];
        auto mkDoc = [&](int i) { return Document(content(a[i].str(), a[i + 1].str()), validator); };
        return guarded([&]() -> J {
            if (n == "makeLoose")
                return withCol(a[0].str(), [&]<class C>() -> J { loose[h].emplace(C(*db[a[2].str()], a[1].str())); return retOk(); });
            if (n == "moveLoose")
            {
                auto& m = loose[a[0].str()];
                if (a[1].str() == "ctor" || !m) m.emplace(std::move(*loose[h]));
                else *m = std::move(*loose[h]);
                loose[h].reset();
                return retOk();
            }
            if (n == "looseDoc")
                return withCol(loose[h]->type(), [&]<class C>() -> J { return retBool(loose[h]->as<C>().insert(mkDoc(0))); });
            if (n == "looseAs")
                return withCol(a[0].str(), [&]<class C>() -> J {
                    Collection& l = *loose[h];
                    if (a[1].boolean()) (void)std::as_const(l).as<C>();
                    else (void)l.as<C>();
                    return retVal(summary(l));
                });
            if (n == "refRead") return retVal(docJ(*ref));
            if (n == "refWrite") { ref->insert("v", a[0].str()); return retOk(); }
            if (n == "crefRead") return retVal(summary(*cref));
            Database& d = *db[h];
            const Database& cd = d;
            if (!k.empty() || n == "insertCol") names[h].push_back(k);
            if (n == "insertCol")
                return withCol(a[0].str(), [&]<class C>() -> J {
                    Collection& c = d.insert(k, C(d, a[1].str()));
                    if (&c != &d.at(k)) return retVal(J("returned another object"));
                    return retVal(summary(c));
                });
            if (n == "insertLoose")
            {
                Collection& c = d.insert(k, std::move(*loose[a[0].str()]));
                loose[a[0].str()].reset();
                if (&c != &d.at(k)) return retVal(J("returned another object"));
                return retVal(summary(c));
            }
            if (n == "takeOut")
            {
                loose[a[0].str()].emplace(std::move(d.at(k)));
                d.remove(k);
                return retOk();
            }
            if (n == "contains") return retBool(d.contains(k));
            if (n == "sizeDb") return retVal(tv("size_t", std::to_string(d.size())));
            if (n == "removeCol") return retBool(d.remove(k));
            if (n == "at") return retVal(summary(a[0].boolean() ? cd.at(k) : d.at(k)));
            if (n == "atTyped")
                return withCol(a[0].str(), [&]<class C>() -> J {
                    C& c = d.at<C>(k);
                    if (&c != &d.at(k).as<C>()) return retVal(J("another object"));
                    return retVal(summary(d.at(k)));
                });
            Collection& c = d.at(k);
            if (n == "insertDoc")
                return withCol(c.type(), [&]<class C>() -> J { return retBool(c.as<C>().insert(mkDoc(0))); });
            if (n == "readDoc") return retVal(docJ(a[1].boolean() ? cd.at(k).doc(a[0].str()) : c.doc(a[0].str())));
            if (n == "writeDoc") { c.doc(a[0].str()).insert("v", a[1].str()); return retOk(); }
            if (n == "find")
            {
                auto p = pred(a[0].str(), order);
                auto r = a[1].str() == "erased" ? cd.at(k).find(p)
                                               : withCol(c.type(), [&]<class C>() { return c.as<C>().find(p); });
                std::sort(r.begin(), r.end());
                return retVal(strs(r));
            }
            if (n == "sortedKeys")
                return withCol(c.type(), [&]<class C>() -> J { return retVal(strs(c.as<C>().sortedKeys())); });
            if (n == "holdDoc") { ref = &c.doc(a[0].str()); return retOk(); }
            if (n == "holdCol") { cref = &c; return retOk(); }
            std::abort();
        });
    }
    // a collection seen through the type-erased interface and through its own type
    J colJ(Collection& c)
    {
        const Collection& cc = c;
        J o = J::obj(), m = J::obj();
        std::string bad, dname = "?";
        for (auto& [n, d] : db) if (d.get() == &c.db() && d.get() == &cc.db()) dname = n;
        auto ids = cc.find([](const Document&) { return true; });
        std::sort(ids.begin(), ids.end());
        if (std::unique(ids.begin(), ids.end()) != ids.end()) bad += " duplicate ids";
        if (ids.size() != cc.size()) bad += " size()";
        for (auto& i : ids)
        {
            try
            {
                if (&c.doc(i) != &cc.doc(i)) bad += " doc-alias";
                const Document& d = cc.doc(i);
                if (d.id() != i) bad += " id!=key";
                m.set(i, J(d.get<std::string>("v")));
                for (auto& j : ids) if (j != i && &cc.doc(j) == &d) bad += " shared doc";
            }
            catch (const std::exception&) { bad += " doc throws"; }
        }
        try
        {
            withCol(cc.type(), [&]<class C>() {
                C& t = c.as<C>();
                const C& ct = cc.as<C>();
                if (&t != &ct || t.size() != c.size() || t.name() != c.name() || t.type() != c.type() || &t.db() != &c.db()) bad += " typed view";
                for (auto& i : ids) if (&t.doc(i) != &c.doc(i) || &ct.doc(i) != &cc.doc(i)) bad += " typed doc";
                return 0;
            });
        }
        catch (const std::exception&) { bad += " as<> throws"; }
        o.set("t", cc.type()).set("n", cc.name()).set("d", dname).set("docs", m);
        if (!bad.empty()) o.set("!", bad);
        return o;
    }
    J obs() override
    {
        J o = J::obj(), x = J::obj(), y = J::obj();
        for (auto& [h, d] : db)
        {
            J t = J::obj();
            std::size_t cnt = 0;
            auto ks = names[h];
            std::sort(ks.begin(), ks.end());
            ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
            for (auto& k : ks)
                if (d->contains(k)) { t.set(k, colJ(d->at(k))); cnt++; }
            if (cnt != d->size()) t.set("!size", J(std::to_string(d->size())));
            x.set(h, t);
        }
        for (auto& [l, c] : loose)
        {
            J none = J::obj();
            none.set("t", "").set("n", "").set("d", "").set("docs", J::arr());
            y.set(l, c ? colJ(*c) : none);
        }
        o.set("db", x).set("loose", y);
        return o;
    }
};
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    std::stringstream ss(s);
    std::string p;
    while (std::getline(ss, p, ',')) r.push_back(p);
    return r;
}
int main(int, char** argv)
{
    auto ds = split(argv[1]), ls = split(argv[2]), o = split(argv[3]);
    return runDriver([&] { return std::make_unique<S>(ds, ls, o); });
}
