#include "values.hpp"
#include <map>

struct S : Session
{
    std::map<std::string, Dictionary> root;
    std::map<std::string, Dictionary*> ref;
    bool diag = false; // also judge the diagnostics of failing look-ups

    explicit S(const std::vector<std::string>& hs)
    {
        for (auto& h : hs) root[h];
    }
    Dictionary& at(const J& op)
    {
        Dictionary* d = &root[op["h"].str()];
        for (auto& k : op["p"].a) d = &d->subDict(k.str());
        return *d;
    }
    Dictionary& walk(const std::string& h, const J& p)
    {
        Dictionary* d = &root[h];
        for (auto& k : p.a) d = &d->subDict(k.str());
        return *d;
    }
    static std::any mk(const J& v)
    {
        return withType(v["t"].str(), [&]<class T>() { return std::any(lit<T>(v["v"].str())); });
    }

    template<class D>
    J get(D& d, const std::string& k, const std::string& t)
    {
        return withType(t, [&]<class T>() -> J { return retVal(valToJ<T>(d.template get<T>(k))); });
    }

    // a failing look-up names what was asked for and what there is
    J step(const J& op) override
    {
        J r = call(op);
        const std::string e = r["e"].str(), n = op["n"].str(), k = op["k"].str();
        if (!diag || e.empty()) return r;
        const std::string text = capture->err.str();
        std::string miss;
        auto need = [&](const std::string& w, const char* what) {
            if (text.find(w) == std::string::npos) miss += std::string(" ") + what + " " + w;
        };
        Dictionary& d = at(op);
        if (e == "out_of_range" || n == "get" || n == "setTyped") need(k, "key");
        if (e == "out_of_range")
            for (auto& a : d.keys()) need(a, "available key");
        if (e == "bad_any_cast" && (n == "get" || n == "setTyped"))
        {
            need(withType(n == "get" ? op["a"][0].str() : op["a"][0]["t"].str(), [&]<class T>() { return tname<T>(); }), "requested type");
            need(withType(anyToJ(d[k])["t"].str(), [&]<class T>() { return tname<T>(); }), "actual type");
        }
        if (!miss.empty()) r.set("e", e + " without naming" + miss);
        return r;
    }
    J call(const J& op)
    {
        const std::string n = op["n"].str(), k = op["k"].str(), h = op["h"].str();
        const J& a = op["a"];
        return guarded([&]() -> J {
            if (n == "insert") { at(op).insert(k, mk(a[0])); return retOk(); }
            if (n == "insertDict") { at(op).insert(k, root[a[0].str()]); return retOk(); }
            if (n == "insertFrom") { at(op).insert(k, walk(a[0].str(), a[1])[a[2].str()]); return retOk(); }
            if (n == "assign") { at(op)[k] = mk(a[0]); return retOk(); }
            if (n == "setTyped")
            {
                Dictionary& d = at(op);
                return withType(a[0]["t"].str(), [&]<class T>() -> J { d.get<T>(k) = lit<T>(a[0]["v"].str()); return retOk(); });
            }
            if (n == "setSub") { at(op).subDict(k) = root[a[0].str()]; return retOk(); }
            if (n == "remove") { at(op).remove(k); return retOk(); }
            if (n == "get") return a[1].boolean() ? get(std::as_const(at(op)), k, a[0].str()) : get(at(op), k, a[0].str());
            if (n == "index")
            {
                return retVal(anyToJ(a[0].boolean() ? std::as_const(at(op))[k] : at(op)[k]));
            }
            if (n == "sub")
            {
                return retVal(dictToJ(a[0].boolean() ? std::as_const(at(op)).subDict(k) : at(op).subDict(k)));
            }
            if (n == "contains") return retBool(at(op).contains(k));
            if (n == "isDict") return retBool(at(op).isDict(k));
            if (n == "empty") return retBool(at(op).empty());
            if (n == "copy")
            {
                if (a[1].str() == "ctor") { Dictionary t(root[h]); root[a[0].str()] = t; }
                else root[a[0].str()] = root[h];
                return retOk();
            }
            if (n == "copySub") { root[a[0].str()] = at(op); return retOk(); }
            if (n == "move") { root[a[0].str()] = std::move(root[h]); root[h] = Dictionary(); return retOk(); }
            if (n == "clear") { root[h] = Dictionary(); return retOk(); }
            if (n == "ctorList")
            {
                using Pr = std::pair<std::string, std::any>;
                if (a.size() == 0) root[h] = Dictionary(std::initializer_list<Pr> {});
                if (a.size() == 1) root[h] = Dictionary({Pr {a[0][0].str(), mk(a[0][1])}});
                if (a.size() == 3)
                    root[h] = Dictionary({Pr {a[0][0].str(), mk(a[0][1])}, Pr {a[1][0].str(), mk(a[1][1])}, Pr {a[2][0].str(), mk(a[2][1])}});
                return retOk();
            }
            if (n == "ctorMap")
            {
                std::unordered_map<std::string, std::any> m;
                for (auto& e : a.a) m.emplace(e[0].str(), mk(e[1]));
                root[h] = Dictionary(m);
                return retOk();
            }
            if (n == "hold") { ref[a[0].str()] = &at(op); return retOk(); }
            if (n == "refInsert") { ref[a[0].str()]->insert(k, mk(a[1])); return retOk(); }
            if (n == "refRemove") { ref[a[0].str()]->remove(k); return retOk(); }
            if (n == "refRead") return retVal(dictToJ(*ref[a[0].str()]));
            std::abort();
        });
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& [h, d] : root) o.set(h, dictTree(d));
        return o;
    }
};
int main(int argc, char** argv)
{
    std::vector<std::string> hs(argv + 1, argv + argc);
    bool diag = !hs.empty() && hs[0] == "--diag";
    if (diag) hs.erase(hs.begin());
    return runDriver([&] { auto s = std::make_unique<S>(hs); s->diag = diag; return s; });
}
