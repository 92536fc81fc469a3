#include "values.hpp"
#include <map>
static std::any mk(const J& v)
{
    return withType(v["t"].str(), [&]<class T>() { return std::any(lit<T>(v["v"].str())); });
}
struct S : Session
{
    std::map<std::string, TokenList> tl;
    explicit S(const std::vector<std::string>& hs)
    {
        for (auto& h : hs) tl[h];
    }
    bool diag = false;
    J step(const J& op) override
    {
        std::size_t size = tl[op["h"].str()].size();
        J r = call(op);
        const std::string e = r["e"].str(), n = op["n"].str();
        if (!diag || e.empty()) return r;
        const std::string text = capture->err.str();
        std::string miss;
        auto need = [&](const std::string& w, const char* what) {
            if (text.find(w) == std::string::npos) miss += std::string(" ") + what + " " + w;
        };
        const J& a = op["a"];
        if (n == "get" || n == "set") need(a[0].dump(), "index");
        if (n == "popFront") need("0", "index");
        if (e == "out_of_range") need(std::to_string(size), "size");
        if (e == "bad_any_cast")
        {
            std::string t = n == "get" ? a[1].str() : n == "set" ? a[1]["t"].str() : a[0].str();
            need(withType(t, [&]<class T>() { return tname<T>(); }), "requested type");
            if (n == "get" || n == "set" || n == "popFront")
            {
                auto& tok = tl[op["h"].str()].tokens()[n == "popFront" ? 0 : static_cast<std::size_t>(a[0].num())];
                need(withType(anyToJ(tok)["t"].str(), [&]<class T>() { return tname<T>(); }), "actual type");
            }
        }
        if (!miss.empty()) r.set("e", e + " without naming" + miss);
        return r;
    }
    J call(const J& op)
    {
        const std::string n = op["n"].str(), h = op["h"].str();
        const J& a = op["a"];
        TokenList& l = tl[h];
        return guarded([&]() -> J {
            if (n == "insert") { l.insert(mk(a[0])); return retOk(); }
            if (n == "remove") { l.remove(static_cast<std::size_t>(a[0].num())); return retOk(); }
            if (n == "popFront")
                return withType(a[0].str(), [&]<class T>() -> J { return retVal(valToJ<T>(l.popFront<T>())); });
            if (n == "get")
                return withType(a[1].str(), [&]<class T>() -> J {
                    auto i = static_cast<std::size_t>(a[0].num());
                    return retVal(valToJ<T>(a[2].boolean() ? std::as_const(l).get<T>(i) : l.get<T>(i)));
                });
            if (n == "set")
                return withType(a[1]["t"].str(), [&]<class T>() -> J {
                    l.get<T>(static_cast<std::size_t>(a[0].num())) = lit<T>(a[1]["v"].str());
                    return retOk();
                });
            if (n == "next")
                return withType(a[0].str(), [&]<class T>() -> J {
                    return retVal(valToJ<T>(a[1].boolean() ? std::as_const(l).next<T>() : l.next<T>()));
                });
            if (n == "index") return retVal(anyToJ(l[static_cast<std::size_t>(a[0].num())]));
            if (n == "assign")
            {
                auto i = static_cast<std::size_t>(a[0].num());
                if (i % 2) l[i] = mk(a[1]);
                else l.tokens()[i] = mk(a[1]);
                return retOk();
            }
            if (n == "size") return retVal(tv("size_t", std::to_string(l.size())));
            if (n == "empty") return retBool(l.empty());
            if (n == "copy")
            {
                TokenList& g = tl[a[0].str()];
                if (a[1].str() == "ctor") { TokenList t(l); g = t; }
                else if (a[1].str() == "any") { std::any x(l); g = std::any_cast<TokenList&>(x); }
                else g = l;
                return retOk();
            }
            if (n == "ctor")
            {
                if (a.size() == 0) l = TokenList();
                if (a.size() == 2) l = TokenList({mk(a[0]), mk(a[1])});
                if (a.size() == 3) l = TokenList({mk(a[0]), mk(a[1]), mk(a[2])});
                return retOk();
            }
            if (n == "ctorVec") { TokenList t(l.tokens(), static_cast<std::size_t>(a[1].num())); tl[a[0].str()] = t; return retOk(); }
            std::abort();
        });
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& [h, l] : tl)
        {
            J s = J::arr();
            for (auto& t : l.tokens()) s.add(anyToJ(t));
            if (l.size() != s.size() || l.empty() != (s.size() == 0)) s.add(J("size() disagrees"));
            o.set(h, s);
        }
        return o;
    }
};
int main(int argc, char** argv)
{
    std::vector<std::string> hs(argv + 1, argv + argc);
    bool diag = !hs.empty() && hs[0] == "--diag";
    if (diag) hs.erase(hs.begin());
    return runDriver([&] { auto s = std::make_unique<S>(hs); s->diag = diag; return s; });
}
