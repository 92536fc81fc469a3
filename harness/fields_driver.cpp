// Replays behaviours of Fields.tla for one element type (ELEM).
#include "kdriver.hpp"
#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#ifdef HAS_SUM
#include "NeoFOAM/fields/operations/sum.hpp"
#endif
#include <map>
#include <csignal>
using T = ELEM;
using F = nf::Field<T>;
struct S : Session
{
    std::vector<std::string> names;
    std::map<std::string, std::unique_ptr<F>> f;
    explicit S(std::vector<std::string> n) : names(std::move(n)) {}
    F& at(const std::string& h) { return *f.at(h); }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        const std::string o = op["n"].str(), h = op["h"].str();
        const J& a = op["a"];
        auto N = [&](int i) { return static_cast<std::size_t>(a[i].num()); };
        auto Vl = [&](int i) { return val<T>(a[i].num()); };
        if (o == "new") { f[h] = std::make_unique<F>(execOf(a[0].str()), vecOf<T>(a[1])); return retOk(); }
        if (o == "uniform") { f[h] = std::make_unique<F>(execOf(a[0].str()), N(1), Vl(2)); return retOk(); }
        if (o == "drop") { f.erase(h); return retOk(); }
        if (o == "construct")
        {
            std::string how = a[2].str();
            F& src = at(a[0].str());
            std::unique_ptr<F> n;
            if (how == "on") n = std::make_unique<F>(execOf(a[1].str()), src);
            else if (how == "copy") n = std::make_unique<F>(static_cast<const F&>(src));
            else if (how == "move") n = std::make_unique<F>(std::move(src));
            else n = std::make_unique<F>(src.copyToExecutor(execOf(a[1].str())));
            f[h] = std::move(n);
            return retOk();
        }
        if (o == "assign")
        {
            F &g = at(h), &s = at(a[0].str());
            if (!(g.exec() == s.exec())) return ret(dying([&] { g = s; }), okv());
            g = s;
            return retOk();
        }
        if (o == "fill") { if (N(0) % 2) at(h) = Vl(0); else nf::fill(at(h), Vl(0)); return retOk(); }
        if (o == "range")
        {
            std::string how = a[3].str();
            F& g = at(h);
            std::pair<std::size_t, std::size_t> r {N(0), N(1)};
            T c = Vl(2);
            long long ci = a[2].num();
            if (how == "fill") nf::fill(g, c, r);
            else if (how == "map") nf::map(g, [ci](const std::size_t i) { return val<T>(static_cast<long long>(i) * ci); }, r);
            else
            {
                std::vector<T> src;
                for (std::size_t i = 0; i < g.size(); i++) src.push_back(val<T>(static_cast<long long>(i) + ci));
                F b(g.exec(), src);
                nf::setField(g, static_cast<const F&>(b).view(), r);
            }
            return retOk();
        }
        if (o == "apply")
        {
            long long ci = a[0].num();
            at(h).apply([ci](const std::size_t i) { return val<T>(static_cast<long long>(i) - ci); });
            return retOk();
        }
        if (o == "combine")
        {
            F &g = at(h), &s = at(a[0].str());
            std::string w = a[1].str();
            if (w == "add") g += s;
            else if (w == "sub") g -= s;
            else
            {
#ifdef HAS_MUL
                if (op["s"].num() % 2) nf::mul(g, s);
                else g *= s;
#else
                std::abort();
#endif
            }
            return retOk();
        }
        if (o == "mismatch")
        {
            F &g = at(h), &s = at(a[0].str());
            std::string w = a[1].str();
            auto go = [&] {
                if (w == "add") g += s;
                else if (w == "sub") g -= s;
                else if (w == "plus") (void)(g + s);
                else if (w == "minus") (void)(g - s);
#ifdef HAS_MUL
                else if (w == "mul") g *= s;
                else (void)(g * s);
#endif
            };
#ifdef NF_DEBUG
            return ret(dying(go), okv());
#else
            return guarded([&] { go(); return retOk(); });
#endif
        }
#ifdef HAS_SUM
        if (o == "sum")
        {
            F& g = at(h);
            T sum = val<T>(77); // replaced by the sum
            nf::SumKernel kernel {};
            std::visit([&](const auto& e) { kernel(e, g, sum); }, g.exec());
            return retVal(tv("int", std::to_string(static_cast<long long>(sum))));
        }
#endif
        if (o == "viewRead")
        {
            std::string l;
            auto show = [&](auto v) {
                for (std::size_t i = 0; i < v.size(); i++)
                {
                    J x = num(v[i]);
                    l += (l.empty() ? "" : ", ") + x.dump();
                }
            };
            if (a[2].str() == "view") show(at(h).view({N(0), N(1)}));
            else show(static_cast<const F&>(at(h)).view({N(0), N(1)}));
            return retVal(tv("list", "<<" + l + ">>"));
        }
        if (o == "result")
        {
            F &g = at(a[0].str()), &s = at(a[1].str());
            std::string w = a[2].str();
            std::unique_ptr<F> n;
            if (w == "add") n = std::make_unique<F>(g + s);
            else if (w == "sub") n = std::make_unique<F>(g - s);
#ifdef HAS_MUL
            else n = std::make_unique<F>(g * s);
#endif
            f[h] = std::move(n);
            return retOk();
        }
        if (o == "scale")
        {
#ifndef NO_STAR
            std::string src = a[0].str();
            nf::scalar c = static_cast<nf::scalar>(a[1].num());
            if (src == h) { if (op["s"].num() % 2) nf::scalarMul(at(h), c); else at(h) *= c; }
            else
            {
                auto n = std::make_unique<F>(at(src) * c);
                f[h] = std::move(n);
            }
            return retOk();
#endif
        }
        if (o == "resize")
        {
            F& g = at(h);
            std::size_t old = g.size(), n = N(0);
            g.resize(n);
            if (g.size() != n || static_cast<std::size_t>(g.ssize()) != n || g.empty() != (n == 0)) return ret("wrong size", okv());
            if (n > old) nf::fill(g, Vl(1), {old, n});
            return retOk();
        }
        if (o == "equal") return retBool(nf::equal(static_cast<const F&>(at(h)), static_cast<const F&>(at(a[0].str()))));
        if (o == "equalValue") return retBool(nf::equal(at(h), Vl(0)));
        if (o == "viewWrite")
        {
            auto v = at(h).view({N(0), N(1)});
            if (v.size() != N(1) - N(0)) return ret("wrong extent", okv());
            for (std::size_t i = 0; i < v.size(); i++) v[i] = Vl(2);
            return retOk();
        }
        std::abort();
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& n : names)
        {
            J e = J::obj();
            auto it = f.find(n);
            if (it == f.end()) e.set("x", "").set("v", J::arr());
            else
            {
                const F& g = *it->second;
                e.set("x", nameOf(g.exec())).set("v", listOf(g));
                if (g.range() != std::pair<std::size_t, std::size_t>(0, g.size())) e.set("x", "wrong range");
            }
            o.set(n, e);
        }
        return o;
    }
};
int main(int argc, char** argv)
{
    shim::control.splitMemory = true;
    std::vector<std::string> n(argv + 1, argv + argc);
    return runDriver([&] { return std::make_unique<S>(n); });
}
