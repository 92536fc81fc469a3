// Replays behaviours of Dsl.tla.
#include "fv.hpp"
#include "NeoFOAM/dsl/coeff.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/spatialOperator.hpp"
#include "NeoFOAM/dsl/temporalOperator.hpp"
#include <optional>
namespace dsl = nf::dsl;
#ifndef ELEM
#define ELEM nf::scalar
#endif
using T = ELEM;
using LS = nf::la::LinearSystem<T, nf::localIdx>;
using Type = dsl::Operator::Type;
// what the dummy operators act on
struct Data
{
    const nf::Executor& exec() const { return f.exec(); }
    nf::Field<T> f;
};
template<class Derived>
struct Dummy : dsl::OperatorMixin<Data>
{
    using FieldValueType = T;
    Dummy(Data& d, Type t) : dsl::OperatorMixin<Data>(d.exec(), dsl::Coeff(1.0), d, t) {}
    double scale = 1;
    void build(const nf::Input& in)
    {
        double b = double(std::get<nf::Dictionary>(in).get<int>("scale"));
        scale = 1 + b;
    }
    void ex(nf::Field<T>& source, double more) const
    {
        auto s = source.view();
        auto x = this->getField().f.view();
        const auto c = this->getCoefficient();
        double k = scale;
        T m = more * val<T>(1);
        nf::parallelFor(source.exec(), {0, s.size()}, [=](const std::size_t i) { s[i] += c[i] * (k * x[i] + m); });
    }
    void im(LS& ls, double more) const
    {
        auto a = ls.matrix().values().view(), b = ls.rhs().view();
        auto x = this->getField().f.view();
        const auto c = this->getCoefficient();
        double k = scale;
        T m = more * val<T>(1);
        nf::parallelFor(ls.exec(), {0, a.size()}, [=](const std::size_t i) { a[i] += c[i] * (k * x[i] + m); });
        nf::parallelFor(ls.exec(), {0, b.size()}, [=](const std::size_t i) { b[i] += 2.0 * (c[i] * (k * x[i] + m)); });
    }
};
struct SpatialDummy : Dummy<SpatialDummy>
{
    using Dummy::Dummy;
    void explicitOperation(nf::Field<T>& s) { ex(s, 0); }
    void implicitOperation(LS& ls) { im(ls, 0); }
    std::string getName() const { return "spatial"; }
};
struct TemporalDummy : Dummy<TemporalDummy>
{
    using Dummy::Dummy;
    void explicitOperation(nf::Field<T>& s, nf::scalar t, nf::scalar dt) { ex(s, t + 10 * dt); }
    void implicitOperation(LS& ls, nf::scalar t, nf::scalar dt) { im(ls, t + 10 * dt); }
    std::string getName() const { return "temporal"; }
};
using Sp = dsl::SpatialOperator<T>;
using Te = dsl::TemporalOperator<T>;
using Ex = dsl::Expression<T>;
struct Slot
{
    std::unique_ptr<dsl::Coeff> k;
    std::unique_ptr<Sp> s;
    std::unique_ptr<Te> t;
    std::unique_ptr<Ex> e;
};
struct S : Session
{
    std::vector<std::string> handles;
    nf::Executor exec {nf::SerialExecutor {}};
    std::size_t n = 0;
    std::map<std::string, std::unique_ptr<Data>> x;
    std::map<std::string, std::unique_ptr<nf::Field<nf::scalar>>> c;
    std::map<std::string, Slot> env;
    J out = J::arr();
    explicit S(const std::vector<std::string>& h) : handles(h) {}

    template<class E> nf::Field<E> field(const J& l) { return nf::Field<E>(exec, vecOf<E>(l)); }
    template<class A> void put(const std::string& h, A a)
    {
        Slot z;
        if constexpr (std::is_same_v<A, dsl::Coeff>) z.k = std::make_unique<A>(std::move(a));
        else if constexpr (std::is_same_v<A, Sp>) z.s = std::make_unique<A>(std::move(a));
        else if constexpr (std::is_same_v<A, Te>) z.t = std::make_unique<A>(std::move(a));
        else z.e = std::make_unique<Ex>(std::move(a));
        env[h] = std::move(z);
    }
    // calls f with whatever the slot holds
    template<class F> void with(const std::string& h, F f)
    {
        Slot& z = env[h];
        if (z.k) f(*z.k);
        else if (z.s) f(*z.s);
        else if (z.t) f(*z.t);
        else if (z.e) f(*z.e);
    }
    LS system(double z)
    {
        std::vector<nf::localIdx> col(n), row(n + 1);
        for (std::size_t i = 0; i < n; i++) col[i] = nf::localIdx(i);
        for (std::size_t i = 0; i <= n; i++) row[i] = nf::localIdx(i);
        nf::Field<T> v(exec, n, val<T>((long long)z)), b(exec, n, val<T>((long long)z));
        nf::la::CSRMatrix<T, nf::localIdx> A(v, nf::Field<nf::localIdx>(exec, col), nf::Field<nf::localIdx>(exec, row));
        return LS(A, b);
    }
    // a product that may stop the program: first tried in a process of its own
    template<class F> J guarded(F f)
    {
        std::string e = dying(f);
        if (e.empty()) f();
        return ret(e, okv());
    }
    template<class A, class B> void combine(const std::string& h, const std::string& k, A& l, B& r)
    {
        if constexpr ((std::is_same_v<A, Ex> && (std::is_same_v<B, Ex> || std::is_same_v<B, Sp>)) || ((std::is_same_v<A, Sp> || std::is_same_v<A, Te>) && (std::is_same_v<B, Sp> || std::is_same_v<B, Te>)))
        {
            if (k == "add") put<Ex>(h, l + r);
            else put<Ex>(h, l - r);
        }
    }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        out = J::arr();
        const std::string o = op["n"].str(), h = op["h"].str(), k = op["k"].str();
        const J& a = op["a"];
        if (o == "start")
        {
            exec = execOf(a[0].str());
            n = a[1]["x1"].size();
            for (auto& q : {"x1", "x2"}) x[q].reset(new Data {field<T>(a[1][q])});
            for (auto& q : {"c1", "c2"}) c[q] = std::make_unique<nf::Field<nf::scalar>>(field<nf::scalar>(a[1][q]));
        }
        else if (o == "set")
        {
            if (k[0] == 'x') x[k]->f = field<T>(a[0]);
            else *c[k] = field<nf::scalar>(a[0]);
        }
        else if (o == "coeff")
        {
            long long v = a[0].num();
            std::string f = a[1].str();
            if (f.empty()) put(h, v == 1 ? dsl::Coeff() : dsl::Coeff(nf::scalar(v)));
            else if (v == 1) put(h, dsl::Coeff(*c[f]));
            else put(h, dsl::Coeff(nf::scalar(v), *c[f]));
        }
        else if (o == "atom")
        {
            Type t = a[0].str() == "Explicit" ? Type::Explicit : Type::Implicit;
            Data& d = *x[a[1].str()];
            if (k == "spatial") put(h, Sp(SpatialDummy(d, t)));
            else put(h, Te(TemporalDummy(d, t)));
        }
        else if (o == "empty") put(h, Ex(exec));
        else if (o == "copy")
            with(a[0].str(), [&](auto& v) { const auto& w = v; put(h, std::decay_t<decltype(v)>(w)); });
        else if (o == "assign")
        {
            if (env[h].k) *env[h].k = *env[a[0].str()].k;
            else *env[h].s = *env[a[0].str()].s;
        }
        else if (o == "move")
        {
            std::string g = a[0].str();
            with(g, [&](auto& v) { put(h, std::decay_t<decltype(v)>(std::move(v))); });
            env[g] = Slot {};
        }
        else if (o == "mul")
        {
            std::string g = a[1].str();
            if (k == "num")
            {
                nf::scalar v = nf::scalar(a[0].num());
                with(g, [&](auto& r) { if constexpr (!std::is_same_v<std::decay_t<decltype(r)>, dsl::Coeff>) put(h, v * r); });
                return retOk();
            }
            return guarded([&] {
                with(g, [&](auto& r) {
                    using R = std::decay_t<decltype(r)>;
                    if constexpr (std::is_same_v<R, Sp> || std::is_same_v<R, Te>)
                    {
                        if (k == "field") put(h, *c[a[0].str()] * r);
                        else put(h, *env[a[0].str()].k * r);
                    }
                    if constexpr (std::is_same_v<R, dsl::Coeff>) put(h, *env[a[0].str()].k * r);
                });
            });
        }
        else if (o == "factor")
        {
            auto f = [&](dsl::Coeff& q) {
                if (k == "num") q *= nf::scalar(a[0].num());
                else q *= dsl::Coeff(*env[a[0].str()].k);
            };
            return guarded([&] {
                with(h, [&](auto& r) {
                    using R = std::decay_t<decltype(r)>;
                    if constexpr (std::is_same_v<R, Sp> || std::is_same_v<R, Te>) f(r.getCoefficient());
                    if constexpr (std::is_same_v<R, dsl::Coeff>) f(r);
                });
            });
        }
        else if (o == "factorTerm")
        {
            std::size_t i = std::size_t(a[0].num());
            if (k == "T") env[h].e->temporalOperators()[i].getCoefficient() *= nf::scalar(a[1].num());
            else env[h].e->spatialOperators()[i].getCoefficient() *= nf::scalar(a[1].num());
        }
        else if (o == "add" || o == "sub")
        {
            // the result may replace an operand: take the operands from copies then
            Slot &l = env[a[0].str()], &r = env[a[1].str()];
            auto right = [&](auto& u) {
                if (r.s) combine(h, o, u, *r.s);
                else if (r.t) combine(h, o, u, *r.t);
                else if (r.e) combine(h, o, u, *r.e);
            };
            if (l.s) right(*l.s);
            else if (l.t) right(*l.t);
            else if (l.e) right(*l.e);
        }
        else if (o == "append")
        {
            Slot& r = env[a[0].str()];
            if (r.e) env[h].e->addExpression(*r.e);
            else if (r.s) env[h].e->addOperator(*r.s);
            else env[h].e->addOperator(*r.t);
        }
        else if (o == "build")
        {
            nf::Dictionary d;
            d.insert("scale", int(a[0].num()));
            with(h, [&](auto& r) { if constexpr (!std::is_same_v<std::decay_t<decltype(r)>, dsl::Coeff>) r.build(d); });
        }
        else if (o == "explicit")
        {
            nf::Field<T> source(exec, n, val<T>(a[0].num()));
            Slot& z = env[h];
            if (z.e)
            {
                nf::Field<T> r = k == "new" ? z.e->explicitOperation(n) : k == "onto" ? z.e->explicitOperation(source) : z.e->explicitOperation(source, 2.0, 3.0);
                out = listOf(r);
                if (k != "new" && key(listOf(source)) != key(out)) out = J(std::string("the source differs from what was returned"));
            }
            else
            {
                if (z.s) z.s->explicitOperation(source);
                else z.t->explicitOperation(source, 2.0, 3.0);
                out = listOf(source);
            }
        }
        else if (o == "implicit")
        {
            LS ls = system(double(a[0].num()));
            Slot& z = env[h];
            if (z.s) z.s->implicitOperation(ls);
            else if (z.t) z.t->implicitOperation(ls, 2.0, 3.0);
            else if (k == "spatial") z.e->implicitOperation(ls);
            else z.e->implicitOperation(ls, 2.0, 3.0);
            out = listOf(ls.matrix().values());
            auto b = listOf(ls.rhs());
            for (std::size_t i = 0; i < b.size(); i++) out.add(b[i]);
        }
        else if (o == "toField")
        {
            nf::Field<nf::scalar> f(exec, 1, 77.0);
            dsl::detail::toField(*env[h].k, f);
            out = listOf(f);
        }
        else std::abort();
        return retOk();
    }
    std::string key(const J& j) { return j.dump(); }
    template<class C> J coefs(const C& k, bool all)
    {
        nf::Field<nf::scalar> f(exec, all ? n : 1, 0.0);
        auto v = f.view();
        auto q = k;
        nf::parallelFor(exec, {0, v.size()}, [=](const std::size_t i) { v[i] = q[i]; });
        return listOf(f);
    }
    template<class O> J see(O& o, const char* t)
    {
        J r = J::obj();
        const O& co = o;
        nf::Field<T> v(exec, n, nf::zero<T>());
        if constexpr (std::is_same_v<O, Sp>) o.explicitOperation(v);
        else o.explicitOperation(v, 0.0, 0.0);
        std::string nm = o.getName() == t ? t : "named " + o.getName();
        if (nameOf(o.exec()) != nameOf(exec)) nm += " on " + nameOf(o.exec());
        dsl::Coeff k = co.getCoefficient();
        r.set("t", J(nm)).set("ty", J(std::string(o.getType() == Type::Explicit ? "Explicit" : "Implicit")));
        return r.set("h", J(k.hasSpan())).set("c", coefs(k, true)).set("v", listOf(v));
    }
    J look(Slot& z)
    {
        J r = J::obj();
        if (z.k) return r.set("t", J(std::string("coeff"))).set("c", coefs(*z.k, z.k->hasSpan()));
        if (z.s) return see(*z.s, "spatial");
        if (z.t) return see(*z.t, "temporal");
        if (!z.e) return r.set("t", J(std::string("none")));
        J t = J::arr(), s = J::arr();
        for (auto& q : z.e->temporalOperators()) t.add(see(q, "temporal"));
        for (auto& q : z.e->spatialOperators()) s.add(see(q, "spatial"));
        bool ok = z.e->size() == t.size() + s.size() && nameOf(z.e->exec()) == nameOf(exec);
        return r.set("t", J(std::string(ok ? "expr" : "expr of wrong size or executor"))).set("T", t).set("S", s);
    }
    J obs() override
    {
        J o = J::obj(), e = J::obj();
        for (auto& h : handles) e.set(h, look(env[h]));
        return o.set("env", e).set("out", out);
    }
};
int main(int argc, char** argv)
{
    shim::control.splitMemory = true;
    std::vector<std::string> h(argv + 1, argv + argc);
    return runDriver([h] { return std::make_unique<S>(h); });
}
