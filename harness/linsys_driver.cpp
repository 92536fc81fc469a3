// Replays behaviours of LinearSystem.tla.
#include "kdriver.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#ifndef ELEM
#define ELEM nf::scalar
#endif
#ifndef INDEX
#define INDEX nf::localIdx
#endif
using T = ELEM;
using I = INDEX;
using Sys = nf::la::LinearSystem<T, I>;
using Mat = nf::la::CSRMatrix<T, I>;
static std::vector<std::string> handles;

static Sys make(const nf::Executor& x, const J& col, const J& ptr, const J& a, const J& b)
{
    return Sys(Mat(nf::Field<T>(x, vecOf<T>(a)), nf::Field<I>(x, vecOf<I>(col)), nf::Field<I>(x, vecOf<I>(ptr))), nf::Field<T>(x, vecOf<T>(b)));
}
struct S : Session
{
    std::map<std::string, std::unique_ptr<Sys>> sys;
    J out = J::arr();
    J step(const J& op) override
    {
        schedule(op["s"].num());
        out = J::arr();
        const std::string o = op["n"].str(), h = op["h"].str();
        const J& a = op["a"];
        if (o == "new") sys[h] = std::make_unique<Sys>(make(execOf(a[0].str()), a[1], a[2], a[3], a[4]));
        else if (o == "empty") sys[h] = std::make_unique<Sys>(execOf(a[0].str()));
        else if (o == "mismatch")
        {
            nf::Field<T> v(execOf(a[0].str()), a[3].size(), nf::zero<T>());
            nf::Field<I> col(execOf(a[1].str()), vecOf<I>(a[3])), ptr(execOf(a[1].str()), vecOf<I>(a[4]));
            nf::Field<T> rhs(execOf(a[2].str()), static_cast<std::size_t>(a[5].num()), nf::zero<T>());
            return ret(dying([&] { Sys s(Mat(v, col, ptr), rhs); }), okv());
        }
        else if (o == "copy")
        {
            const Sys& from = *sys[a[0].str()];
            std::string how = a[1].str();
            if (how == "copy") sys[h] = std::make_unique<Sys>(from);
            else if (how == "host") sys[h] = std::make_unique<Sys>(from.copyToHost());
            else
            {
                nf::Executor x = execOf(a[2].str());
                sys[h] = std::make_unique<Sys>(from.matrix().copyToExecutor(x), from.rhs().copyToExecutor(x));
            }
        }
        else if (o == "write")
        {
            Sys& s = *sys[h];
            auto v = s.view();
            I i = static_cast<I>(a[0].num()), j = static_cast<I>(a[1].num()), e = static_cast<I>(a[4].num());
            T c = val<T>(a[2].num());
            std::string how = a[3].str();
            auto run = [&] {
                nf::parallelFor(s.exec(), {0, 1}, [=](const std::size_t) {
                    if (how == "set") v.matrix.entry(i, j) = c;
                    else if (how == "add") v.matrix.entry(i, j) += c;
                    else v.matrix.entry(e) = c;
                });
            };
            if (op["r"]["e"].str() == "") run();
            else return ret(dying(run), okv());
        }
        else if (o == "rhs")
        {
            auto v = sys[h]->view();
            std::size_t i = static_cast<std::size_t>(a[0].num());
            T c = val<T>(a[1].num());
            nf::parallelFor(sys[h]->exec(), {0, 1}, [=](const std::size_t) { v.rhs[i] = c; });
        }
        else if (o == "reset") sys[h]->reset();
#ifdef SPMV
        else if (o == "residual")
        {
            nf::Field<T> x(sys[h]->exec(), vecOf<T>(a[0]));
            auto r = nf::la::spmv(*sys[h], x);
            if (!(r.exec() == sys[h]->exec())) return ret("other executor", okv());
            out = listOf(r);
        }
#endif
        else std::abort();
        return retOk();
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& h : handles)
        {
            J e = J::obj();
            const Sys* s = sys[h].get();
            if (!s) { o.set(h, e.set("x", "")); continue; }
            bool same = s->exec() == s->rhs().exec() && s->exec() == s->matrix().colIdxs().exec() && s->exec() == s->matrix().rowPtrs().exec();
            J n = J::arr();
            n.add(static_cast<long long>(s->matrix().nRows())).add(static_cast<long long>(s->matrix().nNonZeros()));
            e.set("x", same ? nameOf(s->exec()) : "mixed").set("col", listOf(s->matrix().colIdxs())).set("ptr", listOf(s->matrix().rowPtrs()));
            e.set("a", listOf(s->matrix().values())).set("b", listOf(s->rhs())).set("n", n);
            o.set(h, e);
        }
        J r = J::obj();
        r.set("sys", o).set("out", out);
        return r;
    }
};
int main(int argc, char** argv)
{
    shim::control.splitMemory = true;
    for (int i = 1; i < argc; i++) handles.push_back(argv[i]);
    return runDriver([] { return std::make_unique<S>(); });
}
