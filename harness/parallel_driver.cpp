// Replays behaviours of ParallelAlgorithms.tla; with --trace prints recorded launches instead.
#include "kdriver.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/operations/sum.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
#ifndef ELEM
#define ELEM nf::scalar
#endif
using T = ELEM;
using L = nf::localIdx;
static J retInt(const J& v) { J x = J::obj(); x.set("t", "int").set("v", v); return retVal(x); }

struct S : Session
{
    J arr = J::arr();
    using P = std::pair<std::size_t, std::size_t>;

    template<class Call>
    J reduceOf(const std::string& k, T init, Call&& call)
    {
        T v = init;
        if (k == "sum") call([](auto view) { return [view](std::size_t i, T& a) { a += view[i]; }; }, v);
        else if (k == "rsum") { Kokkos::Sum<T> r(v); call([](auto view) { return [view](std::size_t i, T& a) { a += view[i]; }; }, r); }
        else if (k == "prod") { Kokkos::Prod<T> r(v); call([](auto view) { return [view](std::size_t i, T& a) { a *= view[i]; }; }, r); }
        else if (k == "max") { Kokkos::Max<T> r(v); call([](auto view) { return [view](std::size_t i, T& a) { if (view[i] > a) a = view[i]; }; }, r); }
        else { Kokkos::Min<T> r(v); call([](auto view) { return [view](std::size_t i, T& a) { if (view[i] < a) a = view[i]; }; }, r); }
        return num(v);
    }

    J step(const J& op) override
    {
        schedule(op["s"].num());
        arr = J::arr();
        const std::string o = op["n"].str();
        const J& a = op["a"];
        nf::Executor ex = execOf(a[0].str());
        auto N = [&](int i) { return static_cast<std::size_t>(a[i].num()); };
        if (o == "for")
        {
            nf::Field<nf::label> f(ex, N(3), 0);
            auto v = f.view();
            long n = 0;
            long* pn = &n;
            nf::parallelFor(ex, P {N(1), N(2)}, [v, pn](const std::size_t i) { v[i] += 1; ++*pn; });
            arr = listOf(f);
            return retInt(J(static_cast<long long>(n)));
        }
        if (o == "field")
        {
            nf::Field<T> f(ex, N(1));
            long n = 0;
            long* pn = &n;
            long long c = a[2].num();
            nf::parallelFor(f, [c, pn](const std::size_t i) { ++*pn; return val<T>(c * static_cast<long long>(i) + 1); });
            arr = listOf(f);
            return retInt(J(static_cast<long long>(n)));
        }
        if (o == "reduce")
        {
            nf::Field<T> f(ex, vecOf<T>(a[1]));
            auto v = f.view();
            P r {N(2), N(3)};
            return retInt(reduceOf(a[4].str(), val<T>(a[5].num()), [&](auto kernel, auto& value) {
                nf::parallelReduce(ex, r, kernel(v), value);
            }));
        }
        if (o == "freduce")
        {
            nf::Field<T> f(ex, vecOf<T>(a[1]));
            auto v = f.view();
            return retInt(reduceOf(a[2].str(), val<T>(a[3].num()), [&](auto kernel, auto& value) {
                nf::parallelReduce(f, kernel(v), value);
            }));
        }
        if (o == "scan" || o == "subscan")
        {
            nf::Field<T> f(ex, vecOf<T>(a[1]));
            nf::Field<T> out(ex, f.size(), val<T>(0));
            auto v = f.view();
            auto w = out.view();
            auto k = [v, w](const std::size_t i, T& u, const bool final) {
                u += v[i];
                if (final) w[i] = u;
            };
            T total = 0;
            if (o == "subscan") nf::parallelScan(ex, P {N(2), N(3)}, k, total);
            else if (a[2].boolean())
            {
                total = val<T>(a[3].num());
                nf::parallelScan(ex, P {0, f.size()}, k, total);
            }
            else nf::parallelScan(ex, P {0, f.size()}, k);
            arr = listOf(out);
            return retInt(num(total));
        }
        if (o == "sum")
        {
            nf::Field<T> f(ex, vecOf<T>(a[1]));
            T s {};
            nf::SumKernel k;
            std::visit([&](const auto& e) { k(e, f, s); }, f.exec());
            return retInt(num(s));
        }
        if (o == "segments")
        {
            nf::Field<L> in(ex, vecOf<L>(a[1]));
            nf::Field<L> off(ex, in.size() + 1, L(0));
            L total = nf::segmentsFromIntervals(in, off);
            arr = listOf(off);
            return retInt(num(total));
        }
        if (o == "segwrite")
        {
            nf::Field<L> in(ex, vecOf<L>(a[1]));
            nf::SegmentedField<T, L> seg(in);
            std::string how = a[2].str();
            auto v = seg.view();
            auto [vals, offs] = seg.spans();
            nf::parallelFor(ex, P {0, seg.numSegments()}, [=](const std::size_t j) {
                T base = val<T>(100 * static_cast<long long>(j + 1));
                if (how == "span")
                {
                    auto s = v.span(j);
                    for (std::size_t q = 0; q < s.size(); q++) s[q] = base + val<T>(q);
                }
                else if (how == "range")
                {
                    auto [st, len] = v.range(j);
                    for (L q = 0; q < len; q++) v.values[st + q] = base + val<T>(q);
                }
                else if (how == "bounds")
                {
                    auto [st, en] = v.bounds(j);
                    for (L p = st; p < en; p++) v.values[p] = base + val<T>(p - st);
                }
                else
                    for (L p = offs[j]; p < v[j + 1]; p++) vals[p] = base + val<T>(p - v[j]);
            });
            nf::SegmentedField<T, L> copy(seg.values(), seg.segments());
            if (copy.size() != seg.size() || copy.numSegments() != seg.numSegments() || !(copy.exec() == ex)) return ret("copy differs", okv());
            arr = listOf(copy.values());
            return retInt(J(static_cast<long long>(seg.numSegments())));
        }
        std::abort();
    }
    J obs() override { return arr; }
};

static void trace(long runs)
{
    unsigned long long s = 88172645463325252ull;
    auto rnd = [&](unsigned long long n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s % n; };
    for (long r = 0; r < runs; r++)
    {
        schedule(static_cast<long long>(rnd(40)));
        const char* xs[] = {"serial", "cpu", "gpu"};
        nf::Executor ex = execOf(xs[rnd(3)]);
        std::size_t lo = rnd(6), hi = lo + rnd(30);
        std::vector<std::size_t> it;
        auto* pit = &it;
        int kind = static_cast<int>(rnd(4));
        if (kind == 0) nf::parallelFor(ex, {lo, hi}, [pit](const std::size_t i) { pit->push_back(i); });
        else if (kind == 1)
        {
            lo = 0;
            nf::Field<T> f(ex, hi);
            nf::parallelFor(f, [pit](const std::size_t i) { pit->push_back(i); return T(0); });
        }
        else if (kind == 2)
        {
            T v {};
            nf::parallelReduce(ex, {lo, hi}, [pit](const std::size_t i, T&) { pit->push_back(i); }, v);
        }
        else
        {
            T v {};
            nf::parallelScan(ex, {lo, hi}, [pit](const std::size_t i, T&, const bool final) { if (final) pit->push_back(i); }, v);
        }
        J l = J::arr();
        for (auto i : it) l.add(J(static_cast<long long>(i)));
        J e = J::obj();
        e.set("lo", lo).set("hi", hi).set("it", l);
        std::cout << e.dump() << "\n";
    }
}

int main(int argc, char** argv)
{
    shim::control.splitMemory = true;
    if (argc > 2) { trace(std::atol(argv[2])); return 0; }
    return runDriver([&] { return std::make_unique<S>(); });
}
