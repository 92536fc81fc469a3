// Replays behaviours of AllReduce.tla; ranks are threads.
#include "kdriver.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
#include <thread>
namespace mp = nf::mpi;
template<class T> struct Tag { using type = T; };
template<class F>
auto byType(const std::string& t, F&& f)
{
    if (t == "char") return f(Tag<char> {});
    if (t == "wchar_t") return f(Tag<wchar_t> {});
    if (t == "short") return f(Tag<short> {});
    if (t == "int") return f(Tag<int> {});
    if (t == "long") return f(Tag<long> {});
    if (t == "long long") return f(Tag<long long> {});
    if (t == "unsigned short") return f(Tag<unsigned short> {});
    if (t == "unsigned") return f(Tag<unsigned> {});
    if (t == "unsigned long") return f(Tag<unsigned long> {});
    if (t == "unsigned long long") return f(Tag<unsigned long long> {});
    if (t == "float") return f(Tag<float> {});
    if (t == "double") return f(Tag<double> {});
    if (t == "long double") return f(Tag<long double> {});
    if (t == "bool") return f(Tag<bool> {});
    if (t == "complex<float>") return f(Tag<std::complex<float>> {});
    if (t == "complex<double>") return f(Tag<std::complex<double>> {});
    return f(Tag<std::complex<long double>> {});
}
template<class T> T mk(long long i) { return static_cast<T>(static_cast<double>(i)); }
template<class R> J num(std::complex<R> c) { return c.imag() == 0 ? num(static_cast<double>(c.real())) : J("complex"); }
static J show(long double d) { return num(static_cast<double>(d)); }
template<class T> J shown(T v)
{
    if constexpr (std::is_same_v<T, long double>) return show(v);
    else return num(v);
}
static mp::ReduceOp opOf(const std::string& o)
{
    using O = mp::ReduceOp;
    return o == "Max" ? O::Max : o == "Min" ? O::Min : o == "Sum" ? O::Sum : o == "Prod" ? O::Prod : o == "Land" ? O::Land
         : o == "Band" ? O::Band : o == "Lor" ? O::Lor : O::Bor;
}
static J listRet(const char* t, const J& l) { J v = J::obj(); v.set("t", t).set("v", l); return retVal(v); }
template<class F>
void ranks(int n, F&& f)
{
    simmpi::size = n;
    simmpi::threaded = true;
    std::vector<std::thread> ts;
    for (int r = 0; r < n; r++) ts.emplace_back([&, r] { simmpi::current = r; f(r); });
    for (auto& t : ts) t.join();
    simmpi::threaded = false;
}
struct Odd { int x; };
struct S : Session
{
    J step(const J& op) override
    {
        const std::string n = op["n"].str();
        const J& a = op["a"];
        if (n == "reduce")
        {
            const J& l = a[0];
            int k = static_cast<int>(l.size());
            std::string t = a[1].str();
            auto o = opOf(a[2].str());
            std::vector<J> out(static_cast<std::size_t>(k));
            ranks(k, [&](int r) {
                mp::MPIEnvironment env;
                long long c = l[r].num();
                std::size_t u = static_cast<std::size_t>(r);
                if (t == "Vector")
                {
                    double dc = static_cast<double>(c);
                    nf::Vector v {dc, dc, dc};
                    mp::allReduce(v, o, env.comm());
                    out[u] = v[0] == v[1] && v[1] == v[2] ? num(v[0]) : num(v);
                }
                else
                    byType(t, [&](auto tag) {
                        using T = typename decltype(tag)::type;
                        struct { char before[8]; T v; char after[8]; } box;
                        std::memset(&box, 0x55, sizeof box);
                        box.v = mk<T>(c);
                        mp::allReduce(box.v, o, env.comm());
                        out[u] = shown(box.v);
                        for (int i = 0; i < 8; i++) if (box.before[i] != 0x55 || box.after[i] != 0x55) out[u] = J("overwritten");
                    });
            });
            J res = J::arr();
            for (auto& x : out) res.add(x);
            return listRet("each", res);
        }
        if (n == "message")
        {
            simmpi::size = 2;
            simmpi::net.clear();
            J res = J::arr();
            byType(a[0].str(), [&](auto tag) {
                using T = typename decltype(tag)::type;
                std::size_t k = a[1].size();
                std::unique_ptr<T[]> s(new T[k + 1]), d(new T[k + 1]);
                for (std::size_t i = 0; i < k; i++) { s[i] = mk<T>(a[1][i].num()); d[i] = mk<T>(0); }
                d[k] = mk<T>(1);
                MPI_Request q[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL};
                simmpi::current = 0;
                mp::isend<T>(s.get(), static_cast<nf::mpi_label_t>(k), 1, 17, MPI_COMM_WORLD, &q[0]);
                simmpi::current = 1;
                mp::irecv<T>(d.get(), static_cast<nf::mpi_label_t>(k), 0, 17, MPI_COMM_WORLD, &q[1]);
                bool early = k > 0 && (mp::test(&q[0]) || mp::test(&q[1]));
                simmpi::deliver(0, 1, 17);
                bool late = !mp::test(&q[0]) || !mp::test(&q[1]);
                if (early) res.add("complete too early");
                if (late) res.add("never complete");
                for (std::size_t i = 0; i < k; i++) res.add(shown(d[i]));
                if (d[k] != mk<T>(1)) res.add("overwritten");
            });
            return listRet("list", res);
        }
        if (n == "env")
        {
            int k = static_cast<int>(a[0].num());
            std::vector<J> out(static_cast<std::size_t>(k));
            ranks(k, [&](int r) {
                mp::MPIEnvironment env;
                out[static_cast<std::size_t>(r)] = J(static_cast<long long>(100 * env.sizeRank() + env.rank()));
            });
            J res = J::arr();
            for (auto& x : out) res.add(x);
            return listRet("list", res);
        }
        std::string w = a[0].str();
        if (w == "type") return ret(dying([] { (void)mp::getType<Odd>(); }), okv());
        if (w == "op") return ret(dying([] { (void)mp::getOp(static_cast<mp::ReduceOp>(99)); }), okv());
        return ret(dying([] { mp::MPIEnvironment e(MPI_COMM_NULL); }), okv());
    }
    J obs() override { return J::arr(); }
};
int main() { return runDriver([] { return std::make_unique<S>(); }); }
