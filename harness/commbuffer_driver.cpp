// Replays behaviours of CommBuffer.tla. argv: ranks, "half" | "full", topologies as JSON.
#include "kdriver.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
#include <deque>
#include <map>
using nf::mpi::HalfDuplexCommBuffer;
using nf::mpi::FullDuplexCommBuffer;
static int nranks;
static bool full;
static J topos;
template<class F>
auto byType(const std::string& t, F&& f)
{
    if (t == "char") return f(char());
    if (t == "short") return f(short());
    if (t == "int") return f(int());
    if (t == "double") return f(double());
    return f(nf::Vector());
}
struct S : Session
{
    std::deque<HalfDuplexCommBuffer> half; // 2 r + role
    std::deque<FullDuplexCommBuffer> fb;
    std::map<int, std::string> type;              // what the user of the buffer knows
    std::map<std::pair<int, int>, bool> busy;     // (buffer, peer): posted receive not yet arrived
    std::map<int, std::string> nameOf;
    std::vector<std::size_t> sizes(int r, int role, int k)
    {
        std::vector<std::size_t> v;
        for (int p = 0; p < nranks; p++)
            v.push_back(static_cast<std::size_t>((role == 0 ? topos[k][r][p] : topos[k][p][r]).num()));
        return v;
    }
    S()
    {
        simmpi::size = nranks;
        simmpi::net.clear();
        for (int r = 0; r < nranks; r++)
        {
            simmpi::current = r;
            nf::mpi::MPIEnvironment env;
            if (full) fb.emplace_back(env, sizes(r, 0, 0), sizes(r, 1, 0));
            else
                for (int o = 0; o < 2; o++)
                {
                    if (r % 2) half.emplace_back(env, sizes(r, o, 0));
                    else
                    {
                        half.emplace_back();
                        half.back().setMPIEnvironment(env);
                        half.back().setCommRankSize<char>(sizes(r, o, 0));
                    }
                }
        }
    }
    HalfDuplexCommBuffer& at(int r, int o) { return half[static_cast<std::size_t>(2 * r + o)]; }
    FullDuplexCommBuffer& fat(int r) { return fb[static_cast<std::size_t>(r)]; }
    template<class T>
    std::span<T> part(int r, int o, int p)
    {
        std::size_t q = static_cast<std::size_t>(p);
        if (!full) return at(r, o).get<T>(q);
        return o == 0 ? fat(r).getSend<T>(q) : fat(r).getReceive<T>(q);
    }
    template<class T>
    std::span<const T> cpart(int r, int o, int p)
    {
        std::size_t q = static_cast<std::size_t>(p);
        if (!full) return static_cast<const HalfDuplexCommBuffer&>(at(r, o)).get<T>(q);
        const FullDuplexCommBuffer& c = fat(r);
        return o == 0 ? c.getSend<T>(q) : c.getReceive<T>(q);
    }
    std::vector<int> roles(int o) { return full ? std::vector<int> {0, 1} : std::vector<int> {o}; }
    J step(const J& op) override
    {
        const std::string n = op["n"].str();
        const J& a = op["a"];
        int r = static_cast<int>(op["h"].num()) - 1;
        int o = n == "deliver" || n == "buffer" || n == "tag" ? 0 : static_cast<int>(a[0].num()) - 1;
        simmpi::current = r;
        for (auto& [id, q] : simmpi::net.req) q.tests = 0;
        bool stops = op["r"]["e"].str() == "stopped";
        auto may = [&](auto&& f) { // a call that ends the program runs in a child process
            if (stops) return ret(dying(f), okv());
            f();
            return retOk();
        };
        if (n == "setSize")
            return may([&] {
                byType(a[1].str(), [&](auto t) { at(r, o).template setCommRankSize<decltype(t)>(sizes(r, o, static_cast<int>(a[2].num()) - 1)); });
            });
        if (n == "initComm")
        {
            J x = may([&] {
                byType(a[1].str(), [&](auto t) {
                    if (full) fat(r).template initComm<decltype(t)>(a[2].str());
                    else at(r, o).template initComm<decltype(t)>(a[2].str());
                });
            });
            if (!stops)
                for (int w : roles(o))
                {
                    type[2 * r + w] = a[1].str();
                    nameOf[2 * r + w] = a[2].str();
                    byType(a[1].str(), [&](auto t) {
                        for (int p = 0; p < nranks; p++)
                            for (auto& e : part<decltype(t)>(r, w, p)) e = val<decltype(t)>(a[3].num());
                    });
                }
            return x;
        }
        if (n == "isInit") return retBool(full ? fat(r).isCommInit() : at(r, o).isCommInit());
        if (n == "size")
        {
            long long s = -1;
            auto f = [&] {
                byType(a[1].str(), [&](auto t) {
                    int p = static_cast<int>(a[2].num()) - 1;
                    s = static_cast<long long>(part<decltype(t)>(r, o, p).size());
                    if (s != static_cast<long long>(cpart<decltype(t)>(r, o, p).size())) s = -2;
                });
            };
            J e = may(f);
            if (stops) return e;
            J v = J::obj();
            v.set("t", "int").set("v", s);
            return retVal(v);
        }
        if (n == "put")
        {
            byType(type[2 * r + o], [&](auto t) {
                long long v = a[2].num();
                for (auto& e : part<decltype(t)>(r, o, static_cast<int>(a[1].num()) - 1)) e = val<decltype(t)>(v++);
            });
            return retOk();
        }
        if (n == "start")
        {
            J x = may([&] { if (full) fat(r).startComm(); else if (o == 0) at(r, o).send(); else at(r, o).receive(); });
            if (!stops)
                for (int w : roles(o))
                    if (w == 1)
                        for (int p = 0; p < nranks; p++)
                            busy[{r, p}] = byType(type[2 * r + 1], [&](auto t) { return part<decltype(t)>(r, 1, p).size() > 0; });
            return x;
        }
        if (n == "deliver" || n == "buffer")
        {
            int d = static_cast<int>(a[0].num()) - 1, tag = nf::mpi::bufferHash(a[1].str());
            if (n == "buffer") return retBool(simmpi::buffer(r, d, tag));
            bool k = simmpi::deliver(r, d, tag);
            if (k) busy[{d, r}] = false;
            return retBool(k);
        }
        if (n == "test")
        {
            bool v = false;
            J e = may([&] { v = full ? fat(r).isComplete() : at(r, o).isComplete(); });
            return stops ? e : retBool(v);
        }
        if (n == "wait")
        {
            J e = may([&] { if (full) fat(r).waitComplete(); else at(r, o).waitComplete(); });
            // whatever has arrived by now may be looked at
            if (!stops) for (auto& [k, v] : busy) if (v) v = !simmpi::arrived(k.second, k.first, nf::mpi::bufferHash(nameOf[2 * k.first + 1]));
            return e;
        }
        if (n == "release")
        {
            J e = may([&] { if (full) fat(r).finaliseComm(); else at(r, o).finaliseComm(); });
            if (!stops) for (int w : roles(o)) nameOf[2 * r + w] = "";
            return e;
        }
        if (n == "tag")
        {
            int t = nf::mpi::bufferHash(a[0].str());
            bool ok = t >= 10 && t <= 32767 && t == nf::mpi::bufferHash(std::string(a[0].str()));
            return retBool(ok);
        }
        std::abort();
    }
    J obs() override
    {
        J all = J::arr();
        for (int r = 0; r < nranks; r++)
        {
            J row = J::arr();
            for (int o = 0; o < 2; o++)
            {
                J e = J::obj();
                std::string nm = nameOf[2 * r + o];
                if (!full)
                {
                    nm = at(r, o).getCommName();
                    if (!at(r, o).isCommInit()) nm = nm == "unassigned" ? "" : "wrong name " + nm;
                }
                J d = J::arr();
                if (nm != "" && nm.substr(0, 5) != "wrong")
                    byType(type[2 * r + o], [&](auto t) {
                        for (int p = 0; p < nranks; p++)
                        {
                            J l = J::arr();
                            if (o == 1 && busy[{r, p}]) l.add(J(-1));
                            else for (const auto& x : cpart<decltype(t)>(r, o, p)) l.add(num(x));
                            d.add(l);
                        }
                    });
                e.set("name", nm).set("data", d);
                row.add(e);
            }
            all.add(row);
        }
        return all;
    }
};
int main(int, char** argv)
{
    nranks = std::atoi(argv[1]);
    full = std::string(argv[2]) == "full";
    topos = J::parse(argv[3]);
    simmpi::patience = 50;
    return runDriver([&] { return std::make_unique<S>(); });
}
