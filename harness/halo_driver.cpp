// Replays behaviours of Halo.tla. argv: ranks, names (comma separated; first letter = element type:
// s scalar, l label, v Vector), send map and receive map as JSON, initial fields as JSON {"s":[[..]..],..}.
#include "kdriver.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include <map>
#include <deque>
#include <sstream>
static int nranks;
static std::vector<std::string> names;
static J sendJ, recvJ, firstJ;

static nf::CommMap mapOf(const J& m, int r)
{
    nf::CommMap c(static_cast<std::size_t>(nranks));
    for (int d = 0; d < nranks; d++)
        for (std::size_t i = 0; i < m[r][d].size(); i++)
            c[static_cast<std::size_t>(d)].push_back(nf::NodeCommMap {static_cast<nf::label>(m[r][d][i].num())});
    return c;
}
struct Rank
{
    nf::Communicator comm;
    std::map<std::string, std::unique_ptr<nf::Field<nf::scalar>>> s;
    std::map<std::string, std::unique_ptr<nf::Field<nf::label>>> l;
    std::map<std::string, std::unique_ptr<nf::Field<nf::Vector>>> v;
};
struct S : Session
{
    std::deque<Rank> rank;
    std::map<std::pair<int, std::string>, bool> act;
    S()
    {
        simmpi::size = nranks;
        simmpi::net.clear();
        for (int r = 0; r < nranks; r++)
        {
            simmpi::current = r;
            rank.emplace_back();
            Rank& k = rank.back();
            nf::Executor ex = r % 2 ? nf::Executor(nf::CPUExecutor {}) : nf::Executor(nf::SerialExecutor {});
            k.comm = nf::Communicator(nf::mpi::MPIEnvironment(), mapOf(sendJ, r), mapOf(recvJ, r));
            for (auto& n : names)
            {
                std::string t = n.substr(0, 1);
                const J& c = firstJ[t][r];
                if (t == "s" && !k.s[t]) k.s[t] = std::make_unique<nf::Field<nf::scalar>>(ex, vecOf<nf::scalar>(c));
                if (t == "l" && !k.l[t]) k.l[t] = std::make_unique<nf::Field<nf::label>>(ex, vecOf<nf::label>(c));
                if (t == "v" && !k.v[t]) k.v[t] = std::make_unique<nf::Field<nf::Vector>>(ex, vecOf<nf::Vector>(c));
            }
        }
    }
    template<class F>
    auto with(int r, const std::string& t, F&& f)
    {
        Rank& k = rank[static_cast<std::size_t>(r)];
        if (t == "s") return f(*k.s.at(t));
        if (t == "l") return f(*k.l.at(t));
        return f(*k.v.at(t));
    }
    J step(const J& op) override
    {
        const std::string o = op["n"].str();
        int r = static_cast<int>(op["h"].num()) - 1;
        const J& a = op["a"];
        simmpi::current = r;
        for (auto& [id, q] : simmpi::net.req) q.tests = 0;
        if (o == "write")
        {
            with(r, a[0].str(), [&](auto& f) {
                auto v = f.view();
                v[static_cast<std::size_t>(a[1].num())] = val<std::remove_reference_t<decltype(v[0])>>(a[2].num());
            });
            return retOk();
        }
        if (o == "deliver" || o == "buffer")
        {
            int d = static_cast<int>(a[0].num()) - 1, tag = nf::mpi::bufferHash(a[1].str());
            return retBool(o == "deliver" ? simmpi::deliver(r, d, tag) : simmpi::buffer(r, d, tag));
        }
        std::string n = a[0].str(), t = n.substr(0, 1);
        auto& c = rank[static_cast<std::size_t>(r)].comm;
        if (o == "start")
        {
            with(r, t, [&](auto& f) { c.startComm(f, n); });
            act[{r, n}] = true;
            return retOk();
        }
        if (o == "test") return retBool(c.isComplete(n));
        if (o == "finish")
        {
            with(r, t, [&](auto& f) { c.finaliseComm(f, n); });
            act[{r, n}] = false;
            return retOk();
        }
        std::abort();
    }
    J obs() override
    {
        J fs = J::arr(), as = J::arr();
        for (int r = 0; r < nranks; r++)
        {
            Rank& k = rank[static_cast<std::size_t>(r)];
            J x = J::obj(), y = J::obj();
            for (auto& [t, p] : k.s) x.set(t, listOf(*p));
            for (auto& [t, p] : k.l) x.set(t, listOf(*p));
            for (auto& [t, p] : k.v) x.set(t, listOf(*p));
            for (auto& n : names) y.set(n, J(act[{r, n}]));
            fs.add(x);
            as.add(y);
        }
        J o = J::obj();
        o.set("f", fs).set("act", as);
        return o;
    }
};
int main(int, char** argv)
{
    nranks = std::atoi(argv[1]);
    std::stringstream ss(argv[2]);
    for (std::string n; std::getline(ss, n, ',');) names.push_back(n);
    sendJ = J::parse(argv[3]);
    recvJ = J::parse(argv[4]);
    firstJ = J::parse(argv[5]);
    simmpi::patience = 20;
    return runDriver([&] { return std::make_unique<S>(); });
}
