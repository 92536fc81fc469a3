// Replays behaviours of View.tla.
#include "driver.hpp"
#include <array>
#include <stdexcept>
#include <vector>
struct Aborted {};
namespace Kokkos
{
[[noreturn]] inline void abort(const char*) { throw Aborted {}; } // ends the program in Kokkos
}
#include "NeoFOAM/core/view.hpp"
struct S : Session
{
    std::array<int, 64> mem {}; // larger than every view: an access past the view stays in here
    std::size_t n;
    std::unique_ptr<NeoFOAM::View<int>> v;
    bool alive = true;
    explicit S(std::size_t max) : n(max + 1) {}
    J step(const J& op) override
    {
        const std::string o = op["n"].str();
        const J& a = op["a"];
        auto idx = [&] { return static_cast<std::size_t>(a[0].num()); };
        try
        {
            if (o == "make")
            {
                std::string how = a[1].str();
                if (how == "span") v = std::make_unique<NeoFOAM::View<int>>(std::span<int>(mem.data(), idx()));
                else if (how == "pointer") v = std::make_unique<NeoFOAM::View<int>>(mem.data(), idx());
                else if (how == "vector") v = std::make_unique<NeoFOAM::View<int>>(mem.data(), mem.data() + idx());
                else
                {
                    NeoFOAM::View<int> t(mem.data(), idx());
                    v = std::make_unique<NeoFOAM::View<int>>(t);
                }
                if (v->size() != idx() || v->data() != mem.data()) return ret("wrong extent", okv());
                return retOk();
            }
            if (o == "setAbort") { v->abort = a[0].boolean(); return retOk(); }
            const NeoFOAM::View<int>& c = *v;
            if (o == "read")
            {
                if (&c[idx()] != &mem[idx()]) return ret("wrong element", okv());
                return retVal(tv("int", std::to_string(c[idx()])));
            }
            if (o == "write") { c[idx()] = static_cast<int>(a[1].num()); return retOk(); }
            if (o == "outside") { (void)&c[idx()]; return retOk(); }
        }
        catch (const Aborted&) { alive = false; return ret("aborted", okv()); }
        std::abort();
    }
    J obs() override
    {
        J o = J::obj(), m = J::arr();
        for (std::size_t i = 0; i < n; i++) m.add(J(mem[i]));
        o.set("mem", m).set("fail", v ? static_cast<long long>(v->failureIndex) : 0LL).set("alive", alive);
        return o;
    }
};
int main(int, char** argv)
{
    auto n = static_cast<std::size_t>(std::stoi(argv[1]));
    return runDriver([&] { return std::make_unique<S>(n); });
}
