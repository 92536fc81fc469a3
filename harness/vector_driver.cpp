// Replays behaviours of Vector.tla.
#include "kdriver.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include <map>
struct S : Session
{
    std::map<std::string, nf::Vector> v;
    explicit S(const std::vector<std::string>& names) { for (auto& n : names) v[n] = nf::Vector(); }
    static J scal(double d)
    {
        if (d == std::floor(d) && std::fabs(d) < 1e15) return retVal(tv("int", std::to_string(static_cast<long long>(d))));
        return retVal(tv("double", std::to_string(d)));
    }
    J step(const J& op) override
    {
        const std::string o = op["n"].str(), hn = op["h"].str();
        const J& a = op["a"];
        auto at = [&](int i) -> nf::Vector& { return v.at(a[i].str()); };
        auto x = [&](int i) { return static_cast<nf::scalar>(a[i].num()); };
        if (o == "scalarMag") return scal(nf::mag(x(0)));
        nf::Vector& h = v.at(hn);
        const nf::Vector& c = h;
        if (o == "make")
        {
            std::string how = a[0].str();
            if (how == "xyz") h = nf::Vector(x(1), x(2), x(3));
            else if (how == "const") h = nf::Vector(x(1));
            else if (how == "zero") h = nf::zero<nf::Vector>();
            else if (how == "one") h = nf::one<nf::Vector>();
            else { alignas(nf::Vector) unsigned char junk[sizeof(nf::Vector)]; std::fill(std::begin(junk), std::end(junk), 0x41);
                   h = *new (junk) nf::Vector; }
            return retOk();
        }
        if (o == "assign") { h = at(0); return retOk(); }
        if (o == "put" || o == "get")
        {
            auto i = static_cast<std::size_t>(a[0].num()) - 1;
            std::string how = o == "put" ? a[2].str() : a[1].str();
            if (o == "put")
            {
                if (how == "square") h[i] = x(1);
                else if (how == "round") h(i) = x(1);
                else h.data()[i] = x(1);
                return retOk();
            }
            if (c.size() != 3) return ret("size", okv());
            return scal(how == "square" ? h[i] : how == "round" ? h(i) : how == "data" ? h.data()[i]
                        : how == "constSquare" ? c[i] : how == "constRound" ? c(i) : c.data()[i]);
        }
        if (o == "combine") { h = a[2].str() == "add" ? at(0) + at(1) : at(0) - at(1); return retOk(); }
        if (o == "scale")
        {
            std::string how = a[2].str();
            if (how == "right") h = at(0) * x(1);
            else if (how == "left") h = x(1) * at(0);
            else h = at(0) * static_cast<nf::label>(a[1].num());
            return retOk();
        }
        if (o == "inPlace")
        {
            nf::Vector& back = a[1].str() == "add" ? (h += at(0)) : (h -= at(0));
            return &back == &h ? retOk() : ret("returned another vector", okv());
        }
        if (o == "scaleInPlace") { nf::Vector& back = (h *= x(0)); return &back == &h ? retOk() : ret("returned another vector", okv()); }
        if (o == "scaleBy") { h *= at(0)[static_cast<std::size_t>(a[1].num()) - 1]; return retOk(); }
        if (o == "dot") return scal(c & at(0));
        if (o == "equal") return retBool(c == at(0));
        if (o == "mag") return scal(std::floor(nf::mag(c) * 100 + 1e-7));
        if (o == "print") { std::ostringstream s; s << nf::Vector(c[0] + 0.0, c[1] + 0.0, c[2] + 0.0); /* no negative zero */ return retVal(tv("text", s.str())); }
        std::abort();
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& [n, x] : v) { J l = J::arr(); for (int i = 0; i < 3; i++) l.add(num(x[static_cast<std::size_t>(i)])); o.set(n, l); }
        return o;
    }
};
int main(int argc, char** argv)
{
    shim::control.splitMemory = false; // plain values; no kernels
    std::vector<std::string> names(argv + 1, argv + argc);
    return runDriver([&] { return std::make_unique<S>(names); });
}
