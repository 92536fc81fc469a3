// Replays behaviours of Factory.tla against RuntimeSelectionFactory.
#include "driver.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace NeoFOAM;

struct Common
{
    virtual ~Common() = default;
    virtual std::string type() const = 0;
    virtual std::string arg() const = 0;
};
// no constructor arguments
struct Plain : RuntimeSelectionFactory<Plain, Parameters<>>, Common
{
    static std::string name() { return "Plain"; }
    std::string arg() const override { return "-"; }
};
// value, move-only, mutable reference and const reference arguments
struct Args : RuntimeSelectionFactory<Args, Parameters<int, std::unique_ptr<std::string>, std::vector<std::string>&, const std::string&>>, Common
{
    std::string got;
    Args(int i, std::unique_ptr<std::string> p, std::vector<std::string>& v, const std::string& s)
    {
        got = (p && i == static_cast<int>(s.size()) && *p == s) ? s : "arguments garbled";
        log = &v;
        addr = &s;
    }
    std::vector<std::string>* log;
    const std::string* addr;
    static std::string name() { return "Args"; }
    std::string arg() const override { return got; }
};
#define DOCS(B, K)                                                                                 \
    static std::string name() { return K; }                                                        \
    static std::string doc() { return std::string("doc of ") + B + "." + K; }                      \
    static std::string schema() { return std::string("schema of ") + B + "." + K; }                \
    std::string type() const override { return K; }
// an instantiation of a static member registers the class: P1, P2 are registered before main
struct P1 : Plain::Register<P1> { P1() { (void)REGISTERED; } DOCS("Plain", "P1") };
struct P2 : Plain::Register<P2> { P2() { (void)REGISTERED; } DOCS("Plain", "a longer name with spaces") };
// PL is not: its registration is called later
struct PL : Plain { DOCS("Plain", "PL") };
template<int N>
struct AT : Args::Register<AT<N>>
{
    AT(int i, std::unique_ptr<std::string> p, std::vector<std::string>& v, const std::string& s)
        : Args::Register<AT<N>>(i, std::move(p), v, s)
    {
        (void)AT::REGISTERED;
        v.push_back(name() + this->got);
    }
    static std::string name() { return "A" + std::to_string(N); }
    static std::string doc() { return "doc of Args." + name(); }
    static std::string schema() { return "schema of Args." + name(); }
    std::string type() const override { return name(); }
};
template struct AT<1>;
template struct AT<2>;
struct AL : Args
{
    AL(int i, std::unique_ptr<std::string> p, std::vector<std::string>& v, const std::string& s) : Args(i, std::move(p), v, s)
    {
        v.push_back("AL" + got);
    }
    DOCS("Args", "AL")
};
template<class B> struct Late;
static Capture* cap = nullptr;
static std::streambuf *realErr, *realOut;

struct S : Session
{
    std::map<std::string, std::unique_ptr<Common>> obj;
    std::vector<std::string> log;
    S()
    {
        Plain::table().erase("PL"), Plain::docTable().erase("PL");
        Args::table().erase("AL"), Args::docTable().erase("AL");
    }
    static J objJ(const std::string& b, const Common& o)
    {
        J r = J::obj();
        r.set("t", "obj").set("b", b).set("k", o.type()).set("a", o.arg());
        return r;
    }
    std::unique_ptr<Common> make(const std::string& b, const std::string& k, const std::string& a, std::string& bad)
    {
        if (b == "Plain") return Plain::create(k);
        auto p = std::make_unique<std::string>(a);
        auto x = Args::create(k, static_cast<int>(a.size()), std::move(p), log, a);
        if (p) bad = "move-only argument was not taken";
        if (x && (x->log != &log || x->addr != &a)) bad = "reference argument was copied";
        return x;
    }
    std::map<std::string, std::string> bases;
    J step(const J& op) override
    {
        const std::string n = op["n"].str(), k = op["k"].str(), b = op["h"].str();
        const J& a = op["a"];
        return guarded([&]() -> J {
            if (n == "create")
            {
                bool known = b == "Plain" ? Plain::table().contains(k) : Args::table().contains(k);
                std::string arg = b == "Plain" ? "-" : a[0].str(), bad;
                if (known)
                {
                    auto o = make(b, k, arg, bad);
                    if (!bad.empty()) return ret(bad, okv());
                    if (!o) return ret("null object", okv());
                    J r = objJ(b, *o);
                    r.set("a", b == "Plain" ? a[0].str() : o->arg());
                    bases[a[1].str()] = b == "Plain" ? a[0].str() : "";
                    obj[a[1].str()] = std::move(o);
                    return retVal(r);
                }
                int fd[2];
                if (pipe(fd)) std::abort();
                pid_t pid = fork();
                if (pid == 0)
                {
                    std::cerr.rdbuf(realErr);
                    dup2(fd[1], 2);
                    int null = open_null();
                    dup2(null, 1);
                    dup2(null, 0);
                    try { make(b, k, arg, bad); }
                    catch (...) { _exit(78); }
                    _exit(77); // went on with an unknown name
                }
                close(fd[1]);
                std::string text;
                char buf[4096];
                ssize_t m;
                while ((m = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, static_cast<std::size_t>(m));
                close(fd[0]);
                int st = 0;
                waitpid(pid, &st, 0);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return ret("continued after an unknown name", okv());
                if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return ret("threw", okv());
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) return ret("ended with status " + std::to_string(st), okv());
                std::string miss;
                if (text.find(k) == std::string::npos) miss += " does not mention " + k;
                for (auto& e : b == "Plain" ? Plain::entries() : Args::entries())
                    if (text.find(e) == std::string::npos) miss += " does not list " + e;
                return ret(miss.empty() ? "exit 1 after naming every valid name" : "exit 1," + miss, okv());
            }
            if (n == "use")
            {
                auto& o = *obj[a[0].str()];
                bool plain = dynamic_cast<Plain*>(&o) != nullptr;
                J r = objJ(plain ? "Plain" : "Args", o);
                if (plain) r.set("a", bases[a[0].str()]);
                return retVal(r);
            }
            if (n == "destroy") { obj.erase(a[0].str()); return retOk(); }
            if (n == "register")
            {
                bool ok = false;
                if (k == "P1") ok = Plain::Register<P1>::addSubType();
                else if (k == "PL") ok = Plain::Register<PL>::addSubType();
                else if (k == "A1") ok = Args::Register<AT<1>>::addSubType();
                else if (k == "A2") ok = Args::Register<AT<2>>::addSubType();
                else if (k == "AL") ok = Args::Register<AL>::addSubType();
                else ok = Plain::Register<P2>::addSubType();
                return retBool(ok);
            }
            if (n == "doc") return retVal(tv("str", b == "Plain" ? Plain::doc(k) : Args::doc(k)));
            if (n == "schema") return retVal(tv("str", b == "Plain" ? Plain::schema(k) : Args::schema(k)));
            if (n == "docVia") return via(BaseClassDocumentation::doc(b, k), "doc");
            if (n == "schemaVia") return via(BaseClassDocumentation::schema(b, k), "schema");
            if (n == "entriesVia") return retVal(set(BaseClassDocumentation::entries(b)));
            if (n == "print")
            {
                std::ostringstream os;
                b == "Plain" ? Plain::print(os) : Args::print(os);
                std::istringstream is(os.str());
                std::string l;
                std::vector<std::string> v;
                std::getline(is, l);
                std::size_t cnt = b == "Plain" ? Plain::size() : Args::size();
                if (l.find(b) == std::string::npos || l.find(std::to_string(cnt)) == std::string::npos) v.push_back("header: " + l);
                while (std::getline(is, l))
                {
                    auto p = l.find_first_not_of(" -");
                    v.push_back(p == std::string::npos ? l : l.substr(p));
                }
                return retVal(set(v));
            }
            if (n == "size") return retVal(tv("size_t", std::to_string(b == "Plain" ? Plain::size() : Args::size())));
            std::abort();
        });
    }
    static int open_null() { FILE* f = fopen("/dev/null", "r+"); return f ? fileno(f) : 2; }
    static J via(const std::string& s, const std::string& w)
    {
        return retVal(tv("str", s.rfind(w + " of", 0) == 0 ? w + "Via" + s.substr(w.size()) : s));
    }
    static J set(std::vector<std::string> v)
    {
        std::sort(v.begin(), v.end());
        J a = J::obj();
        for (std::size_t i = 0; i < v.size(); i++) a.set(i && v[i] == v[i - 1] ? v[i] + " twice" : v[i], J(true));
        J r = J::obj();
        r.set("t", "set").set("v", a);
        return r;
    }
    template<class B> J regJ()
    {
        auto e = B::entries();
        std::sort(e.begin(), e.end());
        auto via = BaseClassDocumentation::entries(B::name());
        std::sort(via.begin(), via.end());
        J a = set(e)["v"];
        if (via != e) a.set("!entries via the base name differ", J(true));
        if (B::size() != e.size() || B::table().size() != e.size() || B::docTable().size() != e.size()) a.set("!size", J(true));
        for (auto& s : e) if (!B::table().contains(s)) a.set("!table lacks " + s, J(true));
        return a;
    }
    J obs() override
    {
        J o = J::obj(), r = J::obj(), l = J::arr();
        r.set("Plain", regJ<Plain>()).set("Args", regJ<Args>());
        for (auto& s : log) l.add(J(s));
        o.set("reg", r).set("log", l);
        return o;
    }
};
int main()
{
    realErr = std::cerr.rdbuf();
    realOut = std::cout.rdbuf();
    return runDriver([&] { return std::make_unique<S>(); });
}
