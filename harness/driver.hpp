// Common main loop of the replay drivers: one JSON behaviour per input line, one JSON answer per step.
#pragma once
#include "json.hpp"
#include <any>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <unistd.h>

inline J okv() { J v = J::obj(); v.set("t", "unit").set("v", ""); return v; }
inline J ret(const std::string& e, const J& v) { J r = J::obj(); r.set("e", e).set("v", v); return r; }
inline J retOk() { return ret("", okv()); }
inline J retVal(const J& v) { return ret("", v); }
inline J tv(const std::string& t, const std::string& v) { J x = J::obj(); x.set("t", t).set("v", v); return x; }
inline J retBool(bool b) { return retVal(tv("bool", b ? "true" : "false")); }

// captures std::cerr / std::cout while alive
struct Capture
{
    std::ostringstream err, out;
    std::streambuf *e, *o;
    Capture() : e(std::cerr.rdbuf(err.rdbuf())), o(std::cout.rdbuf(out.rdbuf())) {}
    ~Capture() { std::cerr.rdbuf(e); std::cout.rdbuf(o); }
};

// the class of error a call ended with
template<class F>
J guarded(F&& f)
{
    try { return f(); }
    catch (const std::out_of_range&) { return ret("out_of_range", okv()); }
    catch (const std::bad_any_cast&) { return ret("bad_any_cast", okv()); }
    catch (const std::bad_cast&) { return ret("bad_cast", okv()); }
    catch (const std::runtime_error& e) { return ret("runtime_error", okv()); }
    catch (const std::exception& e) { return ret(std::string("exception"), okv()); }
    catch (...) { return ret("unknown", okv()); }
}

inline Capture* capture = nullptr; // what the current step writes

struct Session
{
    virtual ~Session() = default;
    virtual J step(const J& op) = 0; // result of the call
    virtual J obs() = 0;             // projected state after the call
};

inline int runDriver(const std::function<std::unique_ptr<Session>()>& make)
{
    std::string line;
    std::ostream real(std::cout.rdbuf());
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        J b = J::parse(line);
        auto s = make();
        long long id = b["b"].num();
        const J& ops = b["ops"];
        for (std::size_t i = 0; i < ops.size(); i++)
        {
            J r, x;
            {
                Capture c;
                capture = &c;
                r = s->step(ops[i]);
                capture = nullptr;
            }
            x = s->obs();
            J o = J::obj();
            o.set("b", id).set("i", i).set("r", r).set("x", x);
            real << o.dump() << "\n";
            real.flush();
        }
        {
            Capture c;
            s.reset();
        }
        J e = J::obj();
        e.set("end", id);
        real << e.dump() << "\n";
        real.flush();
    }
    return 0;
}
