// Shared by the drivers of the Kokkos-dependent part.
#pragma once
#include "driver.hpp"
#include <Kokkos_Core.hpp>
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/fields/field.hpp"
#include <cmath>
#include <sys/wait.h>

namespace nf = NeoFOAM;

inline nf::Executor execOf(const std::string& n)
{
    if (n == "cpu") return nf::CPUExecutor {};
    if (n == "gpu") return nf::GPUExecutor {};
    return nf::SerialExecutor {};
}
inline std::string nameOf(const nf::Executor& e)
{
    if (std::holds_alternative<nf::CPUExecutor>(e)) return "cpu";
    if (std::holds_alternative<nf::GPUExecutor>(e)) return "gpu";
    return "serial";
}
// order in which a parallel kernel runs its iterations, as chosen by the specification's behaviour
inline void schedule(long long s)
{
    shim::control.order = static_cast<int>(s % 8);
    shim::control.chunks = static_cast<int>(1 + s / 8 % 5);
}
// a value of the code as the integer the specification uses; a value that is no integer is shown as text
inline J num(double d)
{
    if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < 1e15) return J(static_cast<long long>(d));
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    return J(std::string(b));
}
inline J num(nf::Vector v) // integer iff the components are (x, 2x, 3x); specification values are scalars
{
    if (v[1] == 2 * v[0] && v[2] == 3 * v[0]) return num(v[0]);
    char b[128];
    std::snprintf(b, sizeof b, "(%.17g %.17g %.17g)", v[0], v[1], v[2]);
    return J(std::string(b));
}
template<class I>
    requires std::integral<I>
J num(I i)
{
    return J(static_cast<long long>(i));
}
template<class T> T val(long long i) { return static_cast<T>(i); }
template<> inline nf::Vector val<nf::Vector>(long long i) { return nf::Vector(double(i), 2.0 * double(i), 3.0 * double(i)); }

template<class T>
J listOf(const nf::Field<T>& f)
{
    J r = J::arr();
    auto h = f.copyToHost();
    auto v = h.view();
    for (std::size_t i = 0; i < h.size(); i++) r.add(num(v.data()[i]));
    return r;
}
template<class T>
std::vector<T> vecOf(const J& a)
{
    std::vector<T> r;
    for (std::size_t i = 0; i < a.size(); i++) r.push_back(val<T>(a[i].num()));
    return r;
}
// how a call ends that may end the program: "" or "stopped" (reported error) / "threw" / "crashed"
template<class F>
std::string dying(F&& f)
{
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0)
    {
        try { f(); }
        catch (...) { _exit(3); }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? "stopped" : "crashed";
    int c = WEXITSTATUS(st);
    return c == 0 ? "" : c == 3 ? "threw" : c == 1 ? "stopped" : "crashed";
}
