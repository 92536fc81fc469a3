// Stand-in for the part of Kokkos that NeoFOAM uses. Kernels run their iterations one at a time, in
// an order chosen by shim::control; reductions and scans work on chunks, joined as Kokkos does.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <any>
#include <array>
#include <map>
#include <set>
#include <unordered_map>
#include <numeric>
#include <sstream>
#include <typeinfo>
#include <typeindex>
#include <stdexcept>
#include <chrono>
#include <thread>
#include <cassert>
#include <cstdint>
#include <iomanip>
#include <iterator>
#include <mutex>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <span>
#include <functional>
#include <concepts>
#include "shim_hooks.hpp"

#define KOKKOS_VERSION 40300
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_RELOCATABLE_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_IF_ON_HOST(x) x
#define KOKKOS_IF_ON_DEVICE(x)
#define KOKKOS_ASSERT(x)

namespace Kokkos
{
struct HostSpace
{
    using memory_space = HostSpace;
    static constexpr bool device = false;
};
struct ShimDeviceSpace
{
    using memory_space = ShimDeviceSpace;
    static constexpr bool device = true;
};

#define SHIM_SPACE(NAME, MEM)                                                                      \
    struct NAME                                                                                    \
    {                                                                                              \
        using execution_space = NAME;                                                              \
        using memory_space = MEM;                                                                  \
        using size_type = std::size_t;                                                             \
        static constexpr bool device = MEM::device;                                                \
        static const char* name() { return #NAME; }                                                \
        int concurrency() const { return 1; }                                                      \
        void fence(const std::string& = "") const {}                                               \
        friend bool operator==(const NAME&, const NAME&) { return true; }                          \
        friend bool operator!=(const NAME&, const NAME&) { return false; }                         \
    };
SHIM_SPACE(Serial, HostSpace)
SHIM_SPACE(Threads, HostSpace)
SHIM_SPACE(ShimDevice, ShimDeviceSpace)
#undef SHIM_SPACE
using OpenMP = Threads;
using DefaultHostExecutionSpace = Threads;
using DefaultExecutionSpace = ShimDevice;

template<unsigned M>
struct MemoryTraits
{
};
constexpr unsigned Unmanaged = 1;
using MemoryUnmanaged = MemoryTraits<1>;
struct LayoutRight
{
};
struct LayoutLeft
{
};

template<typename A, typename B>
using pair = std::pair<A, B>;
template<typename A, typename B>
auto make_pair(A a, B b)
{
    return std::pair<A, B>(a, b);
}

// ------------------------------------------------------------------ memory
template<typename Space>
inline constexpr bool is_device_space = Space::memory_space::device;

template<typename Space = DefaultExecutionSpace>
void* kokkos_malloc(const std::string&, std::size_t n)
{
    if constexpr (is_device_space<Space>) return shim::deviceAlloc(n);
    else return shim::hostAlloc(n);
}
template<typename Space = DefaultExecutionSpace>
void* kokkos_malloc(std::size_t n)
{
    return kokkos_malloc<Space>("", n);
}
template<typename Space = DefaultExecutionSpace>
void kokkos_free(void* p)
{
    if (p == nullptr) return;
    if constexpr (is_device_space<Space>) shim::deviceFree(p);
    else shim::hostFree(p);
}
template<typename Space = DefaultExecutionSpace>
void* kokkos_realloc(void* p, std::size_t n)
{
    void* q = kokkos_malloc<Space>(n);
    if (p)
    {
        std::size_t old;
        if constexpr (is_device_space<Space>) old = shim::blocks().at(p).size;
        else old = shim::hostSizes().at(p);
        {
            shim::DeviceScope open;
            std::memcpy(q, p, std::min(old, n));
        }
        kokkos_free<Space>(p);
    }
    return q;
}

template<typename... P>
struct shim_space
{
    using type = ShimDeviceSpace;
};
template<typename P0, typename... P>
struct shim_space<P0, P...> : shim_space<P...>
{
};
template<typename P0, typename... P>
    requires requires { typename P0::memory_space; }
struct shim_space<P0, P...>
{
    using type = typename P0::memory_space;
};

template<typename D, typename... P>
class View;
template<typename T, typename... P>
class View<T*, P...>
{
public:

    using value_type = T;
    using memory_space = typename shim_space<P...>::type;
    using HostMirror = View<T*, HostSpace>;
    View() = default;
    View(T* p, std::size_t n) : p_(p), n_(n) {}
    View(const std::string&, std::size_t n) : n_(n)
    {
        void* q = kokkos_malloc<memory_space>(n * sizeof(T));
        owner_ = std::shared_ptr<void>(q, [](void* x) { kokkos_free<memory_space>(x); });
        p_ = static_cast<T*>(q);
        shim::DeviceScope open;
        std::memset((void*)p_, 0, n * sizeof(T));
    }
    template<typename... Q>
    View(const View<std::remove_const_t<T>*, Q...>& o) : p_(o.data()), n_(o.size())
    {}
    T* data() const { return p_; }
    std::size_t size() const { return n_; }
    std::size_t extent(std::size_t) const { return n_; }
    T& operator()(std::size_t i) const { return p_[i]; }
    T& operator[](std::size_t i) const { return p_[i]; }

private:

    T* p_ = nullptr;
    std::size_t n_ = 0;
    std::shared_ptr<void> owner_;
};
template<typename T, typename... P, typename S, typename... Q>
SHIM_NOTRACE void deep_copy(const View<T*, P...>& dst, const View<S*, Q...>& src)
{
    if (dst.size() != src.size())
    {
        std::fprintf(stderr, "Kokkos::deep_copy extents of views don't match\n");
        std::abort();
    }
    if (dst.size() == 0) return;
    shim::DeviceScope open;
    if ((const void*)dst.data() != (const void*)src.data())
        std::memcpy((void*)dst.data(), (const void*)src.data(), dst.size() * sizeof(T));
}
template<typename T, typename... P>
    requires(!std::is_const_v<T>)
void deep_copy(const View<T*, P...>& dst, const T& v)
{
    shim::DeviceScope open;
    for (std::size_t i = 0; i < dst.size(); ++i) dst.data()[i] = v;
}
template<typename E, typename A, typename B>
void deep_copy(const E&, const A& a, const B& b)
{
    deep_copy(a, b);
}
template<typename T, typename... P>
View<T*, HostSpace> create_mirror_view(const View<T*, P...>& v)
{
    return View<T*, HostSpace>("mirror", v.size());
}

// ------------------------------------------------------------------ policies
template<typename T>
struct IndexType
{
    using index = T;
};
enum class ScheduleTag
{
    Static,
    Dynamic
};
template<typename S>
struct Schedule
{
};
struct Static
{
};
struct Dynamic
{
};

template<typename... P>
struct shim_exec
{
    using type = DefaultExecutionSpace;
};
template<typename P0, typename... P>
struct shim_exec<P0, P...> : shim_exec<P...>
{
};
template<typename P0, typename... P>
    requires requires { typename P0::execution_space; }
struct shim_exec<P0, P...>
{
    using type = P0;
};

template<typename... P>
class RangePolicy
{
public:

    using execution_space = typename shim_exec<P...>::type;
    using member_type = std::size_t;
    using index_type = std::size_t;
    RangePolicy() = default;
    template<typename A, typename B>
        requires std::integral<A> && std::integral<B>
    RangePolicy(A b, B e)
        : b_(static_cast<std::size_t>(b)), e_(static_cast<std::size_t>(e))
    {}
    template<typename A, typename B>
    RangePolicy(const execution_space&, A b, B e) : RangePolicy(b, e)
    {}
    std::size_t begin() const { return b_; }
    std::size_t end() const { return e_; }

private:

    std::size_t b_ = 0, e_ = 0;
};

template<typename Space>
inline constexpr bool shim_parallel = !std::is_same_v<Space, Serial>;

template<typename Space>
struct shim_launch
{
    std::conditional_t<Space::device, shim::DeviceScope, shim::NoScope> scope;
    SHIM_NOTRACE shim_launch(const std::string& n, void* frame)
    {
        ++shim::control.kernels;
        if (shim::control.log) shim::control.log->push_back(n);
        if (shim_parallel<Space> && shim_kernel_begin) shim_kernel_begin(n.c_str(), frame);
    }
    SHIM_NOTRACE ~shim_launch()
    {
        if (shim_parallel<Space> && shim_kernel_end) shim_kernel_end();
    }
};
struct shim_iter
{
    bool on;
    SHIM_NOTRACE shim_iter(bool o, std::size_t i) : on(o && shim_iter_begin)
    {
        ++shim::control.iterations;
        if (on) shim_iter_begin((long)i);
    }
    SHIM_NOTRACE ~shim_iter()
    {
        if (on) shim_iter_end();
    }
};

template<typename F>
SHIM_NOTRACE inline std::vector<std::pair<std::size_t, std::size_t>> shim_chunks(F b, F e)
{
    std::vector<std::pair<std::size_t, std::size_t>> r;
    if (e <= b) return r;
    std::size_t n = e - b, k = std::max<std::size_t>(1, std::min<std::size_t>(n, shim::control.chunks));
    for (std::size_t c = 0; c < k; ++c) r.emplace_back(b + n * c / k, b + n * (c + 1) / k);
    return r;
}

// ------------------------------------------------------------------ parallel_for
template<typename... P, typename F>
SHIM_NOTRACE __attribute__((noinline)) void
parallel_for(const std::string& name, const RangePolicy<P...>& p, const F& f)
{
    using Space = typename RangePolicy<P...>::execution_space;
    shim_launch<Space> l(name, __builtin_frame_address(0));
    if (p.end() <= p.begin()) return;
    if constexpr (!shim_parallel<Space>)
    {
        for (std::size_t i = p.begin(); i < p.end(); ++i) f(i);
    }
    else
    {
        for (auto i : shim::order(p.end() - p.begin()))
        {
            shim_iter it(true, i);
            f(p.begin() + i);
        }
    }
}
template<typename... P, typename F>
void parallel_for(const RangePolicy<P...>& p, const F& f)
{
    parallel_for(std::string(), p, f);
}
template<typename F>
void parallel_for(const std::string& n, std::size_t k, const F& f)
{
    parallel_for(n, RangePolicy<>(std::size_t(0), k), f);
}
template<typename F>
void parallel_for(std::size_t k, const F& f)
{
    parallel_for(std::string(), RangePolicy<>(std::size_t(0), k), f);
}

// ------------------------------------------------------------------ reducers
template<typename T, typename Enable = void>
struct is_reducer : std::false_type
{
};
template<typename T>
struct is_reducer<T, std::void_t<typename T::shim_reducer>> : std::true_type
{
};
template<typename T>
inline constexpr bool is_reducer_v = is_reducer<T>::value;
template<typename T>
struct reduction_identity
{
    static T sum() { return T {}; }
    static T prod() { return T(1); }
    static T max() { return std::numeric_limits<T>::lowest(); }
    static T min() { return std::numeric_limits<T>::max(); }
    static T land() { return T(1); }
    static T lor() { return T(0); }
};
#define SHIM_REDUCER(NAME, IDENT, JOIN)                                                            \
    template<typename T, typename Space = HostSpace>                                               \
    class NAME                                                                                     \
    {                                                                                              \
    public:                                                                                        \
                                                                                                   \
        using shim_reducer = void;                                                                 \
        using reducer = NAME;                                                                      \
        using value_type = std::remove_cv_t<T>;                                                    \
        NAME(value_type& v) : v_(&v) {}                                                            \
        void join(value_type& a, const value_type& b) const { JOIN; }                              \
        void init(value_type& a) const { a = reduction_identity<value_type>::IDENT(); }            \
        value_type& reference() const { return *v_; }                                              \
        bool references_scalar() const { return true; }                                            \
                                                                                                   \
    private:                                                                                       \
                                                                                                   \
        value_type* v_;                                                                            \
    };
SHIM_REDUCER(Sum, sum, a += b)
SHIM_REDUCER(Prod, prod, a *= b)
SHIM_REDUCER(Max, max, if (b > a) a = b)
SHIM_REDUCER(Min, min, if (b < a) a = b)
SHIM_REDUCER(LAnd, land, a = a && b)
SHIM_REDUCER(LOr, lor, a = a || b)
#undef SHIM_REDUCER

template<typename... P, typename F, typename R>
SHIM_NOTRACE __attribute__((noinline)) void
parallel_reduce(const std::string& name, const RangePolicy<P...>& p, const F& f, R&& result)
{
    using Space = typename RangePolicy<P...>::execution_space;
    shim_launch<Space> l(name, __builtin_frame_address(0));
    using RT = std::remove_cv_t<std::remove_reference_t<R>>;
    if constexpr (is_reducer<RT>::value)
    {
        using V = typename RT::value_type;
        V total;
        result.init(total);
        auto ch = shim_chunks(p.begin(), p.end());
        std::vector<V> part(ch.size());
        if constexpr (!shim_parallel<Space>)
        {
            for (std::size_t i = p.begin(); i < p.end(); ++i) f(i, total);
        }
        else
        {
            for (auto c : shim::order(ch.size()))
            {
                V acc;
                result.init(acc);
                for (std::size_t i = ch[c].first; i < ch[c].second; ++i)
                {
                    shim_iter it(true, i);
                    f(i, acc);
                }
                part[c] = acc;
            }
            for (auto c : shim::order(ch.size())) result.join(total, part[c]);
        }
        result.reference() = total;
    }
    else
    {
        RT total {};
        auto ch = shim_chunks(p.begin(), p.end());
        std::vector<RT> part(ch.size());
        if constexpr (!shim_parallel<Space>)
        {
            for (std::size_t i = p.begin(); i < p.end(); ++i) f(i, total);
        }
        else
        {
            for (auto c : shim::order(ch.size()))
            {
                RT acc {};
                for (std::size_t i = ch[c].first; i < ch[c].second; ++i)
                {
                    shim_iter it(true, i);
                    f(i, acc);
                }
                part[c] = acc;
            }
            for (auto c : shim::order(ch.size())) total += part[c];
        }
        result = total;
    }
}
template<typename... P, typename F, typename R>
void parallel_reduce(const RangePolicy<P...>& p, const F& f, R&& r)
{
    parallel_reduce(std::string(), p, f, std::forward<R>(r));
}
template<typename F, typename R>
void parallel_reduce(const std::string& n, std::size_t k, const F& f, R&& r)
{
    parallel_reduce(n, RangePolicy<>(std::size_t(0), k), f, std::forward<R>(r));
}
template<typename F, typename R>
void parallel_reduce(std::size_t k, const F& f, R&& r)
{
    parallel_reduce(std::string(), RangePolicy<>(std::size_t(0), k), f, std::forward<R>(r));
}

// ------------------------------------------------------------------ parallel_scan
template<typename M>
struct shim_scan_arg;
template<typename C, typename I, typename V, typename B>
struct shim_scan_arg<void (C::*)(I, V&, B) const>
{
    using type = V;
};
template<typename C, typename I, typename V, typename B>
struct shim_scan_arg<void (C::*)(I, V&, B)>
{
    using type = V;
};

template<typename V, typename Space, typename F>
SHIM_NOTRACE V shim_scan(std::size_t b, std::size_t e, const F& f)
{
    if constexpr (!shim_parallel<Space>)
    {
        V acc {};
        for (std::size_t i = b; i < e; ++i) f(i, acc, true);
        return acc;
    }
    else
    {
        auto ch = shim_chunks(b, e);
        std::vector<V> part(ch.size());
        for (auto c : shim::order(ch.size()))
        {
            V acc {};
            for (std::size_t i = ch[c].first; i < ch[c].second; ++i) f(i, acc, false);
            part[c] = acc;
        }
        V run {};
        std::vector<V> start(ch.size());
        for (std::size_t c = 0; c < ch.size(); ++c)
        {
            start[c] = run;
            run += part[c];
        }
        for (auto c : shim::order(ch.size()))
        {
            V acc = start[c];
            for (std::size_t i = ch[c].first; i < ch[c].second; ++i)
            {
                shim_iter it(true, i);
                f(i, acc, true);
            }
        }
        return run;
    }
}
template<typename... P, typename F>
SHIM_NOTRACE __attribute__((noinline)) void
parallel_scan(const std::string& name, const RangePolicy<P...>& p, const F& f)
{
    using Space = typename RangePolicy<P...>::execution_space;
    shim_launch<Space> l(name, __builtin_frame_address(0));
    using V = typename shim_scan_arg<decltype(&F::operator())>::type;
    shim_scan<V, Space>(p.begin(), p.end(), f);
}
template<typename... P, typename F, typename R>
SHIM_NOTRACE __attribute__((noinline)) void
parallel_scan(const std::string& name, const RangePolicy<P...>& p, const F& f, R& result)
{
    using Space = typename RangePolicy<P...>::execution_space;
    shim_launch<Space> l(name, __builtin_frame_address(0));
    result = shim_scan<R, Space>(p.begin(), p.end(), f);
}
template<typename... P, typename F>
void parallel_scan(const RangePolicy<P...>& p, const F& f)
{
    parallel_scan(std::string(), p, f);
}

// ------------------------------------------------------------------ atomics
#define SHIM_AT(p, w)                                                                              \
    if (shim_atomic) shim_atomic((const void*)(p), (long)sizeof(*p), w)
#define SHIM_ATOMIC_OP(NAME, EXPR)                                                                 \
    template<typename T>                                                                           \
    SHIM_NOTRACE inline T atomic_fetch_##NAME(T* p, const std::type_identity_t<T> v)               \
    {                                                                                              \
        SHIM_AT(p, 1);                                                                             \
        T old = *p;                                                                                \
        *p = (EXPR);                                                                               \
        return old;                                                                                \
    }                                                                                              \
    template<typename T>                                                                           \
    SHIM_NOTRACE inline T atomic_##NAME##_fetch(T* p, const std::type_identity_t<T> v)             \
    {                                                                                              \
        SHIM_AT(p, 1);                                                                             \
        T old = *p;                                                                                \
        *p = (EXPR);                                                                               \
        return *p;                                                                                 \
    }                                                                                              \
    template<typename T>                                                                           \
    SHIM_NOTRACE inline void atomic_##NAME(T* p, const std::type_identity_t<T> v)                  \
    {                                                                                              \
        SHIM_AT(p, 1);                                                                             \
        T old = *p;                                                                                \
        *p = (EXPR);                                                                               \
    }
SHIM_ATOMIC_OP(add, old + v)
SHIM_ATOMIC_OP(sub, old - v)
SHIM_ATOMIC_OP(mul, old* v)
SHIM_ATOMIC_OP(max, old < v ? v : old)
SHIM_ATOMIC_OP(min, v < old ? v : old)
#undef SHIM_ATOMIC_OP
template<typename T>
SHIM_NOTRACE inline void atomic_increment(T* p)
{
    SHIM_AT(p, 1);
    *p = static_cast<T>(*p + T(1));
}
template<typename T>
SHIM_NOTRACE inline void atomic_decrement(T* p)
{
    SHIM_AT(p, 1);
    *p = static_cast<T>(*p - T(1));
}
template<typename T>
inline void atomic_inc(T* p)
{
    atomic_increment(p);
}
template<typename T>
inline void atomic_dec(T* p)
{
    atomic_decrement(p);
}
template<typename T>
SHIM_NOTRACE inline void atomic_assign(T* p, const std::type_identity_t<T> v)
{
    SHIM_AT(p, 1);
    *p = v;
}
template<typename T>
SHIM_NOTRACE inline void atomic_store(T* p, const std::type_identity_t<T> v)
{
    SHIM_AT(p, 1);
    *p = v;
}
template<typename T>
SHIM_NOTRACE inline T atomic_load(T* p)
{
    SHIM_AT(p, 0);
    return *p;
}
template<typename T>
SHIM_NOTRACE inline T atomic_exchange(T* p, const std::type_identity_t<T> v)
{
    SHIM_AT(p, 1);
    T old = *p;
    *p = v;
    return old;
}
template<typename T>
SHIM_NOTRACE inline T
atomic_compare_exchange(T* p, const std::type_identity_t<T> c, const std::type_identity_t<T> v)
{
    SHIM_AT(p, 1);
    T old = *p;
    if (old == c) *p = v;
    return old;
}
#undef SHIM_AT

// ------------------------------------------------------------------ maths and the rest
using std::abs;
using std::ceil;
using std::cos;
using std::exp;
using std::fabs;
using std::floor;
using std::fmax;
using std::fmin;
using std::isfinite;
using std::isnan;
using std::log;
using std::max;
using std::min;
using std::pow;
using std::sin;
using std::sqrt;
using std::swap;
template<typename T>
constexpr const T& clamp(const T& v, const T& a, const T& b)
{
    return v < a ? a : (b < v ? b : v);
}
template<typename T, std::size_t N>
using Array = std::array<T, N>;

template<typename... A>
void printf(const char* f, A... a)
{
    std::printf(f, a...);
}
[[noreturn]] inline void abort(const char* m)
{
    std::cerr << m << std::endl;
    std::abort();
}
inline void fence(const std::string& = "") {}
inline int device_id() { return 0; }
inline int num_threads() { return 1; }
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
inline bool is_initialized() { return true; }
struct ScopeGuard
{
    template<typename... A>
    ScopeGuard(A&&...)
    {}
};
namespace Experimental
{
using Kokkos::num_threads;
}
}
