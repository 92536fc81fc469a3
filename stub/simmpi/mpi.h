// In-process stand-in for MPI: several ranks live in one process; `simmpi::current` says which rank a
// call comes from. Messages move only when told to (simmpi::deliver / simmpi::buffer), or when a test
// has been repeated so often that the caller evidently waits. Matching is FIFO per (source,
// destination, tag, communicator), as MPI demands; a send completes when its data has been copied out.
#pragma once
#include <algorithm>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <vector>
#include <list>

typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; };
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_COMM_NULL (-1)
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_STATUSES_IGNORE ((MPI_Status*)nullptr)
#define MPI_SUCCESS 0
#define MPI_ERR_ARG 12
#define MPI_IN_PLACE ((void*)1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
enum { MPI_MAX = 100, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };
enum { MPI_CHAR = 200, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_WCHAR, MPI_SHORT, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_UNSIGNED_SHORT,
       MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_CXX_BOOL,
       MPI_CXX_FLOAT_COMPLEX, MPI_CXX_DOUBLE_COMPLEX, MPI_CXX_LONG_DOUBLE_COMPLEX };

namespace simmpi
{
inline int size = 1;
inline thread_local int current = 0;
inline bool threaded = false;     // ranks are threads (collectives)
inline int patience = 200;        // unsuccessful tests of one request before the network moves by itself

inline int typeSize(MPI_Datatype t)
{
    switch (t)
    {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: return 1;
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return sizeof(short);
    case MPI_INT: case MPI_UNSIGNED: return sizeof(int);
    case MPI_LONG: case MPI_UNSIGNED_LONG: return sizeof(long);
    case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return sizeof(long long);
    case MPI_FLOAT: return sizeof(float);
    case MPI_DOUBLE: return sizeof(double);
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_CXX_BOOL: return sizeof(bool);
    case MPI_CXX_FLOAT_COMPLEX: return sizeof(std::complex<float>);
    case MPI_CXX_DOUBLE_COMPLEX: return sizeof(std::complex<double>);
    case MPI_CXX_LONG_DOUBLE_COMPLEX: return sizeof(std::complex<long double>);
    }
    std::fprintf(stderr, "simmpi: invalid datatype %d\n", t);
    _exit(70);
}

struct Request
{
    bool send = false, done = false;
    int src = 0, dst = 0, tag = 0, comm = 0;
    std::size_t bytes = 0;
    char* buf = nullptr;            // the caller's memory
    std::vector<char> copy;         // a buffered send
    bool buffered = false;
    int tests = 0;
};
using Key = std::tuple<int, int, int, int>; // src, dst, tag, comm
struct Net
{
    std::map<int, Request> req;
    std::map<Key, std::list<int>> sends, recvs;
    int next = 0;
    void clear() { req.clear(); sends.clear(); recvs.clear(); next = 0; }
};
inline Net net;

inline bool deliver(const Key& k)
{
    auto &s = net.sends[k], &r = net.recvs[k];
    if (s.empty() || r.empty()) return false;
    Request &a = net.req[s.front()], &b = net.req[r.front()];
    if (a.bytes > b.bytes)
    {
        std::fprintf(stderr, "simmpi: message of %zu bytes truncated to %zu\n", a.bytes, b.bytes);
        _exit(71);
    }
    std::memcpy(b.buf, a.buffered ? a.copy.data() : a.buf, a.bytes);
    a.done = b.done = true;
    s.pop_front();
    r.pop_front();
    return true;
}
inline bool deliver(int src, int dst, int tag) { return deliver(Key {src, dst, tag, 0}); }
inline bool bufferOne(Request& a)
{
    if (a.buffered || a.done) return false;
    a.copy.assign(a.buf, a.buf + a.bytes);
    a.buffered = a.done = true;
    return true;
}
// the first send of the channel that still lives in the sender's memory
inline bool buffer(int src, int dst, int tag)
{
    for (int id : net.sends[Key {src, dst, tag, 0}])
        if (!net.req[id].done) return bufferOne(net.req[id]);
    return false;
}
// nothing is posted any more at dst for src
inline bool arrived(int src, int dst, int tag) { return net.recvs[Key {src, dst, tag, 0}].empty(); }
inline bool insist(int id)
{
    Request& r = net.req[id];
    Key k {r.src, r.dst, r.tag, r.comm};
    if (r.send)
    {
        if (net.sends[k].front() == id && deliver(k)) return true;
        return bufferOne(r);
    }
    while (!r.done && deliver(k)) {}
    if (r.done) return true;
    std::fprintf(stderr, "simmpi: rank %d waits for a message from %d that was never sent\n", current, r.src);
    _exit(72);
}
inline int post(bool send, void* buf, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request* out)
{
    if (peer < 0 || peer >= size || tag < 0 || tag > 32767 || n < 0 || c != MPI_COMM_WORLD) return MPI_ERR_ARG;
    if (out == nullptr) return MPI_ERR_ARG;
    Request r;
    r.send = send;
    r.src = send ? current : peer;
    r.dst = send ? peer : current;
    r.tag = tag;
    r.comm = c;
    r.bytes = std::size_t(n) * std::size_t(typeSize(t));
    r.buf = static_cast<char*>(buf);
    int id = net.next++;
    if (n == 0) r.done = true;
    else (send ? net.sends : net.recvs)[Key {r.src, r.dst, tag, c}].push_back(id);
    net.req[id] = r;
    *out = id;
    return MPI_SUCCESS;
}
inline bool finish(MPI_Request* q)
{
    if (!net.req[*q].done) return false;
    bool queued = false;
    for (auto& [k, l] : net.sends) for (int x : l) queued |= x == *q;
    if (!queued) net.req.erase(*q);
    *q = MPI_REQUEST_NULL;
    return true;
}

// ---- collectives between threads
struct Coll
{
    std::mutex m;
    std::condition_variable cv;
    int arrived = 0, round = 0;
    std::vector<char> acc, result;
    int n = 0;
    MPI_Datatype t = 0;
    MPI_Op op = 0;
};
inline Coll coll;
template<class T> void apply(MPI_Op op, T* a, const T* b, int n)
{
    for (int i = 0; i < n; i++)
    {
        if constexpr (std::is_arithmetic_v<T>)
        {
            if (op == MPI_MAX && !std::is_same_v<T, bool>) { a[i] = std::max(a[i], b[i]); continue; }
            if (op == MPI_MIN && !std::is_same_v<T, bool>) { a[i] = std::min(a[i], b[i]); continue; }
        }
        if constexpr (!std::is_same_v<T, bool>)
        {
            if (op == MPI_SUM) { a[i] = static_cast<T>(a[i] + b[i]); continue; }
            if (op == MPI_PROD) { a[i] = static_cast<T>(a[i] * b[i]); continue; }
        }
        if constexpr (std::is_integral_v<T>)
        {
            if (op == MPI_LAND) { a[i] = static_cast<T>(a[i] && b[i]); continue; }
            if (op == MPI_LOR) { a[i] = static_cast<T>(a[i] || b[i]); continue; }
            if constexpr (!std::is_same_v<T, bool>)
            {
                if (op == MPI_BAND) { a[i] = static_cast<T>(a[i] & b[i]); continue; }
                if (op == MPI_BOR) { a[i] = static_cast<T>(a[i] | b[i]); continue; }
            }
        }
        std::fprintf(stderr, "simmpi: operation %d is not defined for this datatype\n", op);
        _exit(73);
    }
}
inline void applyAny(MPI_Op op, MPI_Datatype t, void* a, const void* b, int n)
{
#define SIM_T(M, T) if (t == M) return apply<T>(op, static_cast<T*>(a), static_cast<const T*>(b), n);
    SIM_T(MPI_CHAR, char) SIM_T(MPI_SIGNED_CHAR, signed char) SIM_T(MPI_UNSIGNED_CHAR, unsigned char)
    SIM_T(MPI_WCHAR, wchar_t) SIM_T(MPI_SHORT, short) SIM_T(MPI_INT, int) SIM_T(MPI_LONG, long) SIM_T(MPI_LONG_LONG, long long)
    SIM_T(MPI_UNSIGNED_SHORT, unsigned short) SIM_T(MPI_UNSIGNED, unsigned) SIM_T(MPI_UNSIGNED_LONG, unsigned long)
    SIM_T(MPI_UNSIGNED_LONG_LONG, unsigned long long) SIM_T(MPI_FLOAT, float) SIM_T(MPI_DOUBLE, double)
    SIM_T(MPI_LONG_DOUBLE, long double) SIM_T(MPI_CXX_BOOL, bool) SIM_T(MPI_CXX_FLOAT_COMPLEX, std::complex<float>)
    SIM_T(MPI_CXX_DOUBLE_COMPLEX, std::complex<double>) SIM_T(MPI_CXX_LONG_DOUBLE_COMPLEX, std::complex<long double>)
#undef SIM_T
    _exit(74);
}
}

inline int MPI_Init(int*, char***) { return MPI_SUCCESS; }
inline int MPI_Init_thread(int*, char***, int want, int* got) { *got = want; return MPI_SUCCESS; }
inline int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
inline int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
inline int MPI_Finalize() { return MPI_SUCCESS; }
inline int MPI_Abort(MPI_Comm, int code) { _exit(code); }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = simmpi::current; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = simmpi::size; return MPI_SUCCESS; }
inline int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
    return simmpi::post(true, const_cast<void*>(b), n, t, dst, tag, c, q);
}
inline int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q)
{
    return simmpi::post(false, b, n, t, src, tag, c, q);
}
inline int MPI_Test(MPI_Request* q, int* flag, MPI_Status*)
{
    *flag = 1;
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    auto it = simmpi::net.req.find(*q);
    if (it == simmpi::net.req.end()) return MPI_ERR_ARG;
    if (!it->second.done && ++it->second.tests > simmpi::patience) simmpi::insist(*q);
    *flag = simmpi::finish(q);
    return MPI_SUCCESS;
}
inline int MPI_Wait(MPI_Request* q, MPI_Status*)
{
    if (*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
    if (!simmpi::net.req[*q].done) simmpi::insist(*q);
    simmpi::finish(q);
    return MPI_SUCCESS;
}
inline int MPI_Waitall(int n, MPI_Request* q, MPI_Status*)
{
    for (int i = 0; i < n; i++) MPI_Wait(q + i, MPI_STATUS_IGNORE);
    return MPI_SUCCESS;
}
inline int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status*)
{
    *flag = 1;
    for (int i = 0; i < n; i++)
    {
        if (q[i] == MPI_REQUEST_NULL) continue;
        auto& r = simmpi::net.req[q[i]];
        if (!r.done && ++r.tests > simmpi::patience) simmpi::insist(q[i]);
        if (!r.done) *flag = 0;
    }
    if (*flag)
        for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) simmpi::finish(q + i);
    return MPI_SUCCESS;
}
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
{
    using namespace simmpi;
    std::unique_lock l(coll.m);
    std::size_t bytes = std::size_t(n) * std::size_t(typeSize(t));
    const char* src = static_cast<const char*>(in == MPI_IN_PLACE ? out : in);
    int round = coll.round;
    if (coll.arrived == 0)
    {
        coll.acc.assign(src, src + bytes);
        coll.n = n; coll.t = t; coll.op = op;
    }
    else
    {
        if (coll.n != n || coll.t != t || coll.op != op)
        {
            std::fprintf(stderr, "simmpi: ranks call different reductions\n");
            _exit(75);
        }
        applyAny(op, t, coll.acc.data(), src, n);
    }
    if (++coll.arrived == (threaded ? size : 1))
    {
        coll.result = coll.acc;
        coll.arrived = 0;
        coll.round++;
        coll.cv.notify_all();
    }
    else coll.cv.wait(l, [&] { return coll.round != round; });
    std::memcpy(out, coll.result.data(), bytes);
    return MPI_SUCCESS;
}
inline int MPI_Barrier(MPI_Comm) { return MPI_SUCCESS; }
