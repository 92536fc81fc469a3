// Access recorder: implements the callbacks that -fsanitize=thread inserts before every load and
// store, and records what each iteration of a parallel kernel touches. Linked instead of the
// sanitizer's own runtime; compiled without instrumentation. Everything runs on one thread.
#include "racert.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <pthread.h>

namespace racert
{
bool recording = true;
static bool inKernel = false, inIter = false, busy = false;
static long iter = -1;
static const char* stackLow = nullptr;
static const char* frame = nullptr;
static const char* curKernel = "";
static std::vector<Access>* acc = nullptr; // accesses of the current kernel
std::vector<Launch> launches;
static std::string kernelName;

static void stackBounds()
{
    pthread_attr_t a;
    void* p;
    size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    stackLow = static_cast<const char*>(p);
}

static void note(const void* p, long size, int kind)
{
    if (!inIter || busy) return;
    const char* c = static_cast<const char*>(p);
    if (c >= stackLow && c < frame) return; // the iteration's own stack
    busy = true;
    for (long k = 0; k < size; ++k) acc->push_back({reinterpret_cast<uintptr_t>(c) + (uintptr_t)k, iter, kind});
    busy = false;
}

std::vector<Conflict> analyse(const std::vector<Access>& a)
{
    // per byte: the set of (iteration, strongest kind) kept small: what matters is whether two
    // iterations touched it and one of the touches is a plain write, or a plain read against a write
    struct S
    {
        long w = -1, r = -1, a = -1;           // an iteration that wrote / read plainly / wrote atomically
        bool w2 = false, r2 = false, a2 = false; // a second, different one did
    };
    std::unordered_map<uintptr_t, S> m;
    for (auto& x : a)
    {
        auto& s = m[x.addr];
        auto put = [&](long& f, bool& two)
        {
            if (f == -1) f = x.iter;
            else if (f != x.iter) two = true;
        };
        if (x.kind == Write) put(s.w, s.w2);
        else if (x.kind == Read) put(s.r, s.r2);
        else if (x.kind == AtomicWrite) put(s.a, s.a2);
    }
    std::vector<Conflict> r;
    for (auto& [p, s] : m)
    {
        const char* why = nullptr;
        if (s.w != -1 && s.w2) why = "two iterations write";
        else if (s.w != -1 && (s.r2 || (s.r != -1 && s.r != s.w))) why = "one iteration writes what another reads";
        else if (s.w != -1 && (s.a2 || (s.a != -1 && s.a != s.w))) why = "plain write against an atomic update";
        else if (s.a != -1 && (s.r2 || (s.r != -1 && s.r != s.a))) why = "plain read against an atomic update";
        if (why) r.push_back({p, why});
    }
    std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.addr < y.addr; });
    return r;
}
void reset() { launches.clear(); }
}

using namespace racert;
extern "C"
{
    void shim_kernel_begin(const char* name, void* f)
    {
        if (!recording) return;
        if (!stackLow) stackBounds();
        kernelName = name;
        frame = static_cast<const char*>(f);
        inKernel = true;
        delete acc;
        acc = new std::vector<Access>();
    }
    void shim_kernel_end()
    {
        if (!inKernel) return;
        inKernel = false;
        launches.push_back({kernelName, analyse(*acc), *acc});
    }
    void shim_iter_begin(long i)
    {
        if (!inKernel) return;
        iter = i;
        inIter = true;
    }
    void shim_iter_end() { inIter = false; }
    void shim_atomic(const void* p, long size, int write) { note(p, size, write ? AtomicWrite : AtomicRead); }
    void shim_freed(const void*, long) {}

    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(N)                                                                                      \
    void __tsan_read##N(void* p) { note(p, N, Read); }                                             \
    void __tsan_write##N(void* p) { note(p, N, Write); }                                           \
    void __tsan_unaligned_read##N(void* p) { note(p, N, Read); }                                   \
    void __tsan_unaligned_write##N(void* p) { note(p, N, Write); }                                 \
    void __tsan_volatile_read##N(void* p) { note(p, N, Read); }                                    \
    void __tsan_volatile_write##N(void* p) { note(p, N, Write); }                                  \
    void __tsan_read##N##_pc(void* p, void*) { note(p, N, Read); }                                 \
    void __tsan_write##N##_pc(void* p, void*) { note(p, N, Write); }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* p, unsigned long n) { note(p, (long)n, Read); }
    void __tsan_write_range(void* p, unsigned long n) { note(p, (long)n, Write); }
    void __tsan_vptr_update(void**, void*) {}
    void __tsan_vptr_read(void**) {}
#define AT(N, T)                                                                                   \
    T __tsan_atomic##N##_load(const volatile T* p, int) { note((const void*)p, N / 8, AtomicRead); return *p; } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); *p = v; } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; *p = (T)(o ^ v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { note((const void*)p, N / 8, AtomicWrite); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { note((const void*)p, N / 8, AtomicWrite); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) { note((const void*)p, N / 8, AtomicWrite); T o = *p; if (o == c) *p = v; return o; }
    AT(8, uint8_t)
    AT(16, uint16_t)
    AT(32, uint32_t)
    AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
}
