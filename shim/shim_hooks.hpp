// Controls of the Kokkos stand-in: which order the iterations of a kernel run in, what memory the
// host may touch, and what each iteration touches. One process-wide instance.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <map>
#include <mutex>
#include <numeric>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define SHIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SHIM_ASAN 1
#endif
#endif
#ifdef SHIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

#define SHIM_NOTRACE __attribute__((no_sanitize_thread))

extern "C"
{
    // provided by racert.cpp when a driver records memory accesses; otherwise absent
    void shim_kernel_begin(const char* name, void* frame) __attribute__((weak));
    void shim_kernel_end() __attribute__((weak));
    void shim_iter_begin(long i) __attribute__((weak));
    void shim_iter_end() __attribute__((weak));
    void shim_atomic(const void* p, long size, int write) __attribute__((weak));
    void shim_freed(const void* p, long size) __attribute__((weak));
}

namespace shim
{
struct Control
{
    int order = 0;          // 0 forward, 1 reverse, 2 odd first, >= 3 seeded shuffle
    int chunks = 3;         // partial results of a reduction or scan
    bool splitMemory = false; // device memory is inaccessible outside device kernels and copies
    bool poison = true;     // new memory is filled with a pattern
    long kernels = 0;       // launches so far
    long iterations = 0;
    int insideDevice = 0;
    std::vector<std::string>* log = nullptr;
    Control()
    {
        if (const char* e = std::getenv("SHIM_ORDER")) order = std::atoi(e);
        if (const char* e = std::getenv("SHIM_CHUNKS")) chunks = std::atoi(e);
        if (const char* e = std::getenv("SHIM_SPLIT")) splitMemory = std::atoi(e);
    }
};
inline Control control;

SHIM_NOTRACE inline std::vector<std::size_t> order(std::size_t n)
{
    std::vector<std::size_t> o(n);
    std::iota(o.begin(), o.end(), std::size_t(0));
    if (control.order == 1) std::reverse(o.begin(), o.end());
    else if (control.order == 2)
        std::stable_partition(o.begin(), o.end(), [](std::size_t i) { return i % 2 == 1; });
    else if (control.order >= 3)
    {
        uint64_t s = 0x9E3779B97F4A7C15ull * (uint64_t(control.order) + 7 * uint64_t(n));
        for (std::size_t i = n; i > 1; --i)
        {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            std::swap(o[i - 1], o[s % i]);
        }
    }
    return o;
}

// ---- device memory: one arena that the host cannot touch outside kernels; blocks are separated by
// ---- poisoned gaps (under AddressSanitizer) and reused only after a while
struct Block
{
    std::size_t size;
    std::size_t slot;
};
inline std::map<void*, Block>& blocks()
{
    static auto* b = new std::map<void*, Block>();
    return *b;
}
inline void poisoned(void* p, std::size_t n, bool on)
{
#ifdef SHIM_ASAN
    if (on) __asan_poison_memory_region(p, n);
    else __asan_unpoison_memory_region(p, n);
#else
    (void)p, (void)n, (void)on;
#endif
}
struct Arena
{
    static constexpr std::size_t room = std::size_t(1) << 33, gap = 64, quarantine = std::size_t(1) << 21;
    char* base = nullptr;
    std::size_t top = 0, open = 0; // bytes given out so far; bytes made accessible so far
    std::multimap<std::size_t, char*> free;
    std::vector<std::pair<char*, std::size_t>> waiting;
    std::size_t waitingBytes = 0, firstWaiting = 0;
};
inline Arena& arena()
{
    static auto* a = new Arena();
    return *a;
}
SHIM_NOTRACE inline void protectAll(bool open)
{
    if (!control.splitMemory || arena().open == 0) return;
    mprotect(arena().base, arena().open, open ? PROT_READ | PROT_WRITE : PROT_NONE);
}
struct DeviceScope
{
    SHIM_NOTRACE DeviceScope()
    {
        if (control.insideDevice++ == 0) protectAll(true);
    }
    SHIM_NOTRACE ~DeviceScope()
    {
        if (--control.insideDevice == 0) protectAll(false);
    }
};
struct NoScope
{
};
SHIM_NOTRACE inline void* deviceAlloc(std::size_t n)
{
    Arena& a = arena();
    DeviceScope accessible;
    if (!a.base)
        a.base = static_cast<char*>(mmap(nullptr, Arena::room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::size_t slot = (std::max(n, std::size_t(1)) + Arena::gap + 63) / 64 * 64;
    char* p = nullptr;
    auto it = a.free.find(slot);
    if (it != a.free.end())
    {
        p = it->second;
        a.free.erase(it);
    }
    else
    {
        p = a.base + a.top;
        a.top += slot;
        if (a.top > Arena::room) abort();
        if (a.top > a.open)
        {
            a.open = std::min(Arena::room, (a.top + (std::size_t(1) << 16)) / 4096 * 4096);
            mprotect(a.base, a.open, PROT_READ | PROT_WRITE);
        }
    }
    poisoned(p, slot, true);
    poisoned(p, n, false);
    if (control.poison) std::memset(p, 0xFF, n);
    blocks()[p] = Block {n, slot};
    return p;
}
SHIM_NOTRACE inline void deviceFree(void* p)
{
    auto it = blocks().find(p);
    if (it == blocks().end()) abort();
    if (shim_freed) shim_freed(p, (long)it->second.size);
    Arena& a = arena();
    poisoned(p, it->second.slot, true);
    a.waiting.push_back({static_cast<char*>(p), it->second.slot});
    a.waitingBytes += it->second.slot;
    while (a.waitingBytes > Arena::quarantine && a.firstWaiting < a.waiting.size())
    {
        auto [q, slot] = a.waiting[a.firstWaiting++];
        a.waitingBytes -= slot;
        a.free.insert({slot, q});
    }
    if (a.firstWaiting > 4096)
    {
        a.waiting.erase(a.waiting.begin(), a.waiting.begin() + long(a.firstWaiting));
        a.firstWaiting = 0;
    }
    blocks().erase(it);
}
SHIM_NOTRACE inline std::map<void*, std::size_t>& hostSizes()
{
    static auto* b = new std::map<void*, std::size_t>();
    return *b;
}
SHIM_NOTRACE inline void* hostAlloc(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (control.poison) std::memset(p, 0xFF, n);
    hostSizes()[p] = n;
    return p;
}
SHIM_NOTRACE inline void hostFree(void* p)
{
    auto it = hostSizes().find(p);
    if (it == hostSizes().end()) abort(); // double free, or freed in another memory space
    if (shim_freed) shim_freed(p, (long)it->second);
    hostSizes().erase(it);
    std::free(p);
}
inline std::size_t liveBlocks() { return hostSizes().size() + blocks().size(); }
}
