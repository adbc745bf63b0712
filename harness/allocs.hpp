// Allocators with an oracle inside.
#pragma once
#include "elems.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#endif
#ifdef VP_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif

namespace vp {

// every block recorded; must come back once, whole, with the size it was asked for
struct TrackState {
    std::unordered_map<void *, int> blk; uint64_t allocs = 0, frees = 0; long bytes = 0, peak = 0; bool strict = true; uint64_t failAt = 0, refused = 0;
    void reset() { for (auto &b : blk) free(b.first); blk.clear(); allocs = frees = 0; bytes = peak = 0; failAt = refused = 0; }
};
template <int TAG> struct TrackAlloc {
    static TrackState &st() { static TrackState s; return s; }
    static void *allocate(int n) {
        TrackState &s = st();
        if (n <= 0) gfail("allocation of a non-positive number of bytes requested", nullptr, n);
        s.allocs++;
        if (s.failAt && s.allocs >= s.failAt) { s.refused++; return nullptr; }
        void *p = malloc(n); if (!p) abort();
        memset(p, 0xCB, n); s.blk[p] = n; s.bytes += n; if (s.bytes > s.peak) s.peak = s.bytes;
        return p;
    }
    static void deallocate(void *p, int n) {
        TrackState &s = st();
        auto it = s.blk.find(p);
        if (it == s.blk.end()) gfail("memory returned to the allocator that it never handed out, or returned twice", p, n);
        if (it->second != n) { long had = it->second; if (g_ctx) g_ctx->fail("memory returned with the wrong size: allocated %ld bytes, returned as %d", had, n); abort(); }
        s.frees++; s.bytes -= n; s.blk.erase(it); memset(p, 0xDB, n); free(p);
    }
};

// contiguous arena: successive blocks are adjacent in memory (ascending or descending),
// nothing is reused within a case, everything not handed out is poisoned
template <int DIR> struct ArenaAlloc {
    static const size_t SZ = 24u << 20;
    struct St { char *base = nullptr; size_t lo = 0, hi = 0; std::unordered_map<void *, int> blk; };
    static St &st() { static St s; return s; }
    static void reset() {
        St &s = st();
        if (!s.base) { s.base = (char *)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ASAN_POISON_MEMORY_REGION(s.base, SZ); }
        size_t used = DIR > 0 ? s.lo : SZ - s.hi; if (s.hi == 0) used = 0;
        if (used) ASAN_POISON_MEMORY_REGION(DIR > 0 ? s.base : s.base + s.hi, used);
        s.lo = 0; s.hi = SZ; s.blk.clear();
    }
    static void *allocate(int n) {
        St &s = st(); if (!s.base) reset();
        if (n <= 0) gfail("allocation of a non-positive number of bytes requested", nullptr, n);
        size_t r = ((size_t)n + 7) & ~(size_t)7;
        if (s.hi - s.lo < r) gfail("harness arena exhausted: memory use is out of proportion to the content", nullptr, n);
        char *p; if (DIR > 0) { p = s.base + s.lo; s.lo += r; } else { s.hi -= r; p = s.base + s.hi; }
        ASAN_UNPOISON_MEMORY_REGION(p, n); memset(p, 0xCB, n); s.blk[p] = n; return p;
    }
    static void deallocate(void *p, int n) {
        St &s = st(); auto it = s.blk.find(p);
        if (it == s.blk.end() || it->second != n) gfail("memory returned twice, foreign, or with the wrong size", p, n);
        s.blk.erase(it); memset(p, 0xDB, n); ASAN_POISON_MEMORY_REGION(p, n);
    }
};

// fixed-size recycling allocator: hands freed blocks out again immediately (LIFO),
// so a stale pointer sees somebody else's data at once
struct LifoAlloc {
    static std::map<int, std::vector<void *>> &fl() { static std::map<int, std::vector<void *>> f; return f; }
    static void *allocate(int n) {
        if (n <= 0) gfail("allocation of a non-positive number of bytes requested", nullptr, n);
        auto &v = fl()[n]; if (!v.empty()) { void *p = v.back(); v.pop_back(); ASAN_UNPOISON_MEMORY_REGION(p, n); return p; }
        void *p = malloc(n); if (!p) abort(); memset(p, 0xCB, n); return p;
    }
    static void deallocate(void *p, int n) { fl()[n].push_back(p); ASAN_POISON_MEMORY_REGION(p, n); }
};
static inline void reset_allocs() {
    TrackAlloc<0>::st().reset(); ArenaAlloc<1>::reset(); ArenaAlloc<-1>::reset();
}

// direct use of malloc by the library (ASan builds): counts between arm() and disarm()
struct MallocWatch {
    static bool &on() { static bool b = false; return b; }
    static std::unordered_map<const volatile void *, size_t> &out() { static auto *m = new std::unordered_map<const volatile void *, size_t>; return *m; }
    static uint64_t &cnt() { static uint64_t c = 0; return c; }
#ifdef VP_ASAN
    static void m(const volatile void *p, size_t n) { if (!on()) return; on() = false; out()[p] = n; cnt()++; on() = true; }
    static void f(const volatile void *p) { if (!on() || !p) return; on() = false; out().erase(p); on() = true; }
    static void install() { static bool done = false; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(m, f); } }
#else
    static void install() {}
#endif
};
struct Watch { Watch() { MallocWatch::install(); MallocWatch::on() = true; } ~Watch() { MallocWatch::on() = false; } };

} // namespace vp
