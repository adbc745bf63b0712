// Histories of the static memory allocator: shared by the placement (C20) and accounting (C21) properties.
#pragma once
#include "engine.hpp"
#include <climits>
#include <dstruct.hpp>
namespace vp {
struct SmaBlock { int n; unsigned char pat; };
// where the pool lives: learnt once per process from a child that takes the whole pool
template <class A, int SIZE> static char *pool_base() {
    static char *base = nullptr; static bool done = false;
    if (!done) {
        done = true; int fd[2]; if (pipe(fd)) return nullptr;
        pid_t p = fork();
        if (p == 0) { char *b = (char *)A::allocate(SIZE); (void)!write(fd[1], &b, sizeof b); _exit(0); }
        close(fd[1]); if (read(fd[0], &base, sizeof base) != sizeof base) base = nullptr; close(fd[0]); int st; waitpid(p, &st, 0);
    }
    return base;
}
template <int SIZE, int MAXB> struct Sma {
    typedef dstruct::StaticMemAllocator<SIZE, MAXB> A;
    Ctx &c; bool acct; char *base; std::map<char *, SmaBlock> live; std::vector<char *> order; long used = 0; size_t allocs = 0, reuse = 0, merges = 0, frees = 0, refused = 0; unsigned char np = 1; uint32_t r; const char *who;
    Sma(Ctx &x, bool a, const char *w = "") : c(x), acct(a), base(pool_base<A, SIZE>()), r(x.hdr(3) | 1), who(w) { if (!base) c.fail("static allocator%s: a fresh pool of %d bytes does not supply %d bytes", who, SIZE, SIZE); }
    uint32_t rnd() { r = r * 1664525u + 1013904223u; return r >> 8; }
    static int up(int n) { return (n + 7) / 8 * 8; }
    void verify(char *p, const SmaBlock &b) { for (int i = 0; i < b.n; i++) if ((unsigned char)p[i] != (unsigned char)(b.pat + i * 31)) c.fail("static allocator%s: byte %d of a live block of %d bytes changed", who, i, b.n); }
    void verifyAll() { for (auto &b : live) verify(b.first, b.second); }
    void books(const char *what) {
        if (!acct) return;
        int f = A::free_mem_size(); if (f != SIZE - used) c.fail("static allocator: %s: free_mem_size() is %d, expected %ld (pool %d, live %ld)", what, f, SIZE - used, SIZE, used);
        int m = A::max_free_mblock_size(); if (m < 0 || m > f || (f > 0) != (m > 0)) c.fail("static allocator: %s: max_free_mblock_size() is %d with %d bytes free", what, m, f);
    }
    std::vector<int> runs() { std::vector<int> v; char *at = base; for (auto &b : live) { if (b.first > at) v.push_back((int)(b.first - at)); at = b.first + up(b.second.n); } if (at < base + SIZE) v.push_back((int)(base + SIZE - at)); std::sort(v.rbegin(), v.rend()); return v; }
    char *get(int n) {
        int mx = A::max_free_mblock_size(), fr = A::free_mem_size();
        char *p = (char *)A::allocate(n); allocs++;
        if (acct) {
            bool want = n > 0 && n <= mx;
            if (want != (p != nullptr)) c.fail("static allocator: a request of %d bytes %s although the largest free block reported is %d", n, p ? "succeeds" : "fails", mx);
            if (!p) { refused++; if (A::free_mem_size() != fr || A::max_free_mblock_size() != mx) c.fail("static allocator: a refused request of %d bytes changes the books", n); }
        }
        if (!p) return p;
        if (n <= 0) c.fail("static allocator%s: a request of %d bytes is granted", who, n);
        if ((uintptr_t)p % 8) c.fail("static allocator%s: a block is not aligned to 8 bytes", who);
        if (p < base || p + n > base + SIZE) c.fail("static allocator%s: a block of %d bytes lies %ld bytes from the start of the pool of %d", who, n, (long)(p - base), SIZE);
        auto it = live.lower_bound(p);
        if (it != live.end() && p + n > it->first) c.fail("static allocator%s: a block of %d bytes overlaps a live block of %d", who, n, it->second.n);
        if (it != live.begin()) { auto q = std::prev(it); if (q->first + q->second.n > p) c.fail("static allocator%s: a block of %d bytes overlaps a live block of %d", who, n, q->second.n); }
        SmaBlock b{n, np++}; for (int i = 0; i < n; i++) p[i] = (char)(b.pat + i * 31);
        live[p] = b; order.push_back(p); used += up(n); if (frees) reuse++;
        return p;
    }
    void put(size_t i) {
        char *p = order[i]; order.erase(order.begin() + i); SmaBlock b = live[p]; verify(p, b);
        bool ok = A::deallocate(p, b.n); if (acct && !ok) c.fail("static allocator: returning a live block is refused"); live.erase(p); used -= up(b.n); frees++;
    }
    void merge() { A::memory_merge(); merges++; }
    // after merging every free run is one block: take them all, longest first, then give them back
    void probe() {
        merge(); auto v = runs(); std::vector<char *> got;
        if (acct) { int m = A::max_free_mblock_size(), w = v.empty() ? 0 : v[0]; if (m != w) c.fail("static allocator: after merging the largest free block is %d, but the longest free run has %d bytes (%zu runs, %zu live blocks)", m, w, v.size(), live.size()); }
        for (int n : v) { char *p = (char *)A::allocate(n); if (acct && !p) c.fail("static allocator: after merging, a free run of %d bytes is not available as one block", n); if (p) { if (p < base || p + n > base + SIZE) c.fail("static allocator%s: block outside the pool", who); memset(p, 0xB7, n); got.push_back(p); } }
        if (acct && A::free_mem_size() != 0) c.fail("static allocator: free_mem_size() is %d with the whole pool handed out", A::free_mem_size());
        verifyAll(); for (size_t i = 0; i < got.size(); i++) { size_t k = v.size() > 1 && (rnd() & 1) ? i : i; A::deallocate(got[k], v[k]); }
        if (v.size() > 1) c.label("several free runs after a merge");
    }
    int pick(uint32_t a) { switch (a % 8) { case 0: return 1 + (int)(a / 8 % 8); case 1: return 1 + (int)(a / 8 % 32); case 2: return 1 + (int)(a / 8 % 160); case 3: return 8 * (1 + (int)(a / 8 % 20)); case 4: return MAXB - 8 + (int)(a / 8 % 24); case 5: return 1 + (int)(a / 8 % (SIZE / 2)); case 6: return 1 + (int)(a / 8 % (SIZE / 8 + 1)); default: return 120 + (int)(a / 8 % 80); } }
    enum { ALLOC, ALLOCMAX, ALLOCOVER, ALLOCBAD, FREER, FREELIFO, FREEFIFO, FREEALT, FREEALL, MERGE, VERIFY, PROBE, FILL, BULK, CHURN, NOPS };
    static const std::vector<int> &w() { static const std::vector<int> v = {24, 2, 2, 2, 12, 4, 4, 2, 1, 3, 1, 2, 1, 2, 3}; return v; }
    void op(const Op &o) {
        size_t n = order.size();
        switch (o.code) {
        case ALLOC: { int k = pick(o.a); if (k < 1) k = 1; char *p = get(k); c.log("%sallocate %d -> %ld", who, k, p ? (long)(p - base) : -1L); break; }
        case ALLOCMAX: { int m = A::max_free_mblock_size(); int k = m - (int)(o.b % 9); if (k < 1) k = m; if (k < 1) break; char *p = get(k); c.log("%sallocate %d (largest is %d) -> %ld", who, k, m, p ? (long)(p - base) : -1L); break; }
        case ALLOCOVER: { int k = A::max_free_mblock_size() + 1 + (int)(o.b % 20); c.log("%sallocate %d (over the largest)", who, k); get(k); break; }
        case ALLOCBAD: { static const int bad[] = {0, -1, -8, INT_MIN, INT_MAX, INT_MAX - 7, SIZE + 1, SIZE + 8, -7, INT_MIN + 1}; int k = bad[o.b % 10]; c.log("%sallocate %d", who, k); char *p = (char *)A::allocate(k); if (p) c.fail("static allocator%s: a request of %d bytes is granted by a pool of %d", who, k, SIZE); refused++;
            if (acct) { // a return that names no block is refused, too
                int f = A::free_mem_size(), m = A::max_free_mblock_size(); char *q = order.empty() ? nullptr : order[o.a % n]; static const int nb[] = {0, -1, -8, INT_MIN};
                if (A::deallocate(nullptr, 1 + (int)(o.a % 200))) c.fail("static allocator: returning no address is accepted"); if (q && A::deallocate(q, nb[o.a / 8 % 4])) c.fail("static allocator: returning a block as one of %d bytes is accepted", nb[o.a / 8 % 4]);
                if (A::free_mem_size() != f || A::max_free_mblock_size() != m) c.fail("static allocator: a refused return changes the books");
                int z = (int)(o.a >> 3 & 0xfffff); int u = A::MEM_ALIGN_ROUND_UP(z); if (u < z || u >= z + 8 || u % 8) c.fail("static allocator: %d bytes are rounded up to %d", z, u);
            } break; }
        case FREER: if (n) { size_t i = o.b % n; c.log("%sreturn block %ld (%d)", who, (long)(order[i] - base), live[order[i]].n); put(i); } break;
        case FREELIFO: if (n) { c.log("%sreturn newest block %ld", who, (long)(order[n - 1] - base)); put(n - 1); } break;
        case FREEFIFO: if (n) { c.log("%sreturn oldest block %ld", who, (long)(order[0] - base)); put(0); } break;
        case FREEALT: { c.log("%sreturn every other block", who); std::vector<char *> v; size_t k = 0; for (auto &b : live) if (((k++) ^ o.b) & 1) v.push_back(b.first); if (o.b & 2) std::reverse(v.begin(), v.end()); for (char *p : v) put(std::find(order.begin(), order.end(), p) - order.begin()); break; }
        case FREEALL: { c.log("%sreturn all %zu blocks", who, n); while (!order.empty()) put(o.b & 1 ? order.size() - 1 : o.b & 2 ? 0 : rnd() % order.size()); break; }
        case MERGE: { c.log("%smerge", who); int f = A::free_mem_size(), m = A::max_free_mblock_size(); merge(); if (acct) { if (A::free_mem_size() != f) c.fail("static allocator: merging changes the free size from %d to %d", f, A::free_mem_size()); int m2 = A::max_free_mblock_size(); auto v = runs(); int w = v.empty() ? 0 : v[0]; if (m2 != w) c.fail("static allocator: after merging the largest free block is %d, but the longest free run has %d bytes (%zu live blocks)", m2, w, live.size()); if (m2 < m) c.fail("static allocator: merging shrinks the largest free block"); } break; }
        case VERIFY: verifyAll(); break;
        case PROBE: c.log("%smerge and probe all free runs", who); probe(); break;
        case FILL: { int k = pick(o.a); if (k < 1) k = 1; c.log("%sfill with blocks of %d", who, k); for (int i = 0; i < 1500 && get(k); i++) {} break; }
        case BULK: { int q = 2 + o.b % 40; c.log("%sallocate %d blocks", who, q); for (int i = 0; i < q; i++) { int k = pick(o.a + rnd() % (o.a & 1 ? 1000 : 1)); get(k < 1 ? 1 : k); } break; }
        case CHURN: { int q = 2 + o.b % 60; c.log("%schurn %d", who, q); for (int i = 0; i < q; i++) { if (!order.empty() && (rnd() & 1)) put(rnd() % order.size()); else { int k = pick(rnd()); get(k < 1 ? 1 : k); } } break; }
        }
        if (live.size() <= 40 || (c.eff & 15) == 0) verifyAll();
        books("after an operation");
        if (acct && (live.size() < 60 || (c.eff & 7) == 0)) A::dump(); // the allocator's own audit stops the program when its lists do not add up
        c.did((uint64_t)o.code << 40 ^ o.a ^ o.b << 8);
    }
    void finish() {
        verifyAll(); while (!order.empty()) put(rnd() % order.size()); books("after returning everything");
        merge(); books("after the final merge");
        if (acct && A::max_free_mblock_size() != SIZE) c.fail("static allocator: with everything returned and merged the largest free block is %d of %d", A::max_free_mblock_size(), SIZE);
        char *p = get(SIZE); if (acct && p != base) c.fail("static allocator: the whole pool is not available again"); if (p) put(0);
    }
    static Suite suite(const char *name, bool acct, int share) {
        Suite s; s.name = name; s.weights = w(); s.share = share; s.isolated = true; s.maxLen = 400; pool_base<A, SIZE>();
        s.run = [=](Ctx &c) { Sma m(c, acct); if (SIZE > 1000000 && c.hdr(2) % 32) return; size_t k = 0; for (auto &o : c.c->ops) { if (SIZE > 1000000 && k++ >= 60) break; m.op(o); } m.finish(); if (m.allocs >= 8 && m.frees >= 3 && m.reuse >= 2) c.interesting("eight requests, three returns, memory used again"); if (m.merges >= 2) c.label("two or more merges"); if (m.refused) c.label("a request was refused"); };
        return s;
    }
};
} // namespace vp
