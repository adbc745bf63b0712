// PARTS: 5
// FUZZ: no
#if VP_PART >= 2
#define ENABLE_SMA
#endif
#define VP_NO_GIANT
#if VP_PART == 4                       // the documented log and dump options of the static configuration
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
namespace vp { static unsigned long g_lines = 0, g_audits = 0; [[noreturn]] static inline void gfail(const char *what, const void *, long n);
static void logged(const char *f, ...) {
    g_lines++; char buf[512]; va_list v; va_start(v, f); vsnprintf(buf, sizeof buf, f, v); va_end(v); int x, y;
    const char *at = strstr(buf, "verify:"); if (at && sscanf(at, "verify: %d == %d", &x, &y) == 2) { g_audits++; if (x != y) gfail("default static memory: the dump finds another free size than the one accounted", nullptr, y); }
} }
#define ENABLE_SMA_LOG
#define ENABLE_SMA_DUMP
#define printf vp::logged
#include <dstruct.hpp>
#undef printf
#endif
#include "suts.hpp"
#include "sma.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
typedef dstruct::smemory::SMA SMA; static const int POOL = SMA_MEM_SIZE;
namespace sm = dstruct::smemory;

// histories kept small enough for the 10 KB pool of the smemory variants
template <class Ad, int LIM> static void small_run(Ctx &c) {
    using Obj = typename Ad::Obj; using Model = typename Ad::Model;
    reset_allocs(); g_life.reset(); Ad::reset();
    VP_CHECK(c, SMA::free_mem_size() == POOL, "harness: the pool is not pristine");
    { Env e(c); Model m[2]; Obj *o[2] = {nullptr, nullptr}; void *mem[2]; for (auto &p : mem) p = aligned_alloc(32, (sizeof(Obj) + 31) / 32 * 32);
      int nops = (int)Ad::ops().size(); size_t peak = 0, done = 0; unsigned kinds = 0; int used = 0;
      auto a0 = [](uint32_t a) { return a / 10 * 10 + a % 5; };        // small disjoint sets only
      o[0] = Ad::construct(e, mem[0], m[0], a0(c.hdr(2)));
      for (auto &op : c.c->ops) {
          int k = (op.b >> 20) & 1; Obj *&x = o[k], *&y = o[1 - k]; uint32_t b = op.b & 0xfffff; b = b / 16 * 16 + b % 6; bool ok = true;
          if (SMA::max_free_mblock_size() < 5000) SMA::memory_merge();
          if (op.code < nops) {
              if (!x) x = Ad::construct(e, mem[k], m[k], a0(op.a));
              const char *nm = Ad::ops()[op.code].name; if (strstr(nm, "(begin,end)")) b %= 20; if (LIM < 40 && strstr(nm, "bulk")) b = b / 16 * 16 + b % 3;
              if (Ad::msize(m[k]) > LIM && (strstr(nm, "push") || strstr(nm, "[]") || strstr(nm, "resize") || strstr(nm, "+=") || strstr(nm, "+"))) { ok = false; }
              else if (SMA::max_free_mblock_size() < 2400) ok = false;
              else { c.log("#%d.%s a=%u b=%u size=%zu free=%d", k, nm, op.a, b, (size_t)Ad::msize(m[k]), SMA::free_mem_size()); ok = Ad::apply(e, *x, m[k], op.code, strstr(nm, "new set") ? a0(op.a) : op.a, b); kinds |= 1u << (op.code % 32); }
          } else if (SMA::max_free_mblock_size() < 2400 && x) ok = false;
          else switch (op.code - nops) {
          case 0: if (!y) { ok = false; break; } c.log("#%d = copy", k); if constexpr (Ad::copyable) { if (x) *x = *(const Obj *)y; else x = new (mem[k]) Obj(*(const Obj *)y); m[k] = m[1 - k]; } break;
          case 1: if (!y || !Ad::reusable) { ok = false; break; } c.log("#%d = move", k); if (x) *x = static_cast<Obj &&>(*y); else x = new (mem[k]) Obj(static_cast<Obj &&>(*y)); m[k] = m[1 - k]; Ad::moved(m[1 - k]); break;
          case 2: if (!x) { ok = false; break; } c.log("destroy #%d", k); x->~Obj(); x = nullptr; m[k] = Model(); break;
          }
          if (!ok) { if (c.sh) c.sh->skippedOps++; continue; }
          done++; c.did((uint64_t)op.code << 40 ^ op.a);
          for (int i = 0; i < 2; i++) if (o[i]) { Ad::check(e, *o[i], m[i], 2); peak = std::max(peak, (size_t)Ad::msize(m[i])); }
          used = std::max(used, POOL - SMA::free_mem_size());
      }
      for (int i = 0; i < 2; i++) { if (o[i]) o[i]->~Obj(); free(mem[i]); }
      if (done >= 6 && __builtin_popcount(kinds) >= 3 && peak >= 3 && used > 0) c.interesting("history on the static pool"); }
    VP_CHECK(c, SMA::free_mem_size() == POOL, "static variant: %d bytes of the pool are still in use after every container is gone", POOL - SMA::free_mem_size());
    SMA::memory_merge(); VP_CHECK(c, SMA::max_free_mblock_size() == POOL, "static variant: the pool is not whole after every container is gone (largest block %d of %d)", SMA::max_free_mblock_size(), POOL);
}
template <class Ad, int LIM = 44> static Suite small(const char *n, int share = 1) { Suite s; s.name = n; s.run = small_run<Ad, LIM>; s.share = share; s.isolated = true; s.maxLen = 200; for (auto &o : Ad::ops()) s.weights.push_back(o.w); int t = 0; for (int x : s.weights) t += x; t = std::max(1, t / 20); s.weights.push_back(2 * t); s.weights.push_back(2 * t); s.weights.push_back(t); return s; }

// the smemory names themselves: memory comes from the pool and from nowhere else
template <class C> static void fill(C &x, int i) { x.push(i); }
template <> void fill(sm::String &x, int i) { x.push_back('a' + i % 26); }
template <> void fill(sm::BSTree<int> &x, int i) { x.push((i * 37) % 101); }
template <class C, class... Arg> static void alias_one(Ctx &c, const char *name, int n, Arg... arg) {
    VP_CHECK(c, SMA::free_mem_size() == POOL, "harness: pool not pristine before %s", name);
    { MallocWatch::out().clear(); uint64_t b = MallocWatch::cnt(); alignas(32) static char mem[2][sizeof(C)]; C *x, *y; { Watch w; x = new (mem[0]) C(arg...); for (int i = 0; i < n; i++) fill(*x, i); y = new (mem[1]) C(*x); }
      int used = POOL - SMA::free_mem_size(); VP_CHECK(c, used > 0, "smemory::%s takes nothing from the static pool while holding %d elements", name, n);
      { Watch w; x->~C(); y->~C(); } VP_CHECK(c, MallocWatch::cnt() == b, "smemory::%s requests heap memory", name); }
    VP_CHECK(c, SMA::free_mem_size() == POOL, "smemory::%s: %d bytes of the pool are still in use after its destruction", name, POOL - SMA::free_mem_size()); SMA::memory_merge();
}
template <> void fill(sm::UFSet &x, int i) { x.connect(i % 8, (i + 1) % 8); }
static void alias_run(Ctx &c) {
    for (auto &o : c.c->ops) { int n = 1 + o.b % 30; switch (o.code) {
        case 0: alias_one<sm::Vector<int>>(c, "Vector", n); break; case 1: alias_one<sm::String>(c, "String", n); break; case 2: alias_one<sm::SLinkedList<int>>(c, "SLinkedList", n); break; case 3: alias_one<sm::DLinkedList<int>>(c, "DLinkedList", n); break;
        case 4: alias_one<sm::Queue<int>>(c, "Queue", n); break; case 5: alias_one<sm::Deque<int>>(c, "Deque", n); break; case 6: alias_one<sm::PriorityQueue<int>>(c, "PriorityQueue", n); break; case 7: alias_one<sm::Stack<int>>(c, "Stack", n); break; case 8: alias_one<sm::MinStack<int>>(c, "MinStack", n); break; case 9: alias_one<sm::MaxStack<int>>(c, "MaxStack", n); break;
        case 10: alias_one<sm::MinHeap<int>>(c, "MinHeap", n); break; case 11: alias_one<sm::MaxHeap<int>>(c, "MaxHeap", n); break; case 12: alias_one<sm::BSTree<int>>(c, "BSTree", n); break; case 13: alias_one<sm::UFSet>(c, "UFSet", n, 8); break; } c.log("alias %d with %d elements", o.code, n); c.did(o.code * 77 + n); }
    if (c.c->ops.size() >= 3) c.interesting("three or more named variants");
}

#ifdef ENABLE_SMA
typedef dstruct::port::DefaultSMA DSMA; static int dpool() { static int n = DSMA::free_mem_size(); return n; }
static Hooks pool_hooks() {
    Hooks h; dpool();
    h.begin = [](Ctx &c) { VP_CHECK(c, DSMA::free_mem_size() == dpool(), "harness: default pool not pristine"); };
    h.end = [](Ctx &c) { int f = DSMA::free_mem_size(); VP_CHECK(c, f == dpool(), "default static memory: %d bytes are still in use after every container is gone", dpool() - f); DSMA::memory_merge(); VP_CHECK(c, DSMA::max_free_mblock_size() == dpool(), "default static memory: the pool is not whole after every container is gone"); };
    return h;
}
static const unsigned F = F_COPY | F_MOVE | F_RENEW;
template <class Ad> static Suite dflt(const char *n, int share = 1, unsigned f = F) { Suite s = Machine<Ad>::suite(n, f, R_OPS, share, pool_hooks(), 250); s.isolated = true; return s; }
// a fragmented default pool is merged before a request is given up
static void frag_run(Ctx &c) {
    typedef dstruct::Alloc A; const int P = 1024 * 1024; std::map<char *, int> live; std::vector<char *> order; uint32_t r = c.hdr(1) | 1; size_t big = 0;
    static char *base = nullptr; base = pool_base<DSMA, P>(); VP_CHECK(c, base && DSMA::free_mem_size() == P, "default static memory: a fresh pool does not supply its full size");
    auto up = [](int n) { return (n + 7) / 8 * 8; };
    auto get = [&](int n) { char *p = (char *)A::allocate(n); VP_CHECK(c, p && p >= base && p + n <= base + P && (uintptr_t)p % 8 == 0, "default static memory: block outside the pool or misaligned"); auto it = live.lower_bound(p); VP_CHECK(c, it == live.end() || p + n <= it->first, "default static memory: blocks overlap"); if (it != live.begin()) { --it; VP_CHECK(c, it->first + it->second <= p, "default static memory: blocks overlap"); } live[p] = n; order.push_back(p); memset(p, 0x77, n); };
    auto put = [&](size_t i) { char *p = order[i]; order[i] = order.back(); order.pop_back(); A::deallocate(p, live[p]); live.erase(p); };
    auto longest = [&] { char *at = base; long m = 0; for (auto &b : live) { m = std::max(m, (long)(b.first - at)); at = b.first + up(b.second); } return std::max(m, (long)(base + P - at)); };
    for (auto &o : c.c->ops) {
        switch (o.code) {
        case 0: { int s = 8 << (o.a % 14); s -= o.a / 16 % 8; int q = 1 + o.b % 200; for (int i = 0; i < q && longest() >= up(s) && live.size() < 3000; i++) { get(s); if ((i & 15) && longest() < 4 * s) break; } c.log("%d blocks of %d (%zu live)", q, s, live.size()); break; }
        case 1: { int s = 1 + o.a % 9000; if (longest() >= up(s)) get(s); c.log("one block of %d", s); break; }
        case 2: { size_t q = order.size() * (o.b % 4 + 1) / 5; for (size_t i = 0; i < q; i++) { r = r * 1664525u + 1013904223u; put((r >> 8) % order.size()); } c.log("%zu blocks returned at random", q); break; }
        case 3: { std::vector<char *> v; for (auto &b : live) v.push_back(b.first); size_t lo = v.empty() ? 0 : o.a % v.size(), q = 0; for (size_t i = lo; i < v.size() && q < 1 + o.b % 60; i++, q++) put(std::find(order.begin(), order.end(), v[i]) - order.begin()); c.log("%zu neighbouring blocks returned", q); break; }
        case 4: { long m = longest(); if (m < 8) break; int n = (int)m - (int)(o.b % 8); c.log("request for the longest free run: %d (largest block reported %d)", n, DSMA::max_free_mblock_size()); if (n > DSMA::max_free_mblock_size()) { big++; c.label("request that needs merging"); } get(n); break; }
        }
        c.did(o.code * 77 + o.a);
    }
    while (!order.empty()) put(order.size() - 1);
    VP_CHECK(c, DSMA::free_mem_size() == P, "default static memory: %d bytes lost", P - DSMA::free_mem_size());
    get(P); put(0); if (big) c.nontriv = 1;
}
#endif
template <class T> using DQ32 = dstruct::DoubleEndedQueue<T, 32, SMA>;
void define(Property &P) {
    P.id = "C22";
    P.rule = "every container's histories (with copies, moves and destructions) on the 10 KB pool of the smemory variants against the models the heap-backed containers are held to; the smemory names with heap requests watched; all containers with the default allocator configured to static memory; fragmentation histories on the default pool ending in requests for the longest free run; each case in its own process; non-trivial: at least 6 effective operations of 3 kinds with 3 elements held, or a request that needs merging";
    P.assumptions = {"histories are bounded so that the pool suffices", "element alignment is at most 8 bytes"};
    if (VP_PART < 0 || VP_PART < 2) (void)SMA::free_mem_size();
#ifndef ENABLE_SMA
    ADD0((small<VectorAd<int, SMA>>("static Vector<int>"))); ADD0((small<VectorAd<Str, SMA>, 20>("static Vector<Str>"))); ADD0((small<ListAd<sm::SLinkedList<int>>>("static SLinkedList<int>"))); ADD0((small<ListAd<sm::DLinkedList<Str>>, 20>("static DLinkedList<Str>"))); ADD0((small<DequeAd<int, 4, SMA>>("static Deque<int,4>"))); ADD0((small<DequeAd<int, 32, SMA>>("static Deque<int,32>"))); ADD0((small<QueueAd<int, DQ32<int>, true>>("static Queue<int>")));
    ADD0(Suite{"smemory names", alias_run, std::vector<int>(14, 1), 1, true, 40});
    ADD1((small<StackAd<int, sm::Vector<int>>>("static Stack<int>"))); ADD1((small<XStackAd<int, sm::MinStack<int>, 1>>("static MinStack<int>"))); ADD1((small<XStackAd<int, sm::MaxStack<int>, -1>>("static MaxStack<int>"))); ADD1((small<HeapAd<int, less<int>, SMA>>("static MinHeap<int>"))); ADD1((small<HeapAd<Str, greater<Str>, SMA>, 20>("static MaxHeap<Str>")));
    ADD1((small<TreeAd<sm::BSTree<int>>>("static BSTree<int>"))); ADD1((small<TreeAd<dstruct::AVLTree<int, less<int>, SMA>, true>>("static AVL<int>"))); ADD1((small<MapAd<int, int, less<int>, SMA>>("static Map<int,int>"))); ADD1((small<UFAd<SMA>>("static UFSet"))); ADD1((small<StringAd<SMA>>("static String")));
#else
    using dstruct::Alloc;
    ADD2((dflt<VectorAd<int, Alloc>>("default Vector<int>"))); ADD2((dflt<ListAd<dstruct::SLinkedList<int>>>("default SLinkedList<int>"))); ADD2((dflt<ListAd<dstruct::DLinkedList<Str>>>("default DLinkedList<Str>"))); ADD2((dflt<DequeAd<int, 8, Alloc>>("default Deque<int,8>"))); ADD2((dflt<QueueAd<int, dstruct::DoubleEndedQueue<int, 32>, true>>("default Queue<int>"))); ADD2((dflt<XStackAd<int, dstruct::MinStack<int>, 1>>("default MinStack<int>"))); ADD2(Suite{"default pool fragmentation", frag_run, {4, 3, 3, 4, 4}, 2, true, 60});
    ADD3((dflt<HeapAd<int, less<int>, Alloc>>("default MinHeap<int>"))); ADD3((dflt<TreeAd<dstruct::BSTree<int>>>("default BSTree<int>"))); ADD3((dflt<TreeAd<dstruct::AVLTree<int, less<int>, Alloc>, true>>("default AVL<int>"))); ADD3((dflt<MapAd<int, int, less<int>, Alloc>>("default Map<int,int>"))); ADD3((dflt<UFAd<Alloc>>("default UFSet"))); ADD3((dflt<StringAd<Alloc>>("default String")));
    if (VP_PART == 4 || VP_PART < 0) {
        auto add = [&](Suite s) { auto r = s.run; s.maxLen = 60; s.run = [r](Ctx &c) { r(c);
#if VP_PART == 4
            dstruct::Alloc::deallocate(dstruct::Alloc::allocate(8), 8); VP_CHECK(c, g_lines > 0, "default static memory: log and dump are configured, but nothing is logged"); if (g_audits) c.label("history with audited dumps");
#endif
        }; P.suites.push_back(s); };
        add(dflt<VectorAd<int, Alloc>>("logged Vector<int>")); add(dflt<ListAd<dstruct::DLinkedList<Str>>>("logged DLinkedList<Str>")); add(dflt<DequeAd<int, 8, Alloc>>("logged Deque<int,8>")); add(dflt<MapAd<int, int, less<int>, Alloc>>("logged Map<int,int>")); add(dflt<StringAd<Alloc>>("logged String"));
    }
#endif
    P.quickCases = 16000; P.thoroughCases = 400000;
}
}
