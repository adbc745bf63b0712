// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
typedef TrackAlloc<0> TA;
static uint64_t g_copies = 0;
struct CE { int v; CE() : v(0) {} explicit CE(int x) : v(x) {} CE(const CE &o) : v(o.v) { g_copies++; } CE(CE &&o) : v(o.v) { g_copies++; } CE &operator=(const CE &o) { v = o.v; g_copies++; return *this; } CE &operator=(CE &&o) { v = o.v; g_copies++; return *this; } };
inline bool operator<(const CE &a, const CE &b) { return a.v < b.v; } inline bool operator>(const CE &a, const CE &b) { return a.v > b.v; } inline bool operator>=(const CE &a, const CE &b) { return a.v >= b.v; } inline bool operator==(const CE &a, const CE &b) { return a.v == b.v; }

// what a suite needs: ends to push/pop, limits
struct Limits {
    double capF = 12, capC = 64;       // capacity and bytes held: at most capF*size + capC elements
    double copyF = 8, copyLog = 0;     // copies per operation (plus copyLog*log2(size))
    double allocF = 4;                 // allocations per operation
    double carryA = 4;                 // (allocations)
    double carry = 4;                  // copies/allocations a window may inherit per element present at its start
    int perElem = 0;                   // bytes per element beyond sizeof(CE), for the bytes bound
    bool oneBlock = false;             // node-based: at most one block per element
};
struct W { Ctx &c; const char *name; Limits L; std::function<size_t()> cap; size_t n = 0, peak = 0; uint64_t ops = 0, cp0 = 0, al0 = 0, wops = 0; size_t wn = 0; double wlog = 0; bool grew = false;
    void begin() { cp0 = g_copies; al0 = TA::st().allocs; wops = 0; wn = n; wlog = 0; }
    void step(int d) { n += d; ops++; wops++; peak = std::max(peak, n); if (L.copyLog) { double l = 1; for (size_t x = n + 2; x > 1; x >>= 1) l++; wlog += l * L.copyLog; }
        double lim = L.capF * n + L.capC;
        if (cap) { size_t k = cap(); if (!((double)k <= lim)) c.fail("%s: capacity %zu while %zu elements are held (bound %.0f)", name, k, n, lim); }
        auto &s = TA::st();
        if (L.oneBlock) { if (s.blk.size() > n) c.fail("%s: %zu blocks are held for %zu elements", name, s.blk.size(), n); }
        else { double by = lim * (sizeof(CE) + L.perElem); if (!((double)s.bytes <= by)) c.fail("%s: %ld bytes are held for %zu elements (bound %.0f)", name, s.bytes, n, by); } }
    void end(const char *what) { double cp = g_copies - cp0, al = TA::st().allocs - al0; size_t w = wn;
        double cl = L.copyF * wops + wlog + L.carry * w + 64, all = L.allocF * wops + L.carryA * w + 64; if (L.oneBlock) { all = (double)wops; cl = L.copyF * wops; }
        if (cp > cl) c.fail("%s: %.0f element copies for %llu operations of %s starting with %zu elements (bound %.0f)", name, cp, (unsigned long long)wops, what, w, cl);
        if (al > all) c.fail("%s: %.0f allocations for %llu operations of %s starting with %zu elements (bound %.0f)", name, al, (unsigned long long)wops, what, w, all); } };
// D gives push(end, v) / pop(end) / cap(); ends: 1 = one end (LIFO), 2 = FIFO only, 3 = both ends
template <class D> static void ends_run(Ctx &c) {
    TA::st().reset(); g_copies = 0; int v = 0;
    { D d; Limits L = D::limits(); W w{c, D::name(), L, {}}; if (D::hasCap) w.cap = [&] { return (size_t)d.cap(); };
      auto pu = [&](int e) { d.push(D::ends == 3 ? e : 1, v++); w.step(1); }; auto po = [&](int e) { d.pop(D::ends == 3 ? e : D::ends == 2 ? 0 : 1); w.step(-1); };
      const bool large = c.hdr(2) % 64 == 3; const size_t MAXN = large ? 250000 : 6000; size_t left = large ? 14 : 1u << 30; if (large) c.label("large history");
      for (auto &op : c.c->ops) { if (!left--) break;
          int e = op.a & 1, f = (op.a >> 1) & 1; size_t t = 1 + op.b % (op.a % 7 == 0 ? 2500 : op.a % 3 == 0 ? 400 : 40); if (large) t *= 40; const char *what = ""; w.begin(); size_t n0 = w.n;
          switch (op.code) {
          case 0: if (w.n + t > MAXN) continue; for (size_t i = 0; i < t; i++) pu(e); what = "pushing"; break;
          case 1: t = std::min(t, w.n); if (!t) continue; for (size_t i = 0; i < t; i++) po(e); what = "popping"; break;
          case 2: if (w.n + 1 > MAXN) continue; for (size_t i = 0; i < t; i++) { pu(e); po(D::ends == 1 ? 1 : 1 - e); } what = "sliding at constant length"; c.label("sliding window"); break;
          case 3: if (w.n + 1 > MAXN) continue; for (size_t i = 0; i < t; i++) { pu(e); po(e); } what = "pushing and popping in turn"; break;
          case 4: { size_t dd = 1 + op.b % 9; if (w.n + dd > MAXN) continue; for (size_t i = 0; i < t / dd + 1; i++) { for (size_t j = 0; j < dd; j++) pu(e); for (size_t j = 0; j < dd; j++) po(f); } what = "oscillating"; break; }
          case 5: { size_t dd = 1 + op.b % 9; if (w.n < dd) continue; for (size_t i = 0; i < t / dd + 1; i++) { for (size_t j = 0; j < dd; j++) po(f); for (size_t j = 0; j < dd; j++) pu(e); } what = "oscillating"; c.label("oscillation below the present size"); break; }
          case 6: if (!w.n) continue; while (w.n) po(e); what = "draining"; c.label("drained"); break;
          case 7: { size_t target = (op.a % 3 == 0) ? w.n / 3 : (op.a % 3 == 1) ? w.n / 2 : w.n * 2 / 3; if (w.n < 6) continue; while (w.n > target) po(e); what = "popping to a fraction"; break; }
          case 8: { size_t target = w.n * (op.a % 3 == 0 ? 2 : 3) + 2; if (target > MAXN) continue; while (w.n < target) pu(e); what = "growing by a factor"; break; }
          case 9: // push up to the next growth, then sit on the threshold
              { if (w.n + 4 > MAXN) continue; if constexpr (D::hasCap) { size_t c0 = d.cap(); int g = 0; while (d.cap() == c0 && g++ < (int)MAXN && w.n < MAXN) pu(e); for (size_t i = 0; i < 100; i++) { if (w.n) po(e); pu(e); } c.label("oscillation at the growth threshold"); } what = "oscillating at the growth threshold"; break; }
          case 10: { if constexpr (D::hasCap) { size_t c0 = d.cap(); int g = 0; while (d.cap() == c0 && w.n && g++ < (int)MAXN) po(e); if (!w.n) { what = "draining"; break; } for (size_t i = 0; i < 100; i++) { pu(e); po(e); } c.label("oscillation at the shrink threshold"); } what = "oscillating at the shrink threshold"; break; }
          }
          w.end(what); c.log("%s: %zu -> %zu elements, capacity %zu, %ld bytes in %zu blocks, %llu copies, %llu allocations", what, n0, w.n, w.cap ? w.cap() : (size_t)0, TA::st().bytes, TA::st().blk.size(), (unsigned long long)(g_copies - w.cp0), (unsigned long long)(TA::st().allocs - w.al0)); c.did(op.code * 64 + op.a % 64);
      }
      if (w.ops >= 100 && w.peak >= 20) c.nontriv = 1;
      while (w.n) po(1); }
}
template <int X> struct DVec { static const bool hasCap = true; static const int ends = 1; static const char *name() { return "Vector"; } static Limits limits() { Limits l; return l; } dstruct::Vector<CE, TA> o; void push(int, int v) { o.push_back(CE(v)); } void pop(int) { o.pop_back(); } size_t cap() { return o.capacity(); } };
template <int B> struct DDeq { static const bool hasCap = true; static const int ends = 3; static const char *name() { return "deque"; } static Limits limits() { Limits l; l.capC = 24 * B + 64; l.copyF = 2; l.carry = 0; l.carryA = B >= 4 ? 8 : 24; l.perElem = 8 * 3 / B + 8; l.allocF = 16; return l; } dstruct::DoubleEndedQueue<CE, B, TA> o; void push(int e, int v) { if (e) o.push_back(CE(v)); else o.push_front(CE(v)); } void pop(int e) { if (e) o.pop_back(); else o.pop_front(); } size_t cap() { return o.capacity(); } };
template <class DS, int B> struct DQue { static const bool hasCap = false; static const int ends = 2; static const char *name() { return "queue"; } static Limits limits() { Limits l; l.capC = 24 * B + 64; l.copyF = 2; l.perElem = 8; l.allocF = 16; return l; } dstruct::adapter::Queue<CE, DS> o; void push(int, int v) { o.push(CE(v)); } void pop(int) { o.pop(); } size_t cap() { return 0; } };
template <class DS> struct DStk { static const bool hasCap = false; static const int ends = 1; static const char *name() { return "stack"; } static Limits limits() { Limits l; l.perElem = 16; return l; } dstruct::adapter::Stack<CE, DS> o; void push(int, int v) { o.push(CE(v)); } void pop(int) { o.pop(); } size_t cap() { return 0; } };
template <class S> struct DXst { static const bool hasCap = false; static const int ends = 1; static const char *name() { return "extreme-value stack"; } static Limits limits() { Limits l; l.capF = 24; l.capC = 256; l.copyF = 24; l.allocF = 8; l.carry = 8; l.carryA = 8; l.perElem = 16; return l; } S o; void push(int, int v) { o.push(CE(v % 50)); } void pop(int) { o.pop(); } size_t cap() { return 0; } };
template <class C> struct DHep { static const bool hasCap = true; static const int ends = 1; static const char *name() { return "heap"; } static Limits limits() { Limits l; l.copyF = 16; l.copyLog = 12; return l; } dstruct::Heap<CE, C, TA> o; void push(int, int v) { o.push(CE((int)(v * 2654435761u >> 8))); } void pop(int) { o.pop(); } size_t cap() { return o.capacity(); } };
template <class L> struct DLst { static const bool hasCap = false; static const int ends = 3; static const bool dbl = ListTraits<L>::dbl; static const char *name() { return "linked list"; } static Limits limits() { Limits l; l.oneBlock = true; l.copyF = 6; return l; } L o; void push(int e, int v) { if (e) o.push_back(CE(v)); else o.push_front(CE(v)); } void pop(int e) { if constexpr (dbl) { if (e) { o.pop_back(); return; } } (void)e; o.pop_front(); } size_t cap() { return 0; } };

// trees and maps: one block per element, constant copies per operation
template <class O, class K> static void tree_run(Ctx &c, const char *name, void (*put)(O &, int), void (*del)(O &, int, int), size_t (*size)(O &)) {
    TA::st().reset(); g_copies = 0; std::set<int> m; uint32_t r = c.hdr(1) | 1; uint64_t total = 0;
    { O o; for (auto &op : c.c->ops) {
        size_t t = 1 + op.b % 80, done = 0; uint64_t cp = g_copies, al = TA::st().allocs;
        for (size_t i = 0; i < t; i++) { r = r * 1664525u + 1013904223u; int k = op.a & 1 ? (int)(r >> 20) % 500 : (int)(m.empty() ? 0 : *m.rbegin() + 1);
            if (op.code == 0) { if (m.count(k) || m.size() > 700) continue; put(o, k); m.insert(k); done++; }
            else if (op.code == 1) { if (m.empty()) break; auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); int x = *it; del(o, x, r >> 10 & 1); m.erase(x); done++; }
            else { if (m.size() > 700) break; if (m.count(k)) { del(o, k, r >> 10 & 1); m.erase(k); } else { put(o, k); m.insert(k); } done++; }
            if (TA::st().blk.size() > m.size()) c.fail("%s: %zu blocks are held for %zu elements", name, TA::st().blk.size(), m.size()); if (size(o) != m.size()) c.fail("%s: size wrong", name); }
        if (!done) continue; total += done; double cpn = g_copies - cp, aln = TA::st().allocs - al;
        if (cpn > 24.0 * done) c.fail("%s: %.0f element copies for %zu operations (%zu elements)", name, cpn, done, m.size()); if (aln > done) c.fail("%s: %.0f allocations for %zu operations", name, aln, done);
        c.log("op %d x%zu: %zu elements, %.0f copies, %.0f allocations", op.code, done, m.size(), cpn, aln); c.did(op.code * 64 + op.b % 64); }
      if (total >= 60 && m.size() >= 3) c.nontriv = 1; }
}
typedef dstruct::tree::BinarySearchTree<CE, less<CE>, TA> TB; typedef dstruct::AVLTree<CE, less<CE>, TA> TV;
} namespace vp { template <> struct El<CE> { static const char *name() { return "CE"; } static int norm(int v) { return v; } static CE make(int v) { return CE(v); } static int key(const CE &t) { return t.v; } };
typedef MapAd<CE, CE, less<CE>, TA>::Obj TM;
static void bst_run(Ctx &c) { tree_run<TB, CE>(c, "search tree", [](TB &o, int k) { o.push(CE(k)); }, [](TB &o, int k, int how) { if (how) o.pop(CE(k)); else { auto it = o.find(CE(k)); o.erase(it); } }, [](TB &o) { return (size_t)o.size(); }); }
static void avl_run(Ctx &c) { tree_run<TV, CE>(c, "AVL tree", [](TV &o, int k) { o.push(CE(k)); }, [](TV &o, int k, int how) { if (how) o.pop(CE(k)); else { auto it = o.find(CE(k)); o.erase(it); } }, [](TV &o) { return (size_t)o.size(); }); }
static void map_run(Ctx &c) { tree_run<TM, CE>(c, "map", [](TM &o, int k) { o[CE(k)] = CE(k + 1); }, [](TM &o, int k, int how) { if (how) o.pop(CE(k)); else { auto it = o.find(CE(k)); o.erase(it); } }, [](TM &o) { return (size_t)o.size(); }); }
static Suite ends(const char *n, void (*f)(Ctx &), int share = 1) { Suite s; s.name = n; s.run = f; s.weights = {10, 6, 4, 3, 3, 3, 1, 3, 3, 3, 3}; s.share = share; s.maxLen = 40; return s; }
static Suite tr(const char *n, void (*f)(Ctx &), int share = 1) { Suite s; s.name = n; s.run = f; s.weights = {5, 3, 3}; s.share = share; s.maxLen = 60; return s; }
void define(Property &P) {
    P.id = "C24";
    P.rule = "histories of runs, sliding windows, oscillations (at random sizes and exactly at the growth and shrink thresholds), drains and factor-wise growth; after every single operation the capacity and the bytes held are within a constant factor of the present size, and over every run of one pattern the element copies and allocations are within a constant factor of its operations plus what the elements present at its start can owe; non-trivial: at least 100 operations and 20 elements (trees: 60 operations, 3 elements)";
    P.assumptions = {"the bounds are generous: capacity at most 12 times the size plus a constant (24 blocks for a deque), 8 copies and 4 allocations (16 for a deque) per operation"};
    ADD0(ends("Vector", ends_run<DVec<0>>, 4)); ADD1(ends("Deque,4", ends_run<DDeq<4>>, 3)); ADD1(ends("Deque,1", ends_run<DDeq<1>>)); ADD2(ends("Deque,32", ends_run<DDeq<32>>, 2)); ADD3(ends("Deque,7", ends_run<DDeq<7>>));
    ADD3((ends("Queue over deque 32", ends_run<DQue<dstruct::DoubleEndedQueue<CE, 32, TA>, 32>>, 2))); ADD3((ends("Queue over deque 8", ends_run<DQue<dstruct::DoubleEndedQueue<CE, 8, TA>, 8>>)));
    ADD0(ends("Stack over Vector", ends_run<DStk<dstruct::Vector<CE, TA>>>, 2)); ADD2((ends("MinStack", ends_run<DXst<dstruct::stack::XValueStack<CE, less<CE>, dstruct::adapter::Stack<CE, dstruct::Vector<CE, TA>>>>>)));
    ADD2(ends("MinHeap", ends_run<DHep<less<CE>>>, 2));
    ADD0(ends("SinglyLinkedList", ends_run<DLst<dstruct::SinglyLinkedList<CE, TA>>>)); ADD1(ends("DoublyLinkedList", ends_run<DLst<dstruct::DoublyLinkedList<CE, TA>>>));
    ADD0(tr("BST", bst_run)); ADD1(tr("AVL", avl_run)); ADD3(tr("Map", map_run));
    P.quickCases = 16000; P.thoroughCases = 400000;
}
}
