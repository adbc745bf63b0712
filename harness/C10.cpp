// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, class C = less<T>, class A = Alloc> using V = TreeAd<dstruct::AVLTree<T, C, A>, true>;
// number of comparisons one operation performs in a tree of n elements
static void cost_run(Ctx &c) {
    dstruct::AVLTree<int, CntCmp<int>, Alloc> t; std::set<int> m; Env e(c); double worst = 0; uint32_t r = c.hdr(2) | 1;
    auto within = [&](uint64_t used, size_t n, const char *what) {
        double lim = 8 * __builtin_log2((double)n + 2) + 24; if (used > worst) worst = (double)used;
        VP_CHECK(c, used <= lim, "AVL tree: %s with %zu elements needs %llu comparisons (logarithmic allowance %.0f)", what, n, (unsigned long long)used, lim); };
    auto push = [&](int k) { if (!m.insert(k).second) return; uint64_t g = g_cmps; t.push(k); within(g_cmps - g, m.size(), "one insertion"); };
    auto pop = [&](int k) { uint64_t g = g_cmps; t.pop(k); within(g_cmps - g, m.size(), "one removal"); m.erase(k); };
    auto find = [&](int k) { uint64_t g = g_cmps; bool f = t.find(k) != t.end(); within(g_cmps - g, m.size(), "one lookup"); VP_CHECK(c, f == (m.count(k) > 0), "AVL tree: find(%d) wrong", k); };
    auto any = [&](uint32_t x) { auto it = m.lower_bound((int)x); if (it == m.end()) it = m.begin(); return *it; };
    for (auto &o : c.c->ops) {
        size_t n = m.size();
        switch (o.code) {
        case 0: if (n < 6000) { int s = o.a % 2 ? 1 : -1, q = 50 + o.b % 900; int b = (int)(o.a % 100000); for (int i = 0; i < q; i++) push(b + s * i); c.log("%d sequential insertions from %d", q, b); } break;
        case 1: if (n < 6000) { int q = 50 + o.b % 900; for (int i = 0; i < q; i++) { r = r * 1664525u + 1013904223u; push((int)(r >> 4) % 200000); } c.log("%d random insertions", q); } break;
        case 2: { size_t q = std::min<size_t>(n, o.b % 500); for (size_t i = 0; i < q; i++) { r = r * 1664525u + 1013904223u; pop(any(r % 200000)); } c.log("%zu random removals", q); } break;
        case 3: { size_t q = std::min<size_t>(n, o.b % 700); for (size_t i = 0; i < q; i++) pop(o.a % 2 ? *m.begin() : *m.rbegin()); c.log("%zu removals at one end", q); } break;
        case 4: { for (int i = 0; i < 60; i++) { r = r * 1664525u + 1013904223u; find((int)(r >> 4) % 200000); } if (n) { find(*m.begin()); find(*m.rbegin()); } c.log("look-ups"); } break;
        case 6: { for (int i = 0; i < 25; i++) { r = r * 1664525u + 1013904223u; int k = (int)(r >> 4) % 200000; if (i == 0 && n) k = *m.rbegin() + 1; if (i == 1 && n) k = *m.begin() - 1; pop(k); } c.log("removals of mostly absent values"); } break;
        case 5: if (n) { size_t q = std::min<size_t>(n, o.b % 300); int b = any(o.a % 200000); for (size_t i = 0; i < q && !m.empty(); i++) pop(any(b)); c.log("%zu removals of a run", q); } break;
        }
        c.did(o.code * 77 + o.a);
        VP_CHECK(c, t.size() == m.size(), "AVL tree: size() is %llu, expected %zu", (unsigned long long)t.size(), m.size());
        VP_CHECK(c, t.height() <= 1.4405 * __builtin_log2((double)m.size() + 2) - 0.3, "AVL tree: height %d with %zu elements", t.height(), m.size());
        if (m.size() >= 1000) c.interesting("1000 or more elements in the cost suite");
    }
    auto it = t.begin(); for (int k : m) { VP_CHECK(c, it != t.end() && *it == k, "AVL tree: in-order iteration misses %d", k); ++it; } VP_CHECK(c, it == t.end(), "AVL tree: iteration too long");
}
void define(Property &P) {
    P.id = "C10";
    P.rule = "histories of insertions of new values, removals by value (present or absent) and through iterators, bulk runs, drains and clears of AVL trees under three kinds of comparison (shape rebuilt from the pre-order listing and checked for balance after every step); a cost suite counts comparisons per operation in trees of up to 6000 elements; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held, or 1000 elements in the cost suite";
    P.assumptions = {"the comparison is a strict weak order", "only values not present are inserted", "the logarithmic allowance is 8*log2(n+2)+24 comparisons"};
    ADD0(Machine<V<int>>::suite("AVL<int>", F_RENEW | F_SOME, R_OPS, 4, Hooks(), 400));
    ADD1(Machine<V<int, greater<int>>>::suite("AVL<int,greater>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 400));
    ADD2(Machine<V<int, DirCmp<int>>>::suite("AVL<int,stateful>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 400));
    ADD3(Machine<V<Str>>::suite("AVL<Str>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 400));
    ADD0(Machine<V<char>>::suite("AVL<char>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD1(Machine<V<Wide>>::suite("AVL<Wide>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD2(Machine<V<Str, DirCmp<Str>, LifoAlloc>>::suite("AVL<Str,stateful,LIFO>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD3(Suite{"cost", cost_run, {4, 4, 5, 2, 3, 2, 3}, 1, false, 40});
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
