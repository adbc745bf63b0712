// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
// every element is shadowed by the address it was first seen at
struct Cell { int key; const void *at; };
typedef std::deque<Cell> Shadow;
static const int NOBJ = 2;
template <class Obj> struct Pair {
    Obj *o[NOBJ]; void *mem[NOBJ];
    Pair() { for (int i = 0; i < NOBJ; i++) { mem[i] = aligned_alloc(32, (sizeof(Obj) + 31) / 32 * 32); o[i] = new (mem[i]) Obj; } }
    ~Pair() { for (int i = 0; i < NOBJ; i++) { o[i]->~Obj(); free(mem[i]); } }
    void remake(int i) { o[i]->~Obj(); o[i] = new (mem[i]) Obj; }
};
// movement between the two objects, shared by the node-based suites: 0 assign-move, 1 construct-move, 2 swap, 3 copy (source must not move)
template <class Obj, class S> static const char *shift(Pair<Obj> &P, S s[NOBJ], int k, int how) {
    int j = 1 - k;
    switch (how % 4) {
    case 0: *P.o[k] = static_cast<Obj &&>(*P.o[j]); s[k] = s[j]; s[j] = S(); return "move assignment";
    case 1: P.o[k]->~Obj(); P.o[k] = new (P.mem[k]) Obj(static_cast<Obj &&>(*P.o[j])); s[k] = s[j]; s[j] = S(); return "move construction";
    case 2: dstruct::swap(*P.o[k], *P.o[j]); std::swap(s[k], s[j]); return "swap";
    default: *P.o[k] = *(const Obj *)P.o[j]; return "copy";
    }
}
// ------------------------------------------------------------------ linked lists
template <class L> static void list_run(Ctx &c) {
    using T = typename ListTraits<L>::E; const bool dbl = ListTraits<L>::dbl; Env e(c); reset_allocs(); g_life.reset();
    typedef decltype(std::declval<L &>().begin()) It; struct Pos { Cell c; It it; }; typedef std::deque<Pos> Sh;
    Pair<L> P; Sh s[NOBJ]; size_t others = 0, peak = 0; bool moved = false; int k0;
    auto relist = [&](int i) { s[i].clear(); for (auto it = P.o[i]->begin(); it != P.o[i]->end(); ++it) s[i].push_back({{El<T>::key(*it), &*it}, it}); };
    auto reiter = [&](int i) { size_t j = 0; for (auto it = P.o[i]->begin(); it != P.o[i]->end(); ++it, ++j) { VP_CHECK(c, j < s[i].size(), "list: more elements than before the move"); s[i][j].it = it; } VP_CHECK(c, j == s[i].size(), "list: fewer elements than before the move"); };
    for (auto &op : c.c->ops) {
        int k = (op.b >> 20) & 1; L &l = *P.o[k]; Sh &m = s[k]; size_t n = m.size(); const char *what = "";
        switch (op.code) {
        case 0: { T x = mk<T>(e, op.a, k0); l.push_front(x); m.push_front({{k0, &*l.begin()}, l.begin()}); what = "push_front"; break; }
        case 1: { T x = mk<T>(e, op.a, k0); l.push_back(x); auto it = n ? m.back().it : l.begin(); if (n) ++it; VP_CHECK(c, it != l.end(), "list: an iterator to the last element does not reach an element pushed behind it"); m.push_back({{k0, &*it}, it}); what = "push_back"; break; }
        case 2: if (!n) continue; l.pop_front(); m.pop_front(); what = "pop_front"; break;
        case 3: if (!n) continue; if constexpr (dbl) l.pop_back(); else l._pop_back(); m.pop_back(); what = "pop_back"; break;
        case 4: { size_t q = 1 + op.b % 40; for (size_t i = 0; i < q; i++) { T x = mk<T>(e, op.a + (uint32_t)i, k0); if ((op.a >> (i % 16)) & 1) { l.push_front(x); m.push_front({{k0, &*l.begin()}, l.begin()}); } else { l.push_back(x); auto it = m.empty() ? l.begin() : m.back().it; if (!m.empty()) ++it; m.push_back({{k0, &*it}, it}); } } what = "several pushes"; break; }
        case 5: { size_t q = std::min<size_t>(n, op.b % 30); for (size_t i = 0; i < q; i++) { l.pop_front(); m.pop_front(); } if (!q) continue; what = "several pops"; break; }
        case 6: if (n > 6) continue; l.clear(); m.clear(); what = "clear"; break;
        case 7: { int how = op.a % 4; what = shift(P, s, k, how); if (how == 3) relist(k); else { for (int i = 0; i < NOBJ; i++) { for (size_t j = 0; j < s[i].size(); j++) ; reiter(i); } if (s[k].size()) { moved = true; c.label("non-empty list moved or swapped"); } } break; }
        case 8: { if (!n) continue; size_t i = op.b % n; T x = mk<T>(e, op.a, k0); *m[i].it = x; m[i].c.key = k0; what = "write through a saved iterator"; break; }
        }
        c.log("#%d %s (size %zu)", k, what, s[k].size()); c.did(op.code * 64 + op.a % 64); if (s[k].size() >= 2) others++;
        for (int i = 0; i < NOBJ; i++) { auto &mm = s[i]; peak = std::max(peak, mm.size());
            size_t j = 0; for (auto it = P.o[i]->begin(); it != P.o[i]->end(); ++it, ++j) { VP_CHECK(c, j < mm.size(), "list: too many elements after %s", what); VP_CHECK(c, (const void *)&*it == mm[j].c.at, "list: after %s element %zu of %zu is at another address", what, j, mm.size()); }
            VP_CHECK(c, j == mm.size(), "list: elements missing after %s", what);
            for (j = 0; j < mm.size(); j++) {
                VP_CHECK(c, (const void *)&*mm[j].it == mm[j].c.at && El<T>::key(*mm[j].it) == mm[j].c.key, "list: after %s a saved iterator no longer denotes its element (%zu of %zu)", what, j, mm.size());
                VP_CHECK(c, El<T>::key(*(const T *)mm[j].c.at) == mm[j].c.key, "list: after %s a saved reference no longer denotes its element", what);
                auto nx = mm[j].it; ++nx; if (j + 1 < mm.size()) VP_CHECK(c, nx == mm[j + 1].it, "list: after %s a saved iterator does not step to the next element", what); else VP_CHECK(c, nx == P.o[i]->end(), "list: after %s a saved iterator to the last element does not step to end()", what);
                if constexpr (dbl) if (j) { auto pv = mm[j].it; --pv; VP_CHECK(c, pv == mm[j - 1].it, "list: after %s a saved iterator does not step back to the previous element", what); }
            } }
    }
    if (others >= 5 && peak >= 4) c.nontriv = 1; (void)moved;
}
// ------------------------------------------------------------------ AVL tree, map, BST (moves only)
template <class Ad> struct Keyed;                       // how to reach an element
template <class T, class C, class A> struct Keyed<dstruct::AVLTree<T, C, A>> { typedef dstruct::AVLTree<T, C, A> O; typedef T K; static const bool stable = true; static void put(O &o, int k, int) { o.push(El<T>::make(k)); } static int keyAt(typename O::ConstIteratorType it) { return El<T>::key(*it); } static const bool map = false; };
template <class T, class C, class A> struct Keyed<dstruct::tree::BinarySearchTree<T, C, A>> { typedef dstruct::tree::BinarySearchTree<T, C, A> O; typedef T K; static const bool stable = false; static void put(O &o, int k, int) { o.push(El<T>::make(k)); } static int keyAt(typename O::ConstIteratorType it) { return El<T>::key(*it); } static const bool map = false; };
template <class KK, class V, class C, class D> struct Keyed<dstruct::Map<KK, V, C, D>> { typedef dstruct::Map<KK, V, C, D> O; typedef KK K; static const bool stable = true; static void put(O &o, int k, int v) { o[El<KK>::make(k)] = El<V>::make(v); } static int keyAt(typename O::IteratorType it) { return El<KK>::key(it->key); } static const bool map = true; };
template <class O> static void keyed_run(Ctx &c) {
    typedef Keyed<O> X; typedef typename X::K K; Env e(c); reset_allocs(); g_life.reset();
    typedef decltype(std::declval<const O &>().find(std::declval<const K &>())) It; struct Pos { const void *at; It it; void *val; }; typedef std::map<int, Pos> Sh;
    Pair<O> P; Sh s[NOBJ]; size_t others = 0, peak = 0; static const bool map = X::map;
    auto see = [&](int i, int k) { auto it = P.o[i]->find(El<K>::make(k)); VP_CHECK(c, it != P.o[i]->end(), "%s: a present key %d is not found", map ? "map" : "tree", k); return it; };
    auto put = [&](int i, int k, int v) { bool fresh = !s[i].count(k); if (!fresh && !map) return false; X::put(*P.o[i], k, v); auto it = see(i, k); if (fresh) { Pos p{&*it, it, nullptr}; if constexpr (X::map) { p.val = &(*P.o[i])[El<K>::make(k)]; } s[i].emplace(k, p); } return true; };
    auto pick = [&](Sh &m, uint32_t a) { auto it = m.begin(); std::advance(it, a % m.size()); return it->first; };
    for (auto &op : c.c->ops) {
        int k = (op.b >> 20) & 1; O &o = *P.o[k]; Sh &m = s[k]; size_t n = m.size(); const char *what = ""; bool renewed = false;
        switch (op.code) {
        case 0: if (n > 400 || !put(k, El<K>::norm(e.raw(op.a)), (int)op.b % 1000)) continue; what = "insertion"; break;
        case 1: { if (!n) continue; int key = pick(m, op.a); o.pop(El<K>::make(key)); m.erase(key); what = "removal by value"; if (!X::stable) renewed = true; break; }
        case 2: { if (!n) continue; int key = pick(m, op.a); auto it = X::stable ? m.find(key)->second.it : see(k, key); o.erase(it); m.erase(key); what = X::stable ? "removal through a saved iterator" : "removal through an iterator"; if (!X::stable) renewed = true; break; }
        case 3: { bool any = false; for (int i = 0; i < (int)(op.b % 40); i++) any |= put(k, El<K>::norm(e.raw(op.a + i * 7919u)), i); if (!any) continue; what = "several insertions"; break; }
        case 4: { size_t q = std::min<size_t>(n, op.b % 20); if (!q) continue; for (size_t i = 0; i < q; i++) { int key = pick(m, op.a + (uint32_t)i * 13); if ((op.a >> i) & 1) { auto it = X::stable ? m.find(key)->second.it : see(k, key); o.erase(it); } else o.pop(El<K>::make(key)); m.erase(key); } what = "several removals"; if (!X::stable) renewed = true; break; }
        case 5: if (n > 6) continue; o.clear(); m.clear(); what = "clear"; break;
        case 6: { int how = op.a % 4; size_t q = s[1 - k].size(); what = shift(P, s, k, how); if (q) c.label("non-empty tree moved, swapped or copied"); if (how == 3) { Sh t; for (auto &x : s[1 - k]) { auto it = see(k, x.first); Pos p{&*it, it, nullptr}; VP_CHECK(c, p.at != x.second.at, "a copy shares an element with its source"); if constexpr (X::map) p.val = &(*P.o[k])[El<K>::make(x.first)]; t.emplace(x.first, p); } s[k] = t; } break; }
        case 7: { if (!n) continue; int key = pick(m, op.a); see(k, key); int absent = El<K>::norm(e.look(op.b & 0xfffff)); if (!m.count(absent)) o.pop(El<K>::make(absent)); what = "look-up and removal of an absent value"; break; }
        }
        c.log("#%d %s (size %zu)", k, what, s[k].size()); c.did(op.code * 64 + op.a % 64); if (s[k].size() >= 2) others++;
        if (renewed) { for (auto &x : m) { auto it = see(k, x.first); x.second.at = &*it; x.second.it = it; } }   // a plain search tree may relocate on removal
        for (int i = 0; i < NOBJ; i++) { O &t = *P.o[i]; Sh &mm = s[i]; peak = std::max(peak, mm.size());
            VP_CHECK(c, t.size() == mm.size(), "size wrong after %s", what);
            std::vector<int> inorder; for (auto it = t.begin(); it != t.end(); ++it) { inorder.push_back(X::keyAt(it)); if (inorder.size() > mm.size()) c.fail("iteration visits too many elements after %s", what); }
            for (size_t j = 0; j < inorder.size(); j++) { auto f = mm.find(inorder[j]); VP_CHECK(c, f != mm.end(), "iteration reaches an unknown element after %s", what); const Pos &p = f->second; auto it = see(i, f->first);
                VP_CHECK(c, (const void *)&*it == p.at, "after %s element %d is at another address", what, f->first);
                if (i == k && !(op.code < 6) && mm.size() > 200) continue;
                VP_CHECK(c, p.it == it && (const void *)&*p.it == p.at && X::keyAt(p.it) == f->first, "after %s a saved iterator no longer denotes element %d", what, f->first);
                It nx = p.it; ++nx; if (j + 1 < inorder.size()) VP_CHECK(c, nx != t.end() && X::keyAt(nx) == inorder[j + 1], "after %s a saved iterator to %d does not step to the next element %d", what, f->first, inorder[j + 1]); else VP_CHECK(c, nx == t.end(), "after %s a saved iterator to the last element does not step to end()", what);
                if constexpr (X::map) VP_CHECK(c, (void *)&t[El<K>::make(f->first)] == p.val, "after %s the value of key %d is at another address", what, f->first); } }
    }
    if (others >= 5 && peak >= 4) c.nontriv = 1;
}
// ------------------------------------------------------------------ deque ends, queue
template <class T, int B, class A> static void deque_run(Ctx &c) {
    typedef dstruct::DoubleEndedQueue<T, B, A> Q; Env e(c); reset_allocs(); g_life.reset(); Q q; Shadow m; size_t peak = 0, grown = 0, shrunk = 0, cap = 0; int k;
    auto pb = [&](uint32_t a) { T x = mk<T>(e, a, k); q.push_back(x); m.push_back({k, &q[-1]}); };
    auto pf = [&](uint32_t a) { T x = mk<T>(e, a, k); q.push_front(x); m.push_front({k, &q[0]}); };
    auto look = [&](const char *what) { size_t n = m.size(); if (q.capacity() > cap && cap) grown++; if (q.capacity() < cap) shrunk++; cap = q.capacity();
        VP_CHECK(c, q.size() == n, "deque: size wrong after %s", what); size_t i = 0; for (auto it = q.begin(); it != q.end(); ++it, ++i) { VP_CHECK(c, i < n, "deque: too many elements after %s", what); VP_CHECK(c, (const void *)&*it == m[i].at, "deque: after %s the element at position %zu of %zu was relocated", what, i, n); VP_CHECK(c, El<T>::key(*(const T *)m[i].at) == m[i].key, "deque: after %s a saved reference no longer denotes its element (position %zu of %zu)", what, i, n); } VP_CHECK(c, i == n, "deque: elements missing after %s", what); };
    for (auto &op : c.c->ops) {
        size_t n = m.size(); const char *what = ""; size_t room = n < 1500 ? 1 : 0;
        switch (op.code) {
        case 0: if (!room) continue; pb(op.a); what = "push_back"; break;
        case 1: if (!room) continue; pf(op.a); what = "push_front"; break;
        case 2: if (!n) continue; q.pop_back(); m.pop_back(); what = "pop_back"; break;
        case 3: if (!n) continue; q.pop_front(); m.pop_front(); what = "pop_front"; break;
        case 4: { if (!room) continue; size_t t = 1 + op.b % 100; for (size_t i = 0; i < t; i++) { if (op.a & 1) pb(op.a + (uint32_t)i); else pf(op.a + (uint32_t)i); if (m.size() < 60 || i % 16 == 0) look("a run of pushes"); } what = "a run of pushes"; break; }
        case 5: { size_t t = std::min<size_t>(n, 1 + op.b % 100); if (!t) continue; for (size_t i = 0; i < t; i++) { if (op.a & 1) { q.pop_back(); m.pop_back(); } else { q.pop_front(); m.pop_front(); } if (m.size() < 60 || i % 16 == 0) look("a run of pops"); } what = "a run of pops"; break; }
        case 6: { if (!room) continue; size_t t = 1 + op.b % 80; for (size_t i = 0; i < t; i++) { if (op.a & 1) { pb(op.a + (uint32_t)i); q.pop_front(); m.pop_front(); } else { pf(op.a + (uint32_t)i); q.pop_back(); m.pop_back(); } if (m.size() < 60) look("a sliding window"); } what = "a sliding window"; break; }
        }
        c.log("%s (size %zu, capacity %llu)", what, m.size(), (unsigned long long)q.capacity()); peak = std::max(peak, m.size()); look(what); c.did(op.code * 64 + op.a % 64);
    }
    if (grown) c.label("deque grew"); if (shrunk) c.label("deque shrank"); if (grown && peak >= 4) c.nontriv = 1;
}
template <class T, class A> static void vector_run(Ctx &c) {
    typedef dstruct::Vector<T, A> V; Env e(c); reset_allocs(); g_life.reset(); V v; std::vector<int> m; size_t within = 0; int k;
    for (auto &op : c.c->ops) {
        size_t n = m.size(); const char *what = "";
        switch (op.code) {
        case 0: case 1: { size_t t = op.code ? 1 + op.b % 60 : 1; if (n > 1500) continue; for (size_t i = 0; i < t; i++) { bool room = v.size() < v.capacity(); const T *at = m.empty() ? nullptr : &v[0]; size_t cap = v.capacity(); if (op.a % 5 == 0 && !m.empty()) { int w = m[op.b % m.size()]; v.push_back(v[(int)(op.b % m.size())]); k = w; } else { T x = mk<T>(e, op.a + (uint32_t)i, k); v.push_back(x); }
              if (room) { within++; VP_CHECK(c, v.capacity() == cap, "Vector: a push within the capacity changes the capacity"); if (at) VP_CHECK(c, &v[0] == at, "Vector: a push within the capacity (%zu of %zu) relocates the elements", m.size(), cap); } m.push_back(k); VP_CHECK(c, v.size() == m.size() && El<T>::key(v.back()) == k, "Vector: pushed element is not last"); } what = "push"; break; }
        case 2: { size_t t = std::min<size_t>(n, 1 + op.b % 40); if (!t) continue; for (size_t i = 0; i < t; i++) { v.pop_back(); m.pop_back(); } what = "pop"; break; }
        case 3: { size_t t = n + op.b % 50; v.resize(t); what = "resize"; VP_CHECK(c, v.capacity() >= t, "Vector: resize(%zu) reserves less", t); const T *at = m.empty() ? nullptr : &v[0]; while (m.size() < t && m.size() < n + op.a % 50) { T x = mk<T>(e, op.a + (uint32_t)m.size(), k); v.push(x); m.push_back(k); within++; if (!at) at = &v[0]; VP_CHECK(c, &v[0] == at, "Vector: a push within the reserved %zu relocates the elements", t); } break; }
        case 4: v.clear(); m.clear(); what = "clear"; break;
        }
        for (size_t i = 0; i < m.size(); i += m.size() > 100 ? 7 : 1) VP_CHECK(c, El<T>::key(v[(int)i]) == m[i], "Vector: element %zu wrong after %s", i, what);
        c.log("%s (size %zu, capacity %llu)", what, m.size(), (unsigned long long)v.capacity()); c.did(op.code * 64 + op.a % 64);
    }
    if (within >= 5) c.interesting("five or more pushes within the capacity");
}
static Suite mkS(const char *n, void (*f)(Ctx &), std::vector<int> w, int share = 1) { Suite s; s.name = n; s.run = f; s.weights = w; s.share = share; s.maxLen = 250; return s; }
static const std::vector<int> LW = {8, 8, 6, 6, 3, 2, 1, 3, 3}, KW = {12, 6, 6, 3, 2, 1, 3, 2}, DW = {6, 6, 5, 5, 2, 2, 2}, VW = {10, 3, 5, 2, 1};
void define(Property &P) {
    P.id = "C23";
    P.rule = "histories on two objects of one kind with moves, swaps and copies between them; the address of every element and a saved iterator to it are compared after every step with the address it was first seen at; non-trivial: at least 5 steps with 2 or more other elements and 4 elements at the peak (node-based), at least one growth with 4 elements (deque), at least 5 pushes within the capacity (vector)";
    P.assumptions = {"for a plain binary search tree only moves are covered: its removal may copy a value between nodes"};
    ADD0(mkS("SinglyLinkedList<int>", list_run<dstruct::SinglyLinkedList<int, Alloc>>, LW, 2)); ADD1(mkS("SinglyLinkedList<Str>", list_run<dstruct::SinglyLinkedList<Str, LifoAlloc>>, LW));
    ADD2(mkS("DoublyLinkedList<Str>", list_run<dstruct::DoublyLinkedList<Str, Alloc>>, LW)); ADD3(mkS("DoublyLinkedList<int>", list_run<dstruct::DoublyLinkedList<int, LifoAlloc>>, LW, 2));
    ADD0(mkS("AVL<int>", keyed_run<dstruct::AVLTree<int, less<int>, Alloc>>, KW, 3)); ADD1(mkS("AVL<Str,LIFO>", keyed_run<dstruct::AVLTree<Str, greater<Str>, LifoAlloc>>, KW, 2));
    ADD2(mkS("Map<int,Str>", keyed_run<MapAd<int, Str, less<int>, Alloc>::Obj>, KW, 2)); ADD3(mkS("Map<Str,int>", keyed_run<MapAd<Str, int, greater<Str>, LifoAlloc>::Obj>, KW, 2));
    ADD1(mkS("BST<int> moved", keyed_run<dstruct::tree::BinarySearchTree<int, less<int>, Alloc>>, KW)); ADD3(mkS("BST<Str> moved", keyed_run<dstruct::tree::BinarySearchTree<Str, less<Str>, Alloc>>, KW));
    ADD0(mkS("Deque<int,1>", deque_run<int, 1, Alloc>, DW)); ADD1(mkS("Deque<int,3,arena>", deque_run<int, 3, ArenaAlloc<1>>, DW)); ADD2(mkS("Deque<Str,4>", deque_run<Str, 4, LifoAlloc>, DW, 2)); ADD3(mkS("Deque<int,32>", deque_run<int, 32, Alloc>, DW, 2));
    ADD2(mkS("Vector<int>", vector_run<int, Alloc>, VW)); ADD0(mkS("Vector<Str>", vector_run<Str, LifoAlloc>, VW));
    P.quickCases = 16000; P.thoroughCases = 500000;
}
}
