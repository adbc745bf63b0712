// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, int B> using DQ = dstruct::DoubleEndedQueue<T, B>;
static const unsigned F = F_COPY | F_MOVE | F_RENEW;
enum { FWD = 1, BIDI = 2, RAND = 3, DIFF = 4 };
typedef std::vector<const void *> Addrs;

template <int CAT, class It> static Addrs laws(Ctx &c, const char *what, It b, It e, size_t n, uint32_t a, uint32_t r) {
    std::vector<It> p; Addrs ad; p.reserve(n + 1);
    { It x = b; for (size_t i = 0;; i++) { p.push_back(x); if (i == n) break; VP_CHECK(c, x != e && !(x == e), "%s: the end is reached after %zu steps, expected %zu", what, i, n); ad.push_back((const void *)&*x); VP_CHECK(c, (const void *)x.operator->() == ad.back(), "%s: * and -> name different elements at %zu", what, i); if ((a >> (i % 31)) & 1) ++x; else x++; } VP_CHECK(c, x == e && !(x != e) && e == x, "%s: the end is not reached after %zu steps", what, n); }
    { Addrs s = ad; std::sort(s.begin(), s.end()); VP_CHECK(c, std::adjacent_find(s.begin(), s.end()) == s.end(), "%s: two positions name the same element", what); }
    Rng R(((uint64_t)a << 32 | r) + 1); size_t tries = n < 14 ? (n + 1) * (n + 1) : 220;
    for (size_t t = 0; t < tries; t++) {
        size_t i = n < 14 ? t / (n + 1) : R.below((uint32_t)n + 1), j = n < 14 ? t % (n + 1) : R.below(8) ? R.below((uint32_t)n + 1) : i;
        if (n >= 14 && R.below(4) == 0) j = std::min(n, i + R.below(3));
        VP_CHECK(c, (p[i] == p[j]) == (i == j) && (p[i] != p[j]) == (i != j), "%s: positions %zu and %zu of %zu compare %s", what, i, j, n, i == j ? "different" : "equal");
        // independence of copies, assignment over a position
        It x = p[i], y(x); if (i < n) { ++x; VP_CHECK(c, y == p[i] && p[i] != x && x == p[i + 1], "%s: advancing an iterator moves its copy, or not itself (position %zu)", what, i); VP_CHECK(c, (const void *)&*y == ad[i], "%s: advancing an iterator changes what its copy names", what); }
        y = p[j]; VP_CHECK(c, y == p[j], "%s: assignment does not take the position %zu", what, j); if (j < n) { VP_CHECK(c, (const void *)&*y == ad[j], "%s: an assigned iterator names another element than position %zu", what, j); }
        if (i < n) { It z = p[i]; y = z; ++y; VP_CHECK(c, z == p[i] && y == p[i + 1], "%s: an assigned iterator is not independent (position %zu)", what, i); It w(static_cast<It &&>(z)); VP_CHECK(c, w == p[i] && (const void *)&*w == ad[i], "%s: a moved iterator is at another position than %zu", what, i); y = static_cast<It &&>(w); VP_CHECK(c, y == p[i] && (const void *)&*y == ad[i], "%s: move assignment loses position %zu", what, i); ++y; VP_CHECK(c, y == p[i + 1], "%s: a move-assigned iterator steps wrong at %zu", what, i); }
        { It z = p[i]; It &s = z; z = s; VP_CHECK(c, z == p[i], "%s: self-assignment loses position %zu", what, i); if (i < n) { ++z; VP_CHECK(c, z == p[i + 1], "%s: a self-assigned iterator steps wrong at %zu", what, i); } }
        if (i < n) {
            It z = p[i]; It o = z++; VP_CHECK(c, o == p[i] && z == p[i + 1], "%s: post-increment at %zu does not return the old position or does not move", what, i); VP_CHECK(c, (const void *)&*o == ad[i], "%s: post-increment returns another element than %zu", what, i);
            z = p[i]; It &q = ++z; VP_CHECK(c, &q == &z && z == p[i + 1], "%s: pre-increment at %zu does not return the new position", what, i); if (i + 1 < n) VP_CHECK(c, (const void *)&*z == ad[i + 1], "%s: pre-increment reaches another element than %zu", what, i + 1);
            if (i + 2 <= n) { ++++(z = p[i]); VP_CHECK(c, z == p[i + 2], "%s: chained pre-increment at %zu moves wrong", what, i); }
        }
        if constexpr (CAT >= BIDI) if (i > 0) {
            It z = p[i]; It o = z--; VP_CHECK(c, o == p[i] && z == p[i - 1], "%s: post-decrement at %zu of %zu does not return the old position or does not move", what, i, n); VP_CHECK(c, (const void *)&*z == ad[i - 1], "%s: post-decrement reaches another element than %zu", what, i - 1); if (i < n) VP_CHECK(c, (const void *)&*o == ad[i], "%s: post-decrement returns another element than %zu", what, i);
            z = p[i]; It &q = --z; VP_CHECK(c, &q == &z && z == p[i - 1] && (const void *)&*z == ad[i - 1], "%s: pre-decrement at %zu of %zu does not reach the previous position", what, i, n);
            ++z; VP_CHECK(c, z == p[i], "%s: increment does not undo decrement at %zu", what, i); if (i < n) { VP_CHECK(c, (const void *)&*z == ad[i], "%s: increment after decrement names another element than %zu", what, i); ++z; --z; VP_CHECK(c, z == p[i] && (const void *)&*z == ad[i], "%s: decrement does not undo increment at %zu", what, i); }
            // a walk of single steps back and forth
            z = p[i]; size_t k = i; uint32_t w = a ^ r * 2654435761u; for (int s = 0; s < 12; s++, w = w >> 1 | w << 31) { if ((w & 1) && k < n) { if (w & 2) ++z; else z++; k++; } else if (k > 0) { if (w & 4) --z; else z--; k--; } if (k < n) VP_CHECK(c, (const void *)&*z == ad[k], "%s: a walk of single steps names another element than %zu of %zu", what, k, n); VP_CHECK(c, z == p[k], "%s: a walk of single steps is not at position %zu", what, k); }
        }
        if constexpr (CAT >= RAND) {
            int d = (int)j - (int)i; const It ci = p[i];
            It z = ci + d; VP_CHECK(c, z == p[j] && ci == p[i], "%s: position %zu + %d is not position %zu (size %zu)", what, i, d, j, n); if (j < n) VP_CHECK(c, (const void *)&*z == ad[j], "%s: position %zu + %d names another element than %zu (size %zu)", what, i, d, j, n);
            It y2 = ci - (-d); VP_CHECK(c, y2 == p[j] && ci == p[i], "%s: position %zu - %d is not position %zu (size %zu)", what, i, -d, j, n); if (j < n) VP_CHECK(c, (const void *)&*y2 == ad[j], "%s: position %zu - %d names another element than %zu (size %zu)", what, i, -d, j, n);
            It back = z - d; VP_CHECK(c, back == p[i], "%s: + %d and - %d do not cancel at %zu", what, d, d, i); if (i < n) VP_CHECK(c, (const void *)&*back == ad[i], "%s: + %d and - %d lead to another element than %zu", what, d, d, i);
            if (j < n) { ++z; VP_CHECK(c, z == p[j + 1], "%s: a step after + %d goes wrong (position %zu)", what, d, j); } if (j > 0) { --y2; VP_CHECK(c, y2 == p[j - 1] && (const void *)&*y2 == ad[j - 1], "%s: a step back after - %d goes wrong (position %zu)", what, -d, j); }
            VP_CHECK(c, ci + 0 == p[i] && ci - 0 == p[i], "%s: moving by 0 moves", what); if (d < 0) c.label("moved by a negative offset");
            if constexpr (CAT >= DIFF) VP_CHECK(c, p[j] - p[i] == d && dstruct::distance(p[i], p[j]) == d, "%s: the distance of positions %zu and %zu is %lld", what, i, j, (long long)(p[j] - p[i]));
        }
    }
    return ad;
}
template <int CAT, class O> static void both(Env &e, O &o, size_t n, uint32_t a, uint32_t b) {
    Ctx &c = e.ctx; const O &co = o;
    Addrs x = laws<CAT>(c, "iterator", o.begin(), o.end(), n, a, b), y = laws<CAT>(c, "const iterator", co.begin(), co.end(), n, a, b); VP_CHECK(c, x == y, "mutable and constant iteration see different elements");
    size_t i = 0; for (auto &v : o) { VP_CHECK(c, i < n && (const void *)&v == x[i], "range-for sees something else than iteration at %zu", i); i++; } VP_CHECK(c, i == n, "range-for stops after %zu of %zu", i, n);
    i = 0; for (auto &v : co) { VP_CHECK(c, i < n && (const void *)&v == x[i], "constant range-for sees something else than iteration at %zu", i); i++; } VP_CHECK(c, i == n, "constant range-for stops after %zu of %zu", i, n);
    c.label(n == 0 ? "laws on an empty container" : n == 1 ? "laws on one element" : n < 14 ? "laws on 2-13 elements" : n < 100 ? "laws on 14-99 elements" : n <= 700 ? "laws on 100-700 elements" : n <= 32767 ? "laws on 701-32767 elements" : "laws on more than 32767 elements");
}
template <class Ad> struct Extra { template <class O> static void run(Env &, O &, const typename Ad::Model &, size_t, uint32_t, uint32_t) {} };
template <class C, bool S, bool Or> struct Extra<TreeAd<C, S, Or>> { using Ad = TreeAd<C, S, Or>;
    static void run(Env &e, C &t, const typename Ad::Model &m, size_t n, uint32_t a, uint32_t b) {
        using TR = typename C::TraversalType; Ctx &c = e.ctx; const C &ct = t; Addrs in;
        { for (auto it = ct.begin(); it != ct.end(); ++it) in.push_back((const void *)&*it); }
        Addrs pre = laws<FWD>(c, "pre-order iterator", ct.begin(TR::PreOrder), ct.end(TR::PreOrder), n, a, b), po = laws<FWD>(c, "post-order iterator", ct.begin(TR::PostOrder), ct.end(TR::PostOrder), n, a, b), io = laws<FWD>(c, "in-order iterator", ct.begin(TR::InOrder), ct.end(TR::InOrder), n, a, b);
        VP_CHECK(c, io == in, "default and in-order iteration differ");
        { // an iterator assigned over one of another order, position or end goes on as the assigned one
            const Addrs *seq[3] = {&io, &pre, &po};
            for (int from = 0; from < 3; from++) for (int over = 0; over < 3; over++) {
                auto bg = [&](int k) { return k == 0 ? ct.begin(TR::InOrder) : k == 1 ? ct.begin(TR::PreOrder) : ct.begin(TR::PostOrder); }; auto en = [&](int k) { return k == 0 ? ct.end(TR::InOrder) : k == 1 ? ct.end(TR::PreOrder) : ct.end(TR::PostOrder); };
                auto s1 = bg(from); size_t st = n ? (a >> (from * 3)) % (n + 1) : 0; for (size_t k = 0; k < st; k++) ++s1;
                auto d = (b >> over) & 1 ? en(over) : bg(over); if (n > 1 && !((b >> over) & 1)) for (size_t k = 0; k < b % n; k++) ++d;
                d = s1; VP_CHECK(c, d == s1, "an iterator assigned over one of another order is not equal to its source");
                size_t k = st; for (; d != en(from); ++d, k++) VP_CHECK(c, k < n && (const void *)&*d == (*seq[from])[k], "an iterator of order %d assigned over one of order %d goes on elsewhere at %zu", from, over, k); VP_CHECK(c, k == n, "an iterator of order %d assigned over one of order %d ends after %zu of %zu", from, over, k, n);
            } if (n > 2) c.label("assignment across tree orders");
        } for (Addrs *v : {&pre, &po, &in}) std::sort(v->begin(), v->end()); VP_CHECK(c, pre == in && po == in, "the iteration orders see different elements");
        // look-ups yield the same positions as stepping, and step on alike
        size_t i = 0, k = n ? a % n : 0; auto it = ct.begin(); for (; i < k; i++) ++it;
        if (n) { auto f = ct.find(*it); VP_CHECK(c, f == it && !(f != it) && &*f == &*it, "an iterator found and one stepped to at %zu differ", k); for (; f != ct.end(); ++f, ++it) VP_CHECK(c, f == it, "an iterator from find() steps differently at %zu", k); VP_CHECK(c, it == ct.end(), "an iterator from find() ends early"); c.label("stepping on from find()"); }
    } };
template <class K, class V, class KC, class A> struct Extra<MapAd<K, V, KC, A>> { using Ad = MapAd<K, V, KC, A>; using C = typename Ad::Obj;
    static void run(Env &e, C &t, const typename Ad::Model &, size_t n, uint32_t a, uint32_t) {
        Ctx &c = e.ctx; if (!n) return; size_t k = a % n; auto it = t.begin(); for (size_t i = 0; i < k; i++) ++it;
        auto f = t.find(it->key); VP_CHECK(c, f == it && &*f == &*it, "an iterator found and one stepped to at %zu differ", k); for (; f != t.end(); ++f, ++it) VP_CHECK(c, f == it, "an iterator from find() steps differently"); VP_CHECK(c, it == t.end(), "an iterator from find() ends early"); c.label("stepping on from find()");
    } };
template <class B, int CAT> struct LawAd : B {
    using typename B::Obj; using typename B::Model;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = [] { std::vector<OpDef> v = B::ops(); int t = 0; for (auto &x : v) t += x.w; v.push_back({"iterator laws", std::max(1, t / 8)}); return v; }(); return o; }
    static bool apply(Env &e, Obj &o, Model &m, int code, uint32_t a, uint32_t b) {
        if (code < (int)B::ops().size()) { bool r = B::apply(e, o, m, code, a, b); if (r && CAT != FWD && B::msize(m) > 32767 && B::msize(m) < 200000 && e.ctx.scratch++ < 3) both<CAT>(e, o, B::msize(m), a, b); return r; }
        size_t n = B::msize(m); if (n > 700 && (n > (CAT == FWD ? 6000u : 200000u) || e.ctx.scratch++ >= 6)) return false;   // few, but large
        both<CAT>(e, o, n, a, b); Extra<B>::run(e, o, m, n, a, b); e.ctx.nontriv |= 0; return true;
    }
    static void check(Env &e, Obj &o, const Model &m, int) { B::check(e, o, m, 1); }
};
template <class Ad, int CAT> static Suite cs(const char *n, unsigned f = F, int share = 1) { return Machine<LawAd<Ad, CAT>>::suite(n, f, R_OPS, share, Hooks(), 140); }
void define(Property &P) {
    P.id = "C28";
    P.rule = "histories (operations, copies, moves, swaps) with the iterator laws of the container's category checked at random points over all positions (all pairs up to 13 elements, 220 sampled pairs above, offsets in both directions, both constnesses, three tree orders); non-trivial: at least 6 effective operations of at least 3 kinds, at least 3 elements held";
    P.assumptions = {"iterators are used within begin()..end() of a container that is not modified meanwhile", "categories: forward for singly linked lists, trees and maps; bidirectional for doubly linked lists; random access for vectors, arrays, strings, deques and the adapters over them"};
    ADD0((cs<VectorAd<int, Alloc>, DIFF>("Vector<int>"))); ADD0((cs<VectorAd<Str, Alloc>, DIFF>("Vector<Str>")));
    ADD0((cs<ArrayAd<int, 7>, DIFF>("Array<int,7>", F & ~F_MOVE))); ADD0((cs<ArrayAd<int, 1>, DIFF>("Array<int,1>", F & ~F_MOVE))); ADD0((cs<StringAd<Alloc>, DIFF>("String")));
    ADD1((cs<ListAd<dstruct::SinglyLinkedList<int, Alloc>>, FWD>("SinglyLinkedList<int>"))); ADD1((cs<ListAd<dstruct::DoublyLinkedList<Str, Alloc>>, BIDI>("DoublyLinkedList<Str>"))); ADD1((cs<ListAd<dstruct::DoublyLinkedList<int, LifoAlloc>>, BIDI>("DoublyLinkedList<int,LIFO>")));
    ADD2((cs<DequeAd<int, 4, Alloc>, RAND>("Deque<int,4>", F, 2))); ADD2((cs<DequeAd<Str, 32, Alloc>, RAND>("Deque<Str,32>"))); ADD2((cs<DequeAd<int, 1, LifoAlloc>, RAND>("Deque<int,1,LIFO>"))); ADD2((cs<DequeAd<Wide, 2, Alloc>, RAND>("Deque<Wide,2>")));
    ADD1((cs<QueueAd<int, DQ<int, 8>, true>, RAND>("Queue<int>"))); ADD1((cs<StackAd<Str, dstruct::Vector<Str>>, DIFF>("Stack<Str>"))); ADD0((cs<HeapAd<int, less<int>, Alloc>, DIFF>("Heap<int>")));
    ADD3((cs<TreeAd<dstruct::tree::BinarySearchTree<int, less<int>, Alloc>>, FWD>("BST<int>"))); ADD3((cs<TreeAd<dstruct::tree::BinarySearchTree<Str, DirCmp<Str>, LifoAlloc>>, FWD>("BST<Str,stateful,LIFO>"))); ADD3((cs<TreeAd<dstruct::AVLTree<int, less<int>, Alloc>>, FWD>("AVL<int>"))); ADD3((cs<TreeAd<dstruct::AVLTree<Str, DirCmp<Str>, Alloc>>, FWD>("AVL<Str,stateful>"))); ADD3((cs<MapAd<int, Str, less<int>, Alloc>, FWD>("Map<int,Str>")));
    P.quickCases = 12000; P.thoroughCases = 300000;
}
}
