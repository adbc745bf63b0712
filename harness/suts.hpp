// Adaptors: one per container.  Each names the operations, applies them to the
// real object and to the model, and compares everything observable.
#pragma once
#include "machine.hpp"
#include <set>

namespace vp {
using dstruct::Alloc;
typedef std::deque<int> Seq;

template <class It, class E> static void it_step(Ctx &c, It &it, uint32_t mode) {
    if (mode & 1) { It old = it; It r = it++; VP_CHECK(c, r == old && !(r != old), "post-increment does not return the previous position"); }
    else { It &r = ++it; VP_CHECK(c, &r == &it, "pre-increment does not return the iterator itself"); }
}
// forward walk must visit exactly the model
template <class T, class It, class M> static void walk(Ctx &c, It b, It e, const M &m, const char *what) {
    size_t n = 0;
    for (; b != e; ++n) {
        VP_CHECK(c, n < m.size(), "%s: iteration visits more than the %zu elements it holds", what, m.size());
        int k = El<T>::key(*b), w = m[n];
        VP_CHECK(c, k == w, "%s: element %zu of %zu is %d, expected %d", what, n, m.size(), k, w);
        VP_CHECK(c, &*b == b.operator->(), "%s: operator* and operator-> disagree", what);
        if (n & 1) b++; else ++b;
    }
    VP_CHECK(c, b == e, "%s: iterator == and != disagree at the end", what);
    VP_CHECK(c, n == m.size(), "%s: iteration stops after %zu of %zu elements", what, n, m.size());
}
// an extent: mostly below small, one time in eight up to 1200 (70 000 in giant and huge histories)
#ifdef VP_NO_GIANT
static inline size_t extent(uint32_t x, size_t small, bool = true) { return x % small; }
#else
static inline size_t extent(uint32_t x, size_t small, bool linear = true) { return (x >> 8) % 8 ? x % small : g_big > 8 && linear ? x % 70001 : x % 1200; }
#endif
static inline size_t bulk(uint32_t b, size_t size, size_t cap = 4000) {
    static const size_t z[] = {2, 3, 5, 8, 13, 31, 32, 33, 64, 65, 96, 130, 200, 300, 600, 1300};
    size_t n = z[b % 16]; if (n > 200 && (b >> 4) % 4) n = z[b % 10]; n *= g_big; return size + n > cap * g_big ? 0 : n;
}

// ------------------------------------------------------------------ Vector
template <class T, class A> struct VectorAd {
    using Obj = dstruct::Vector<T, A>; struct Model { Seq d; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { PUSHB, PUSH, POPB, POP, SET, SETNEG, CLEAR, RESIZE, RESIZEV, ALIASB, ALIASR, BULKP, BULKQ, CTOR, ITSET, DRAIN, SWAPEL };
    static const size_t giant = 16; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() {
        static const std::vector<OpDef> o = {{"push_back", 20}, {"push", 8}, {"pop_back", 14}, {"pop", 6}, {"[i]=x", 5}, {"[-i]=x", 5}, {"clear", 1}, {"resize(n)", 4}, {"resize(n,x)", 3}, {"push_back(self[i])", 5}, {"resize(n,self[i])", 2}, {"bulk push", 2}, {"bulk pop", 2}, {"Vector(n,x)", 1}, {"*it=x", 3}, {"drain", 1}, {"swap elements", 2}};
        return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static bool apply(Env &e, Obj &v, Model &M, int code, uint32_t a, uint32_t b) {
        Seq &m = M.d; size_t n = m.size(); int k;
        switch (code) {
        case PUSHB: { T x = mk<T>(e, a, k); v.push_back(x); m.push_back(k); return true; }
        case PUSH: { T x = mk<T>(e, a, k); v.push(x); m.push_back(k); return true; }
        case POPB: if (!n) return false; v.pop_back(); m.pop_back(); return true;
        case POP: if (!n) return false; v.pop(); m.pop_back(); return true;
        case SET: { if (!n) return false; T x = mk<T>(e, a, k); v[(int)(b % n)] = x; m[b % n] = k; return true; }
        case SETNEG: { if (!n) return false; T x = mk<T>(e, a, k); size_t i = b % n; v[-(int)(n - i)] = x; m[i] = k; return true; }
        case CLEAR: v.clear(); m.clear(); VP_CHECK(e.ctx, v.capacity() == 0 || v.empty(), "clear() left elements"); return true;
        case RESIZE: { size_t t = pickn(a, n); v.resize(t); if (t < n) m.resize(t); VP_CHECK(e.ctx, v.capacity() >= t, "after resize(%zu) the capacity is %llu", t, (unsigned long long)v.capacity()); return true; }
        case RESIZEV: { size_t t = pickn(a, n); T x = mk<T>(e, b, k); v.resize(t, x); m.resize(t, k); if (t > n) e.ctx.label("resize(n,x) grows"); return true; }
        case ALIASB: { if (!n) return false; size_t i = b % n; bool full = v.capacity() == v.size(); v.push_back(v[(int)i]); m.push_back(m[i]); if (full) e.ctx.label("self-element pushed while full"); return true; }
        case ALIASR: { if (!n) return false; size_t i = b % n, t = pickn(a, n); int w = m[i]; v.resize(t, v[(int)i]); m.resize(t, w); return true; }
        case BULKP: { size_t t = bulk(b, n); for (size_t i = 0; i < t; i++) { T x = mk<T>(e, a + (uint32_t)i * 7, k); v.push_back(x); m.push_back(k); } return t > 0; }
        case BULKQ: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) { v.pop_back(); m.pop_back(); VP_CHECK(e.ctx, v.size() == m.size(), "size wrong while popping"); } return t > 0; }
        case CTOR: { size_t t = 1 + extent(a, 40); T x = mk<T>(e, b, k); v.~Obj(); new (&v) Obj((dstruct::size_t)t, x); m.assign(t, k); return true; }
        case ITSET: { if (!n) return false; T x = mk<T>(e, a, k); auto it = v.begin() + (int)(b % n); *it = x; m[b % n] = k; return true; }
        case DRAIN: if (!n || n > 300) return false; while (!v.empty()) { VP_CHECK(e.ctx, El<T>::key(v.back()) == m.back(), "back() wrong while draining"); v.pop_back(); m.pop_back(); } VP_CHECK(e.ctx, m.empty(), "became empty with %zu elements left", m.size()); return true;
        case SWAPEL: { if (n < 2) return false; size_t i = a % n, j = b % n; if (i == j) return false; dstruct::swap(v[(int)i], v[(int)j]); std::swap(m[i], m[j]); return true; }
        }
        return false;
    }
    static size_t pickn(uint32_t a, size_t n) {
        switch (a % 8) { case 0: return 0; case 1: return n; case 2: return n + 1; case 3: return n ? n - 1 : 0; case 4: return 2 * n < 3000 ? 2 * n : n; case 5: return n / 2; case 6: return n ? (a >> 3) % n : 1; default: return std::min<size_t>(n + (a >> 3) % 60, 4000); } }
    static void check(Env &e, Obj &v, const Model &M, int lvl) {
        const Seq &m = M.d; Ctx &c = e.ctx; const Obj &cv = v; size_t n = m.size();
        VP_CHECK(c, cv.size() == n, "Vector: size() is %llu, expected %zu", (unsigned long long)cv.size(), n);
        VP_CHECK(c, cv.empty() == (n == 0), "Vector: empty() wrong at size %zu", n);
        VP_CHECK(c, cv.capacity() >= n, "Vector: capacity() %llu is smaller than size() %zu", (unsigned long long)cv.capacity(), n);
        if (n) {
            VP_CHECK(c, El<T>::key(cv.back()) == m.back(), "Vector: back() is %d, expected %d (size %zu)", El<T>::key(cv.back()), m.back(), n);
            VP_CHECK(c, El<T>::key(cv.front()) == m.front(), "Vector: front() is %d, expected %d (size %zu)", El<T>::key(cv.front()), m.front(), n);
        }
        size_t step = lvl >= 2 ? 1 : n / 5 + 1;
        for (size_t i = 0; i < n; i += step) {
            VP_CHECK(c, El<T>::key(cv[(int)i]) == m[i], "Vector: [%zu] is %d, expected %d (size %zu)", i, El<T>::key(cv[(int)i]), m[i], n);
            VP_CHECK(c, &v[(int)i] == &cv[(int)i], "Vector: const and non-const access disagree");
            VP_CHECK(c, &v[-(int)(n - i)] == &v[(int)i] && &cv[-(int)(n - i)] == &cv[(int)i], "Vector: negative index -%zu does not name element %zu", n - i, i);
        }
        if (lvl < 2) return;
        walk<T>(c, v.begin(), v.end(), m, "Vector"); walk<T>(c, cv.begin(), cv.end(), m, "const Vector");
        VP_CHECK(c, v.end() - v.begin() == (long long)n, "Vector: end()-begin() is not the size");
        auto it = v.end(); for (size_t i = n; i-- > 0;) { if (i & 1) --it; else it--; VP_CHECK(c, El<T>::key(*it) == m[i], "Vector: backward iteration wrong at %zu", i); }
        size_t i = 0; for (auto &x : cv) { VP_CHECK(c, i < n && El<T>::key(x) == m[i], "Vector: range-for wrong at %zu", i); i++; }
    }
};

// ------------------------------------------------------------------ Array
template <class T, int N> struct ArrayAd {
    using Obj = dstruct::Array<T, N>; struct Model { std::vector<int> d; bool known = false; };
    static const bool copyable = true, reusable = false;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &) { return N; }
    static size_t slack(const Model &) { return N == 0 ? 1 : 0; }
    enum { SET, SETNEG, FILL, ITSET, SWAPEL, FRONTBACK };
    static const size_t giant = 1; static const int growOp = -1;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"[i]=x", 10}, {"[-i]=x", 10}, {"Array(x)", 1}, {"*it=x", 8}, {"swap elements", 4}, {"self[i]=self[j]", 3}}; return o; }
    static Obj *construct(Env &e, void *p, Model &m, uint32_t a) { int k; T x = mk<T>(e, a, k); m.d.assign(N, k); return new (p) Obj(x); }
    static bool apply(Env &e, Obj &v, Model &M, int code, uint32_t a, uint32_t b) {
        auto &m = M.d; int k; if (N == 0) return false; const int NN = N ? N : 1;
        switch (code) {
        case SET: { T x = mk<T>(e, a, k); v[(int)(b % NN)] = x; m[b % NN] = k; return true; }
        case SETNEG: { T x = mk<T>(e, a, k); int i = b % NN; v[i - NN] = x; m[i] = k; return true; }
        case FILL: { T x = mk<T>(e, a, k); v = Obj(x); m.assign(N, k); return true; }
        case ITSET: { T x = mk<T>(e, a, k); auto it = v.begin() + (int)(b % NN); *it = x; m[b % NN] = k; return true; }
        case SWAPEL: { int i = a % NN, j = b % NN; if (i == j) return false; dstruct::swap(v[i], v[j]); std::swap(m[i], m[j]); return true; }
        case FRONTBACK: { int i = a % NN, j = b % NN; v[i] = v[j - NN]; m[i] = m[j]; return true; }
        }
        return false;
    }
    static void check(Env &e, Obj &v, const Model &M, int lvl) {
        auto &m = M.d; Ctx &c = e.ctx; const Obj &cv = v;
        VP_CHECK(c, cv.size() == N && cv.capacity() == N, "Array: size() is not N"); VP_CHECK(c, cv.empty() == (N == 0), "Array: empty() wrong");
        const int step = N > 128 && lvl < 2 ? 1 + N / 37 : 1;
        for (int i = N > 128 && lvl < 2 ? c.eff % step : 0; i < N; i += step) {
            VP_CHECK(c, El<T>::key(cv[i]) == m[i], "Array: [%d] is %d, expected %d (N=%d)", i, El<T>::key(cv[i]), m[i], N);
            VP_CHECK(c, &cv[i - N] == &cv[i] && &v[i - N] == &v[i] && &v[i] == &cv[i], "Array: negative index %d does not name element %d", i - N, i);
        }
        if (N) { VP_CHECK(c, &cv.front() == &cv[0] && &cv.back() == &cv[N - 1], "Array: front()/back() wrong"); }
        walk<T>(c, v.begin(), v.end(), m, "Array"); walk<T>(c, cv.begin(), cv.end(), m, "const Array");
    }
};

// ------------------------------------------------------------------ lists
template <class L> struct ListTraits;
template <class T, class A> struct ListTraits<dstruct::SinglyLinkedList<T, A>> { static const bool dbl = false; using E = T; };
template <class T, class A> struct ListTraits<dstruct::DoublyLinkedList<T, A>> { static const bool dbl = true; using E = T; };
template <class L> struct ListAd {
    using Obj = L; using T = typename ListTraits<L>::E; static const bool dbl = ListTraits<L>::dbl; struct Model { Seq d; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &) { return 1; }
    enum { PUSHF, PUSHB, PUSH, POPF, POPB, POP, CLEAR, ALIASF, ALIASB, ITSET, BULKF, BULKB, BULKPOPF, BULKPOPB, CTOR, DRAIN, ROT };
    static const size_t giant = 16; static const int growOp = BULKB;
    static const std::vector<OpDef> &ops() {
        static const std::vector<OpDef> o = {{"push_front", 12}, {"push_back", 12}, {"push", 6}, {"pop_front", 9}, {dbl ? "pop_back" : "_pop_back", 9}, {"pop", 5}, {"clear", 1}, {"push_front(*it)", 3}, {"push_back(*it)", 3}, {"*it=x", 5}, {"bulk push_front", 1}, {"bulk push_back", 1}, {"bulk pop_front", 1}, {"bulk pop_back", 1}, {"List(n,x)", 1}, {"drain", 1}, {"rotate", 3}};
        return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static void popb(Obj &l) { if constexpr (dbl) l.pop_back(); else l._pop_back(); }
    static bool apply(Env &e, Obj &l, Model &M, int code, uint32_t a, uint32_t b) {
        Seq &m = M.d; size_t n = m.size(); int k;
        auto at = [&](size_t i) { auto it = l.begin(); while (i--) it++; return it; };
        switch (code) {
        case PUSHF: { T x = mk<T>(e, a, k); l.push_front(x); m.push_front(k); return true; }
        case PUSHB: { T x = mk<T>(e, a, k); l.push_back(x); m.push_back(k); return true; }
        case PUSH: { T x = mk<T>(e, a, k); l.push(x); m.push_front(k); return true; }
        case POPF: if (!n) return false; l.pop_front(); m.pop_front(); return true;
        case POPB: if (!n) return false; popb(l); m.pop_back(); return true;
        case POP: if (!n) return false; l.pop(); m.pop_front(); return true;
        case CLEAR: l.clear(); m.clear(); return true;
        case ALIASF: { if (!n) return false; size_t i = b % n; l.push_front(*at(i)); int w = m[i]; m.push_front(w); return true; }
        case ALIASB: { if (!n) return false; size_t i = b % n; l.push_back(*at(i)); int w = m[i]; m.push_back(w); return true; }
        case ITSET: { if (!n) return false; T x = mk<T>(e, a, k); *at(b % n) = x; m[b % n] = k; return true; }
        case BULKF: { size_t t = bulk(b, n, 1500); for (size_t i = 0; i < t; i++) { T x = mk<T>(e, a + (uint32_t)i * 7, k); l.push_front(x); m.push_front(k); } return t > 0; }
        case BULKB: { size_t t = bulk(b, n, 1500); for (size_t i = 0; i < t; i++) { T x = mk<T>(e, a + (uint32_t)i * 7, k); l.push_back(x); m.push_back(k); } return t > 0; }
        case BULKPOPF: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) { l.pop_front(); m.pop_front(); } return t > 0; }
        case BULKPOPB: { size_t t = std::min(n, bulk(b, 0)); if (!dbl && t > 130) t = 130; for (size_t i = 0; i < t; i++) { popb(l); m.pop_back(); } return t > 0; }
        case CTOR: { size_t t = extent(a, 20); T x = mk<T>(e, b, k); l.~Obj(); new (&l) Obj((dstruct::size_t)t, x); m.assign(t, k); return true; }
        case DRAIN: if (!n || n > 200) return false; while (!l.empty()) { VP_CHECK(e.ctx, !m.empty() && El<T>::key(l.front()) == m.front() && El<T>::key(l.back()) == m.back(), "list: front()/back() wrong while draining"); if ((a++) & 1 && dbl) { popb(l); m.pop_back(); } else { l.pop_front(); m.pop_front(); } } VP_CHECK(e.ctx, m.empty(), "list became empty with %zu elements left", m.size()); return true;
        case ROT: { if (!n) return false; T x = l.front(); l.pop_front(); l.push_back(x); int w = m.front(); m.pop_front(); m.push_back(w); return true; }
        }
        return false;
    }
    static void check(Env &e, Obj &l, const Model &M, int lvl) {
        const Seq &m = M.d; Ctx &c = e.ctx; const Obj &cl = l; size_t n = m.size();
        VP_CHECK(c, cl.size() == n, "list: size() is %llu, expected %zu", (unsigned long long)cl.size(), n);
        VP_CHECK(c, cl.empty() == (n == 0), "list: empty() wrong at size %zu", n);
        if (n) {
            { int k = El<T>::key(cl.front()); VP_CHECK(c, k == m.front(), "list: front() is %d, expected %d (size %zu)", k, m.front(), n); }
            { int k = El<T>::key(cl.back()); VP_CHECK(c, k == m.back(), "list: back() is %d, expected %d (size %zu)", k, m.back(), n); }
        }
        if (lvl < 2) return;
        walk<T>(c, l.begin(), l.end(), m, "list");
        { size_t i = 0; auto it = cl.begin(); auto en = cl.end(); for (; it != en; it++) { VP_CHECK(c, i < n && El<T>::key(const_cast<const T &>(*it)) == m[i], "const list: iteration wrong at %zu of %zu", i, n); i++; } VP_CHECK(c, i == n, "const list: iteration stops early"); }
        if constexpr (dbl) {
            auto it = l.end(); for (size_t i = n; i-- > 0;) { if (i & 1) --it; else it--; VP_CHECK(c, El<T>::key(*it) == m[i], "list: backward iteration is %d at %zu, expected %d", El<T>::key(*it), i, m[i]); }
            VP_CHECK(c, it == l.begin(), "list: backward iteration does not end at begin()");
        }
    }
};

// ------------------------------------------------------------------ Deque
template <class T, int B, class A> struct DequeAd {
    using Obj = dstruct::DoubleEndedQueue<T, B, A>; struct Model { Seq d; size_t peak = 0; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { PUSHB, PUSHF, PUSH, POPB, POPF, POP, CLEAR, ALIASB, ALIASF, BULKB, BULKF, BULKPB, BULKPF, SPINF, SPINB, DRAIN, PINGPONG };
    static const size_t giant = 16; static const int growOp = BULKB;
    static const std::vector<OpDef> &ops() {
        static const std::vector<OpDef> o = {{"push_back", 14}, {"push_front", 14}, {"push", 4}, {"pop_back", 12}, {"pop_front", 12}, {"pop", 4}, {"clear", 1}, {"push_back(self[i])", 3}, {"push_front(self[i])", 3}, {"bulk push_back", 3}, {"bulk push_front", 3}, {"bulk pop_back", 3}, {"bulk pop_front", 3}, {"spin push_back/pop_front", 2}, {"spin push_front/pop_back", 2}, {"drain", 1}, {"push/pop one end", 2}};
        return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static bool apply(Env &e, Obj &q, Model &M, int code, uint32_t a, uint32_t b) {
        Seq &m = M.d; size_t n = m.size(); int k;
        auto pb = [&](uint32_t v) { T x = mk<T>(e, v, k); q.push_back(x); m.push_back(k); };
        auto pf = [&](uint32_t v) { T x = mk<T>(e, v, k); q.push_front(x); m.push_front(k); };
        auto ends = [&] { if (!m.empty()) { VP_CHECK(e.ctx, El<T>::key(q.front()) == m.front(), "deque: front() wrong at size %zu", m.size()); VP_CHECK(e.ctx, El<T>::key(q.back()) == m.back(), "deque: back() wrong at size %zu", m.size()); } VP_CHECK(e.ctx, q.size() == m.size() && q.empty() == m.empty(), "deque: size() is %llu, expected %zu", (unsigned long long)q.size(), m.size()); };
        switch (code) {
        case PUSHB: pb(a); return true;
        case PUSHF: pf(a); return true;
        case PUSH: { T x = mk<T>(e, a, k); q.push(x); m.push_back(k); return true; }
        case POPB: if (!n) return false; q.pop_back(); m.pop_back(); return true;
        case POPF: if (!n) return false; q.pop_front(); m.pop_front(); return true;
        case POP: if (!n) return false; q.pop(); m.pop_front(); return true;
        case CLEAR: q.clear(); m.clear(); return true;
        case ALIASB: { if (!n) return false; size_t i = b % std::min<size_t>(n, 200); q.push_back(q[(int)i]); int w = m[i]; m.push_back(w); return true; }
        case ALIASF: { if (!n) return false; size_t i = b % std::min<size_t>(n, 200); q.push_front(q[-1 - (int)i]); int w = m[n - 1 - i]; m.push_front(w); return true; }
        case BULKB: { size_t t = bulk(b, n); for (size_t i = 0; i < t; i++) { pb(a + (uint32_t)i * 7); ends(); } return t > 0; }
        case BULKF: { size_t t = bulk(b, n); for (size_t i = 0; i < t; i++) { pf(a + (uint32_t)i * 7); ends(); } return t > 0; }
        case BULKPB: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) { q.pop_back(); m.pop_back(); ends(); } return t > 0; }
        case BULKPF: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) { q.pop_front(); m.pop_front(); ends(); } return t > 0; }
        case SPINF: { size_t t = 2 + b % 200; for (size_t i = 0; i < t; i++) { pb(a + (uint32_t)i * 7); q.pop_front(); m.pop_front(); ends(); } return true; }
        case SPINB: { size_t t = 2 + b % 200; for (size_t i = 0; i < t; i++) { pf(a + (uint32_t)i * 7); q.pop_back(); m.pop_back(); ends(); } return true; }
        case DRAIN: { if (!n || n > 600 + 4000 * (b % 4 == 0)) return false; size_t i = 0; while (!q.empty()) { VP_CHECK(e.ctx, !m.empty(), "deque: not empty after %zu removals", i); ends(); if ((a >> (i++ % 20)) & 1) { q.pop_back(); m.pop_back(); } else { q.pop_front(); m.pop_front(); } } VP_CHECK(e.ctx, m.empty(), "deque became empty with %zu elements left", m.size()); return true; }
        case PINGPONG: { size_t t = 2 + extent(b, 40); for (size_t i = 0; i < t; i++) { if (a & 1) { pb(a + (uint32_t)i); ends(); q.pop_back(); m.pop_back(); } else { pf(a + (uint32_t)i); ends(); q.pop_front(); m.pop_front(); } ends(); } return true; }
        }
        return false;
    }
    static void check(Env &e, Obj &q, const Model &M, int lvl) {
        const Seq &m = M.d; Ctx &c = e.ctx; const Obj &cq = q; size_t n = m.size();
        VP_CHECK(c, cq.size() == n, "deque: size() is %llu, expected %zu", (unsigned long long)cq.size(), n);
        VP_CHECK(c, cq.empty() == (n == 0), "deque: empty() wrong at size %zu", n);
        VP_CHECK(c, cq.capacity() >= n, "deque: capacity() %llu is smaller than size() %zu", (unsigned long long)cq.capacity(), n);
        if (n) {
            { int k = El<T>::key(cq.front()); VP_CHECK(c, k == m.front(), "deque: front() is %d, expected %d (size %zu)", k, m.front(), n); }
            { int k = El<T>::key(cq.back()); VP_CHECK(c, k == m.back(), "deque: back() is %d, expected %d (size %zu)", k, m.back(), n); }
            size_t idx[6] = {0, 1, n / 2, n - 1, (size_t)B, n > 9 ? n - 9 : 0};
            for (size_t i : idx) if (i < n && (i < 300 || n - i < 300 || lvl >= 2)) {
                VP_CHECK(c, El<T>::key(cq[(int)i]) == m[i], "deque: [%zu] is %d, expected %d (size %zu)", i, El<T>::key(cq[(int)i]), m[i], n);
                VP_CHECK(c, &cq[(int)i] == &cq[-(int)(n - i)], "deque: negative index -%zu does not name element %zu", n - i, i);
            }
        }
        if (lvl < 2) return;
        walk<T>(c, cq.begin(), cq.end(), m, "deque");
        auto it = cq.end(); for (size_t i = n; i-- > 0;) { if (i & 1) --it; else it--; VP_CHECK(c, El<T>::key(*it) == m[i], "deque: backward iteration wrong at %zu", i); }
        VP_CHECK(c, it == cq.begin(), "deque: backward iteration does not end at begin()");
        if (n <= 40) for (size_t i = 0; i < n; i++) VP_CHECK(c, El<T>::key(cq[(int)i]) == m[i] && &cq[(int)i] == &cq[(int)i - (int)n], "deque: [%zu] wrong (size %zu)", i, n);
    }
};

// ------------------------------------------------------------------ adapters
template <class T, class DS, bool IDX> struct QueueAd {
    using Obj = dstruct::adapter::Queue<T, DS>; struct Model { Seq d; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &) { return 1; }
    enum { PUSH, POP, BULKP, BULKQ, SPIN, ROT, DRAIN };
    static const size_t giant = 16; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push", 20}, {"pop", 16}, {"bulk push", 3}, {"bulk pop", 3}, {"spin", 3}, {"push(front);pop", 4}, {"drain", 1}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static bool apply(Env &e, Obj &q, Model &M, int code, uint32_t a, uint32_t b) {
        Seq &m = M.d; size_t n = m.size(); int k;
        auto pu = [&](uint32_t v) { T x = mk<T>(e, v, k); q.push(x); m.push_back(k); };
        auto po = [&] { VP_CHECK(e.ctx, El<T>::key(q.front()) == m.front(), "queue: front() is %d, expected the oldest element %d (size %zu)", El<T>::key(q.front()), m.front(), m.size()); q.pop(); m.pop_front(); VP_CHECK(e.ctx, q.size() == m.size(), "queue: size() is %llu, expected %zu", (unsigned long long)q.size(), m.size()); };
        switch (code) {
        case PUSH: pu(a); return true;
        case POP: if (!n) return false; po(); return true;
        case BULKP: { size_t t = bulk(b, n, 2000); for (size_t i = 0; i < t; i++) pu(a + (uint32_t)i * 7); return t > 0; }
        case BULKQ: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) po(); return t > 0; }
        case SPIN: { size_t t = 2 + extent(b, 150); for (size_t i = 0; i < t; i++) { pu(a + (uint32_t)i * 7); po(); } return true; }
        case ROT: { if (!n) return false; T x = q.front(); q.push(x); int w = m.front(); m.push_back(w); po(); return true; }
        case DRAIN: if (!n || n > 400) return false; while (!q.empty()) { VP_CHECK(e.ctx, !m.empty(), "queue: not empty after removing everything"); po(); } VP_CHECK(e.ctx, m.empty(), "queue became empty with %zu left", m.size()); return true;
        }
        return false;
    }
    static void check(Env &e, Obj &q, const Model &M, int lvl) {
        const Seq &m = M.d; Ctx &c = e.ctx; const Obj &cq = q; size_t n = m.size();
        VP_CHECK(c, cq.size() == n, "queue: size() is %llu, expected %zu", (unsigned long long)cq.size(), n);
        VP_CHECK(c, cq.empty() == (n == 0), "queue: empty() wrong at size %zu", n);
        if (n) { { int k = El<T>::key(cq.front()); VP_CHECK(c, k == m.front(), "queue: front() is %d, expected %d", k, m.front()); } { int k = El<T>::key(cq.back()); VP_CHECK(c, k == m.back(), "queue: back() is %d, expected %d", k, m.back()); } }
        if constexpr (IDX) { size_t lim = n < 60 ? n : lvl >= 2 ? n : 5; size_t st = n < 60 ? 1 : n > 5000 ? n / 6 + 1 : 17; for (size_t i = 0; i < lim; i += st) VP_CHECK(c, El<T>::key(q[(int)i]) == m[i], "queue: [%zu] wrong (size %zu)", i, n); }
        if (lvl < 2) return;
        size_t i = 0; for (auto it = cq.begin(); it != cq.end(); it++) { VP_CHECK(c, i < n && El<T>::key(*it) == m[i], "queue: iteration wrong at %zu of %zu", i, n); i++; } VP_CHECK(c, i == n, "queue: iteration stops after %zu of %zu", i, n);
    }
};
template <class T, class DS> struct StackAd {
    using Obj = dstruct::adapter::Stack<T, DS>; struct Model { Seq d; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &) { return 1; }
    enum { PUSH, POP, BULKP, BULKQ, CLEAR, DUP, DRAIN };
    static const size_t giant = 16; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push", 20}, {"pop", 16}, {"bulk push", 3}, {"bulk pop", 3}, {"clear", 1}, {"push(top)", 4}, {"drain", 1}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static bool apply(Env &e, Obj &q, Model &M, int code, uint32_t a, uint32_t b) {
        Seq &m = M.d; size_t n = m.size(); int k;
        auto pu = [&](uint32_t v) { T x = mk<T>(e, v, k); q.push(x); m.push_back(k); };
        auto po = [&] { VP_CHECK(e.ctx, El<T>::key(q.top()) == m.back(), "stack: top() is %d, expected the newest element %d (size %zu)", El<T>::key(q.top()), m.back(), m.size()); q.pop(); m.pop_back(); VP_CHECK(e.ctx, q.size() == m.size(), "stack: size() is %llu, expected %zu", (unsigned long long)q.size(), m.size()); };
        switch (code) {
        case PUSH: pu(a); return true;
        case POP: if (!n) return false; po(); return true;
        case BULKP: { size_t t = bulk(b, n, 2000); for (size_t i = 0; i < t; i++) pu(a + (uint32_t)i * 7); return t > 0; }
        case BULKQ: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) po(); return t > 0; }
        case CLEAR: q.clear(); m.clear(); return true;
        case DUP: { if (!n) return false; T x = q.top(); q.push(x); int w = m.back(); m.push_back(w); return true; }
        case DRAIN: if (!n || n > 400) return false; while (!q.empty()) { VP_CHECK(e.ctx, !m.empty(), "stack: not empty after removing everything"); po(); } VP_CHECK(e.ctx, m.empty(), "stack became empty with %zu left", m.size()); return true;
        }
        return false;
    }
    static void check(Env &e, Obj &q, const Model &M, int lvl) {
        const Seq &m = M.d; Ctx &c = e.ctx; const Obj &cq = q; size_t n = m.size();
        VP_CHECK(c, cq.size() == n, "stack: size() is %llu, expected %zu", (unsigned long long)cq.size(), n);
        VP_CHECK(c, cq.empty() == (n == 0), "stack: empty() wrong at size %zu", n);
        if (n) { int k = El<T>::key(cq.top()); VP_CHECK(c, k == m.back(), "stack: top() is %d, expected %d (size %zu)", k, m.back(), n); }
        if (lvl < 2) return;
        size_t i = 0; for (auto it = cq.begin(); it != cq.end(); it++) { VP_CHECK(c, i < n && El<T>::key(*it) == m[i], "stack: iteration wrong at %zu of %zu", i, n); i++; } VP_CHECK(c, i == n, "stack: iteration stops after %zu of %zu", i, n);
    }
};

// extreme-value stack; DIR>0: minimum, DIR<0: maximum (by El order)
template <class T, class S, int DIR> struct XStackAd {
    using Obj = S; struct Model { std::vector<int> d, x; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.d.size(); }
    static size_t slack(const Model &m) { return m.d.size() + 2; }
    enum { PUSH, POP, PUSHX, PUSHTOP, BULKP, BULKQ, CLEAR, DRAIN };
    static const size_t giant = 8; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push", 20}, {"pop", 16}, {"push(extreme)", 5}, {"push(top)", 4}, {"bulk push", 2}, {"bulk pop", 2}, {"clear", 1}, {"drain", 1}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static void mpush(Model &m, int k) { int x = m.d.empty() ? k : (DIR > 0 ? std::min(k, m.x.back()) : std::max(k, m.x.back())); m.d.push_back(k); m.x.push_back(x); }
    static void see(Env &e, const Obj &s, const Model &m) {
        VP_CHECK(e.ctx, s.empty() == m.d.empty(), "extreme-value stack: empty() is %d with %zu elements", (int)s.empty(), m.d.size());
        if (m.d.empty()) return;
        { int k = El<T>::key(s.top()); VP_CHECK(e.ctx, k == m.d.back(), "extreme-value stack: top() is %d, expected %d (size %zu)", k, m.d.back(), m.d.size()); }
        { int k = El<T>::key(s.getXValue()); VP_CHECK(e.ctx, k == m.x.back(), "extreme-value stack: %s is %d, expected %d (size %zu)", DIR > 0 ? "minimum" : "maximum", k, m.x.back(), m.d.size()); }
    }
    static bool apply(Env &e, Obj &q, Model &m, int code, uint32_t a, uint32_t b) {
        size_t n = m.d.size(); int k;
        auto pu = [&](uint32_t v) { T x = mk<T>(e, v, k); q.push(x); mpush(m, k); };
        auto po = [&] { q.pop(); m.d.pop_back(); m.x.pop_back(); see(e, q, m); };
        switch (code) {
        case PUSH: pu(a); return true;
        case POP: if (!n) return false; po(); return true;
        case PUSHX: { if (!n) return false; q.push(q.getXValue()); mpush(m, m.x.back()); e.ctx.label("duplicate of the extreme value pushed"); return true; }
        case PUSHTOP: { if (!n) return false; q.push(q.top()); mpush(m, m.d.back()); return true; }
        case BULKP: { size_t t = bulk(b, n, 1500); for (size_t i = 0; i < t; i++) { pu(a + (uint32_t)i * 7); see(e, q, m); } return t > 0; }
        case BULKQ: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) po(); return t > 0; }
        case CLEAR: q.clear(); m = Model(); return true;
        case DRAIN: if (!n || n > 400) return false; while (!q.empty()) { VP_CHECK(e.ctx, !m.d.empty(), "extreme-value stack: not empty after removing everything"); see(e, q, m); po(); } VP_CHECK(e.ctx, m.d.empty(), "extreme-value stack became empty with %zu left", m.d.size()); return true;
        }
        return false;
    }
    static void check(Env &e, Obj &q, const Model &m, int) { see(e, q, m); }
};

// ------------------------------------------------------------------ Heap
template <class T, class Cmp> struct CmpDirOf { static int dir(const Cmp &) { return 1; } static Cmp make(uint32_t) { return Cmp(); } static const bool stateful = false; };
template <class T> struct CmpDirOf<T, dstruct::greater<T>> { static int dir(const dstruct::greater<T> &) { return -1; } static dstruct::greater<T> make(uint32_t) { return {}; } static const bool stateful = false; };
template <class T> struct CmpDirOf<T, DirCmp<T>> { static int dir(const DirCmp<T> &c) { return c.dir; } static DirCmp<T> make(uint32_t a) { return DirCmp<T>(a & 1 ? -1 : 1); } static const bool stateful = true; };

template <class T, class Cmp, class A> struct HeapAd {
    using Obj = dstruct::Heap<T, Cmp, A>; struct Model { std::multiset<int> s; int dir = 1; };
    static const bool copyable = true, reusable = true;
    using CD = CmpDirOf<T, Cmp>;
    static void reset() {}
    static void moved(Model &m) { m.s.clear(); }
    static size_t msize(const Model &m) { return m.s.size(); }
    static size_t slack(const Model &) { return 1; }
    enum { PUSH, POP, PUSHTOP, BULKP, BULKQ, FROMRANGE, DRAIN, REPLACE };
    static const size_t giant = 8; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push", 22}, {"pop", 16}, {"push(top)", 3}, {"bulk push", 2}, {"bulk pop", 2}, {"Heap(begin,end)", 2}, {"drain", 1}, {"pop;push", 4}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t a) { m = Model(); Cmp c = CD::make(a); m.dir = CD::dir(c); if (CD::stateful) return new (p) Obj(c); return new (p) Obj; }
    static int best(const Model &m) { return m.dir > 0 ? *m.s.begin() : *m.s.rbegin(); }
    static void see(Env &e, const Obj &h, const Model &m) {
        VP_CHECK(e.ctx, h.size() == m.s.size() && h.empty() == m.s.empty(), "heap: size() is %llu, expected %zu", (unsigned long long)h.size(), m.s.size());
        if (!m.s.empty()) { int k = El<T>::key(h.top()); VP_CHECK(e.ctx, k == best(m), "heap: top() is %d, expected %d (size %zu)", k, best(m), m.s.size()); }
    }
    static void mpop(Model &m) { if (m.dir > 0) m.s.erase(m.s.begin()); else m.s.erase(--m.s.end()); }
    static bool apply(Env &e, Obj &h, Model &m, int code, uint32_t a, uint32_t b) {
        size_t n = m.s.size(); int k;
        auto pu = [&](uint32_t v) { T x = mk<T>(e, v, k); h.push(x); m.s.insert(k); };
        switch (code) {
        case PUSH: pu(a); return true;
        case POP: if (!n) return false; h.pop(); mpop(m); return true;
        case PUSHTOP: { if (!n) return false; h.push(h.top()); m.s.insert(best(m)); return true; }
        case BULKP: { size_t t = bulk(b, n, 1500); for (size_t i = 0; i < t; i++) { pu(a + (uint32_t)i * 7919); see(e, h, m); } return t > 0; }
        case BULKQ: { size_t t = std::min(n, bulk(b, 0)); for (size_t i = 0; i < t; i++) { h.pop(); mpop(m); see(e, h, m); } return t > 0; }
        case FROMRANGE: { if (CD::stateful) return false; dstruct::Vector<T, A> v; size_t t = extent(b, 70); m.s.clear(); for (size_t i = 0; i < t; i++) { T x = mk<T>(e, a + (uint32_t)i * 7919, k); v.push_back(x); m.s.insert(k); } h.~Obj(); new (&h) Obj(v.begin(), v.end()); return true; }
        case DRAIN: if (!n || n > 400) return false; while (!h.empty()) { VP_CHECK(e.ctx, !m.s.empty(), "heap: not empty after removing everything"); see(e, h, m); h.pop(); mpop(m); } VP_CHECK(e.ctx, m.s.empty(), "heap became empty with %zu left", m.s.size()); return true;
        case REPLACE: { if (!n) return false; h.pop(); mpop(m); pu(a); return true; }
        }
        return false;
    }
    static void check(Env &e, Obj &h, const Model &m, int lvl) {
        see(e, h, m); if (lvl < 2) return;
        std::vector<int> got; const Obj &ch = h;
        for (auto it = ch.begin(); it != ch.end(); it++) { got.push_back(El<T>::key(*it)); VP_CHECK(e.ctx, got.size() <= m.s.size(), "heap: iteration visits more than %zu elements", m.s.size()); }
        for (size_t i = 1; i < got.size(); i++) { int p = got[(i - 1) / 2]; VP_CHECK(e.ctx, m.dir > 0 ? p <= got[i] : p >= got[i], "heap: parent %d at %zu does not precede child %d at %zu", p, (i - 1) / 2, got[i], i); }
        std::sort(got.begin(), got.end());
        VP_CHECK(e.ctx, got.size() == m.s.size() && std::equal(got.begin(), got.end(), m.s.begin()), "heap: the elements held are not the elements pushed minus those popped (size %zu)", m.s.size());
    }
};

// ------------------------------------------------------------------ trees
template <class C> struct TreeTraits;
template <class T, class Cmp, class A> struct TreeTraits<dstruct::tree::BinarySearchTree<T, Cmp, A>> { using E = T; using CMP = Cmp; using AL = A; static const bool avl = false; };
template <class T, class Cmp, class A> struct TreeTraits<dstruct::AVLTree<T, Cmp, A>> { using E = T; using CMP = Cmp; using AL = A; static const bool avl = true; };
template <class C, bool SHAPE = false, bool ORDERS = false> struct TreeAd {
    using Obj = C; using TT = TreeTraits<C>; using T = typename TT::E; using Cmp = typename TT::CMP; static const bool avl = TT::avl; using CD = CmpDirOf<T, Cmp>;
    struct Model { std::set<int> s; int dir = 1; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m.s.clear(); }
    static size_t msize(const Model &m) { return m.s.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { PUSH, POP, PUSHDUP, POPANY, ERASE, ERASEBEG, FIND, ERASEIT, FILTER, CLEAR, BULKP, BULKQ, DRAIN, RANGE, POPALIAS };
    static const size_t giant = 6; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push", 24}, {"pop(present)", 9}, {"push(present)", avl ? 0 : 3}, {"pop(any)", 4}, {"erase(find)", 7}, {"erase(begin)", 2}, {"find", 3}, {"erase(k-th)", 5}, {"erase while iterating", 1}, {"clear", 1}, {"bulk push", 2}, {"bulk pop", 2}, {"drain", 1}, {"Tree(begin,end)", avl ? 0 : 1}, {"pop(*it)", 3}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t a) { m = Model(); Cmp c = CD::make(a); m.dir = CD::dir(c); if (CD::stateful) return new (p) Obj(c); return new (p) Obj; }
    static std::vector<int> seq(const Model &m) { std::vector<int> v(m.s.begin(), m.s.end()); if (m.dir < 0) std::reverse(v.begin(), v.end()); return v; }
    static int near(const Model &m, int k) { auto it = m.s.lower_bound(k); return it == m.s.end() ? *m.s.begin() : *it; }
    static int kth(const Model &m, size_t i) { if (m.dir < 0) i = m.s.size() - 1 - i; auto it = m.s.begin(); std::advance(it, i); return *it; }
    static void afterErase(Env &e, Obj &t, Model &m, typename Obj::ConstIteratorType nx, int gone) {
        // nx must be the in-order successor of the erased value
        bool have = false; int want = 0;
        if (m.dir > 0) { auto it = m.s.upper_bound(gone); if (it != m.s.end()) { have = true; want = *it; } }
        else { auto it = m.s.lower_bound(gone); if (it != m.s.begin()) { have = true; want = *--it; } }
        if (have) { VP_CHECK(e.ctx, nx != t.end(), "tree: erase(%d) returned end() although %d follows", gone, want); VP_CHECK(e.ctx, El<T>::key(*nx) == want, "tree: erase(%d) returned an iterator to %d, expected the next element %d", gone, El<T>::key(*nx), want); }
        else VP_CHECK(e.ctx, nx == t.end(), "tree: erase of the last element %d did not return end()", gone);
    }
    static bool apply(Env &e, Obj &t, Model &m, int code, uint32_t a, uint32_t b) {
        size_t n = m.s.size(); int k;
        auto pu = [&](uint32_t v) { T x = mk<T>(e, v, k); if (m.s.count(k)) { if (avl) return false; t.push(x); return true; } t.push(x); m.s.insert(k); return true; };
        auto po = [&](int key) { t.pop(El<T>::make(key)); m.s.erase(key); };
        auto sz = [&] { VP_CHECK(e.ctx, t.size() == m.s.size(), "tree: size() is %llu, expected %zu", (unsigned long long)t.size(), m.s.size()); };
        switch (code) {
        case PUSH: return pu(a);
        case POP: if (!n) return false; { int key = kth(m, a % n); po(key); } return true;
        case PUSHDUP: if (!n || avl) return false; { int key = kth(m, a % n); t.push(El<T>::make(key)); e.ctx.label("present element pushed again"); } return true;
        case POPANY: { int key = El<T>::norm(e.look(a)); bool had = m.s.count(key); po(key); if (!had && n) e.ctx.label("absent element popped"); return true; }
        case ERASE: { if (!n) return false; int key = kth(m, a % n); auto it = t.find(El<T>::make(key)); VP_CHECK(e.ctx, it != t.end(), "tree: find(%d) does not find a present element", key); auto nx = t.erase(it); m.s.erase(key); sz(); afterErase(e, t, m, nx, key); return true; }
        case ERASEBEG: { if (!n) return false; int key = kth(m, 0); auto it = t.begin(); auto nx = t.erase(it); m.s.erase(key); sz(); afterErase(e, t, m, nx, key); return true; }
        case FIND: { int key = El<T>::norm(e.look(a)); auto it = t.find(El<T>::make(key)); if (m.s.count(key)) VP_CHECK(e.ctx, it != t.end() && El<T>::key(*it) == key, "tree: find(%d) does not find a present element", key); else VP_CHECK(e.ctx, it == t.end(), "tree: find(%d) finds an absent element", key); return true; }
        case ERASEIT: { if (!n || n > 400) return false; size_t i = a % n; auto it = t.begin(); for (size_t j = 0; j < i; j++) it++; int key = kth(m, i); VP_CHECK(e.ctx, El<T>::key(*it) == key, "tree: element %zu in order is %d, expected %d", i, El<T>::key(*it), key); auto nx = t.erase(it); m.s.erase(key); sz(); afterErase(e, t, m, nx, key); return true; }
        case FILTER: { if (!n || n > 300 + 2000 * (b % 4 == 0)) return false; uint32_t bits = a | 1; size_t i = 0; auto v = seq(m); auto it = t.begin(); for (; it != t.end(); i++) { VP_CHECK(e.ctx, i < v.size() && El<T>::key(*it) == v[i], "tree: erasing while iterating reached a wrong element at %zu", i); if ((bits >> (i % 17)) & 1) { it = t.erase(it); m.s.erase(v[i]); } else it++; } VP_CHECK(e.ctx, i == v.size(), "tree: erasing while iterating stopped at %zu of %zu", i, v.size()); e.ctx.label("erase while iterating"); return true; }
        case CLEAR: t.clear(); m.s.clear(); return true;
        case BULKP: { size_t q = bulk(b, n, e.d >= 5 && !avl ? (g_big > 8 ? 25 : 400) : 1500); bool any = false; for (size_t i = 0; i < q; i++) { any |= pu(g_big > 8 ? (uint32_t)mix64(a + i) : a + (uint32_t)i * 7919); if ((i & 7) == 0) sz(); } return any; }
        case BULKQ: { size_t q = std::min(n, bulk(b, 0)); for (size_t i = 0; i < q; i++) { int key = g_big > 8 ? near(m, (int)mix64(a + i)) : kth(m, (a + i * 13) % m.s.size()); po(key); if ((i & 3) == 0 && (g_big <= 8 || i < 64 || (i & 4095) == 0)) check(e, t, m, m.s.size() < 60 ? 2 : 1); } return q > 0; }
        case DRAIN: if (!n || n > 250) return false; while (!m.s.empty()) { int key = kth(m, (a = a * 1664525u + 1013904223u) % m.s.size()); if (a & 256) { po(key); } else { auto it = t.find(El<T>::make(key)); VP_CHECK(e.ctx, it != t.end(), "tree: find(%d) fails while draining", key); t.erase(it); m.s.erase(key); } check(e, t, m, m.s.size() < 24 ? 2 : 1); } return true;
        case RANGE: if constexpr (!avl) { dstruct::Vector<T> v; m.s.clear(); size_t q = extent(b, 60, false); for (size_t i = 0; i < q; i++) { T x = mk<T>(e, a + (uint32_t)i * 7919, k); v.push_back(x); m.s.insert(k); } Cmp c = CD::make(a); m.dir = CD::dir(c); t.~Obj(); new (&t) Obj(v.begin(), v.end(), c); return true; } else return false;
        case POPALIAS: { if (!n || n > 400) return false; size_t i = a % n; auto it = t.begin(); for (size_t j = 0; j < i; j++) ++it; int key = kth(m, i); t.pop(*it); m.s.erase(key); return true; }
        }
        return false;
    }
    // rebuild the shape from a pre-order listing; returns height, fails if no search tree has that listing
    static int shape(Ctx &c, const std::vector<int> &pre, size_t lo, size_t hi, int dir) {
        if (lo == hi) return 0;
        size_t mid = lo + 1; auto before = [&](int x, int y) { return dir > 0 ? x < y : x > y; };
        while (mid < hi && before(pre[mid], pre[lo])) mid++;
        for (size_t i = mid; i < hi; i++) VP_CHECK(c, before(pre[lo], pre[i]), "tree: the pre-order listing is not one of a search tree (%d after %d)", pre[i], pre[lo]);
        int l = shape(c, pre, lo + 1, mid, dir), r = shape(c, pre, mid, hi, dir);
        if (avl) VP_CHECK(c, l - r <= 1 && r - l <= 1, "AVL tree: the subtrees below %d have heights %d and %d", pre[lo], l, r);
        return std::max(l, r) + 1;
    }
    static void post(const std::vector<int> &pre, size_t lo, size_t hi, int dir, std::vector<int> &out) {
        if (lo == hi) return; size_t mid = lo + 1; while (mid < hi && (dir > 0 ? pre[mid] < pre[lo] : pre[mid] > pre[lo])) mid++;
        post(pre, lo + 1, mid, dir, out); post(pre, mid, hi, dir, out); out.push_back(pre[lo]);
    }
    // a traversal callback receives the element, or a node payload that holds it in .val
    template <class X> static auto keyOf(const X &x) -> decltype(El<T>::key(x.val)) { return El<T>::key(x.val); }
    static int keyOf(const T &x) { return El<T>::key(x); }
    static std::vector<int> listing(Ctx &c, const Obj &t, typename Obj::TraversalType o, size_t n) {
        std::vector<int> v; t.traversal([&](auto &d) { v.push_back(keyOf(d)); VP_CHECK(c, v.size() <= n, "tree: traversal visits more than %zu elements", n); }, o);
        return v;
    }
    static std::vector<int> iterate(Ctx &c, const Obj &t, typename Obj::TraversalType o, size_t n) {
        std::vector<int> v; for (auto it = t.begin(o); it != t.end(o); ++it) { v.push_back(El<T>::key(*it)); VP_CHECK(c, v.size() <= n, "tree: iteration visits more than %zu elements", n); }
        return v;
    }
    static void check(Env &e, Obj &t, const Model &m, int lvl) {
        Ctx &c = e.ctx; size_t n = m.s.size(); const Obj &ct = t;
        VP_CHECK(c, ct.size() == n, "tree: size() is %llu, expected %zu", (unsigned long long)ct.size(), n);
        VP_CHECK(c, ct.empty() == (n == 0), "tree: empty() wrong at size %zu", n);
        if (n == 0) VP_CHECK(c, ct.begin() == ct.end() && !(ct.begin() != ct.end()), "tree: begin() is not end() on an empty tree");
        if (n) { size_t is[3] = {0, n / 2, n - 1}; if (lvl >= 2) for (size_t i : is) { int key = kth(m, i); auto it = ct.find(El<T>::make(key)); VP_CHECK(c, it != ct.end() && El<T>::key(*it) == key, "tree: find(%d) does not find a present element (size %zu)", key, n); } }
        if constexpr (SHAPE) if constexpr (avl) {
            int h = ct.height(); double lim = 1.4405 * __builtin_log2((double)n + 2) - 0.32;
            VP_CHECK(c, h <= lim && (n == 0) == (h == 0), "AVL tree: height() is %d with %zu elements", h, n);
        }
        if (lvl < 2) return;
        std::vector<int> v = seq(m); size_t i = 0;
        for (auto it = ct.begin(); it != ct.end(); i++) {
            VP_CHECK(c, i < n, "tree: iteration visits more than the %zu elements it holds", n);
            VP_CHECK(c, El<T>::key(*it) == v[i], "tree: element %zu in order is %d, expected %d (size %zu)", i, El<T>::key(*it), v[i], n);
            if (i & 1) it++; else ++it;
        }
        VP_CHECK(c, i == n, "tree: iteration stops after %zu of %zu elements", i, n);
        if (n <= 24) { for (int key : v) { auto it = ct.find(El<T>::make(key)); VP_CHECK(c, it != ct.end() && El<T>::key(*it) == key, "tree: find(%d) fails (size %zu)", key, n); }
            for (int q = -3; q < 28; q += 5) { int key = El<T>::norm(q); if (!m.s.count(key)) VP_CHECK(c, ct.find(El<T>::make(key)) == ct.end(), "tree: find(%d) finds an absent element", key); } }
        if constexpr (SHAPE || ORDERS) {
            auto pre = listing(c, ct, Obj::TraversalType::PreOrder, n);
            VP_CHECK(c, pre.size() == n, "tree: pre-order traversal visits %zu of %zu elements", pre.size(), n);
            int h = shape(c, pre, 0, n, m.dir);
            if constexpr (SHAPE) if constexpr (avl) VP_CHECK(c, ct.height() == h, "AVL tree: height() is %d but the tree's height is %d (size %zu)", ct.height(), h, n);
            if constexpr (ORDERS) {
                std::vector<int> po; post(pre, 0, n, m.dir, po);
                VP_CHECK(c, listing(c, ct, Obj::TraversalType::InOrder, n) == v, "tree: in-order traversal does not list all elements in order (size %zu)", n);
                VP_CHECK(c, listing(c, ct, Obj::TraversalType::PostOrder, n) == po, "tree: post-order traversal disagrees with the tree's shape (size %zu)", n);
                VP_CHECK(c, iterate(c, ct, Obj::TraversalType::PreOrder, n) == pre, "tree: pre-order iteration disagrees with pre-order traversal (size %zu)", n);
                VP_CHECK(c, iterate(c, ct, Obj::TraversalType::InOrder, n) == v, "tree: in-order iteration does not list all elements in order (size %zu)", n);
                VP_CHECK(c, iterate(c, ct, Obj::TraversalType::PostOrder, n) == po, "tree: post-order iteration disagrees with the tree's shape (size %zu)", n);
                size_t k = 0; ct.traversal([&](auto &d) { VP_CHECK(c, k < n && keyOf(d) == v[k], "tree: default traversal is not in order"); k++; });
                VP_CHECK(c, k == n, "tree: default traversal visits %zu of %zu elements", k, n);
            }
        }
    }
};

// ------------------------------------------------------------------ Map
template <class K, class V, class KC = dstruct::less<K>, class A = Alloc> struct MapAd {
    using DSx = dstruct::AVLTree<dstruct::KeyValue<const K, V>, dstruct::KVCMPKey<dstruct::KeyValue<const K, V>, KC>, A>;
    using Obj = dstruct::Map<K, V, KC, DSx>; struct Model { std::map<int, int> s; };
    using KV = typename Obj::KeyValueType;
    static const int dir;
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.s.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { SET, GET, PUSH, POP, POPANY, ERASE, FIND, CLEAR, BULKP, BULKQ, CONSTGET, TOUCH, FILTER, DRAIN, REASSIGN };
    static const size_t giant = 6; static const int growOp = BULKP;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"m[k]=v", 22}, {"m[k]", 4}, {"push({k,v})", 6}, {"pop(present)", 8}, {"pop(any)", 3}, {"erase(find)", 7}, {"find", 3}, {"clear", 1}, {"bulk insert", 2}, {"bulk pop", 2}, {"const m[k]", 4}, {"m[k] creates default", 3}, {"erase while iterating", 1}, {"drain", 1}, {"m[k]=v (present)", 5}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static int near(const Model &m, int k) { auto it = m.s.lower_bound(k); return it == m.s.end() ? m.s.begin()->first : it->first; }
    static int nth(const Model &m, size_t i) { auto it = m.s.begin(); std::advance(it, i); return it->first; }
    static bool apply(Env &e, Obj &t, Model &m, int code, uint32_t a, uint32_t b) {
        size_t n = m.s.size(); int v = El<V>::norm((int)(b * 2654435761u));
        auto key = [&](uint32_t x) { return El<K>::norm(e.raw(x)); };
        auto sz = [&] { VP_CHECK(e.ctx, t.size() == m.s.size(), "map: size() is %llu, expected %zu", (unsigned long long)t.size(), m.s.size()); };
        switch (code) {
        case SET: { int k = key(a); t[El<K>::make(k)] = El<V>::make(v); if (m.s.count(k)) e.ctx.label("value replaced through []"); m.s[k] = v; return true; }
        case GET: { if (!n) return false; int k = nth(m, a % n); VP_CHECK(e.ctx, El<V>::key(t[El<K>::make(k)]) == m.s[k], "map: [%d] is %d, expected %d", k, El<V>::key(t[El<K>::make(k)]), m.s[k]); return true; }
        case PUSH: { int k = key(a); if (m.s.count(k)) return false; t.push(KV(El<K>::make(k), El<V>::make(v))); m.s[k] = v; return true; }
        case POP: { if (!n) return false; int k = nth(m, a % n); t.pop(El<K>::make(k)); m.s.erase(k); return true; }
        case POPANY: { int k = El<K>::norm(e.look(a)); if (!m.s.count(k)) e.ctx.label("absent key popped"); t.pop(El<K>::make(k)); m.s.erase(k); return true; }
        case ERASE: { if (!n) return false; int k = nth(m, a % n); auto it = t.find(El<K>::make(k)); VP_CHECK(e.ctx, it != t.end(), "map: find(%d) misses a present key", k); auto nx = t.erase(it); m.s.erase(k); sz(); succ(e, t, m, nx, k); return true; }
        case FIND: { int k = El<K>::norm(e.look(a)); auto it = t.find(El<K>::make(k)); if (m.s.count(k)) VP_CHECK(e.ctx, it != t.end() && El<K>::key(it->key) == k && El<V>::key(it->value) == m.s[k], "map: find(%d) is wrong", k); else VP_CHECK(e.ctx, it == t.end(), "map: find(%d) finds an absent key", k); return true; }
        case CLEAR: t.clear(); m.s.clear(); return true;
        case BULKP: { size_t q = bulk(b, n, 1200); for (size_t i = 0; i < q; i++) { int k = key(g_big > 8 ? (uint32_t)mix64(a + i) : a + (uint32_t)i * 7919); int w = El<V>::norm(v + (int)i); t[El<K>::make(k)] = El<V>::make(w); m.s[k] = w; } return q > 0; }
        case BULKQ: { size_t q = std::min(n, bulk(b, 0)); for (size_t i = 0; i < q; i++) { int k = g_big > 8 ? near(m, (int)mix64(a + i)) : nth(m, (a + i * 13) % m.s.size()); t.pop(El<K>::make(k)); m.s.erase(k); sz(); } return q > 0; }
        case CONSTGET: { if (!n) return false; int k = nth(m, a % n); const Obj &c = t; VP_CHECK(e.ctx, El<V>::key(c[El<K>::make(k)]) == m.s[k], "const map: [%d] is wrong", k); return true; }
        case TOUCH: { int k = key(a); if (m.s.count(k)) return false; auto &r = t[El<K>::make(k)]; VP_CHECK(e.ctx, r == V(), "map: [] on an absent key does not create a default value"); r = El<V>::make(v); m.s[k] = v; return true; }
        case FILTER: { if (!n || n > 300 + 2000 * (b % 4 == 0)) return false; std::vector<int> ks; for (auto &p : m.s) ks.push_back(p.first); if (dir < 0) std::reverse(ks.begin(), ks.end()); size_t i = 0; auto it = t.begin(); for (; it != t.end(); i++) { VP_CHECK(e.ctx, i < ks.size() && El<K>::key(it->key) == ks[i], "map: erasing while iterating reached a wrong key at %zu", i); if (((a | 1) >> (i % 17)) & 1) { it = t.erase(it); m.s.erase(ks[i]); } else it++; } VP_CHECK(e.ctx, i == ks.size(), "map: erasing while iterating stopped early"); return true; }
        case DRAIN: { if (!n || n > 200) return false; while (!m.s.empty()) { a = a * 1664525u + 1013904223u; int k = nth(m, a % m.s.size()); if (a & 512) t.pop(El<K>::make(k)); else { auto it = t.find(El<K>::make(k)); VP_CHECK(e.ctx, it != t.end(), "map: find(%d) fails while draining", k); t.erase(it); } m.s.erase(k); sz(); if (m.s.size() < 20) check(e, t, m, 2); } return true; }
        case REASSIGN: { if (!n) return false; int k = nth(m, a % n); t[El<K>::make(k)] = El<V>::make(v); m.s[k] = v; return true; }
        }
        return false;
    }
    template <class It> static void succ(Env &e, Obj &t, Model &m, It nx, int k) {
        bool have = false; int want = 0;
        if (dir > 0) { auto it = m.s.upper_bound(k); if (it != m.s.end()) { have = true; want = it->first; } } else { auto it = m.s.lower_bound(k); if (it != m.s.begin()) { have = true; --it; want = it->first; } }
        if (have) VP_CHECK(e.ctx, nx != t.end() && El<K>::key(nx->key) == want, "map: erase(%d) does not return the next entry %d", k, want); else VP_CHECK(e.ctx, nx == t.end(), "map: erase of the last entry does not return end()");
    }
    static void check(Env &e, Obj &t, const Model &m, int lvl) {
        Ctx &c = e.ctx; size_t n = m.s.size(); const Obj &ct = t;
        VP_CHECK(c, ct.size() == n && ct.empty() == (n == 0), "map: size() is %llu, expected %zu", (unsigned long long)ct.size(), n);
        if (lvl < 2) return;
        std::vector<std::pair<int, int>> v(m.s.begin(), m.s.end()); if (dir < 0) std::reverse(v.begin(), v.end());
        size_t i = 0; for (auto it = t.begin(); it != t.end(); it++) { VP_CHECK(c, i < n, "map: iteration visits more than %zu entries", n); VP_CHECK(c, El<K>::key(it->key) == v[i].first, "map: entry %zu has key %d, expected %d", i, El<K>::key(it->key), v[i].first); VP_CHECK(c, El<V>::key(it->value) == v[i].second, "map: value of key %d is %d, expected %d", v[i].first, El<V>::key(it->value), v[i].second); i++; }
        VP_CHECK(c, i == n, "map: iteration stops after %zu of %zu entries", i, n);
        i = 0; for (auto &kv : ct) { VP_CHECK(c, i < n && El<K>::key(kv.key) == v[i].first, "const map: iteration wrong at %zu", i); i++; }
        if (n <= 30) for (auto &p : v) { auto it = t.find(El<K>::make(p.first)); VP_CHECK(c, it != t.end() && El<V>::key(it->value) == p.second, "map: find(%d) wrong", p.first); }
    }
};
template <class K, class V, class KC, class A> const int MapAd<K, V, KC, A>::dir = CmpDirOf<K, KC>::dir(KC());

// ------------------------------------------------------------------ disjoint sets
template <class A> struct UFAd {
    using Obj = dstruct::DisjointSet<A>; struct Model { std::vector<int> id; bool lazy = false; }; // lazy: looked at through copies only, so that looking compresses no path
    static const bool copyable = true, reusable = false;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.id.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { CONNECT, QUERY, RECONNECT, UNIONROOTS, CHAIN, BULK, RENEW, TOURN };
    static const size_t giant = 16; static const int growOp = BULK;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"connect", 20}, {"connected", 8}, {"connect(connected)", 4}, {"union_set(roots)", 3}, {"chain", 1}, {"bulk connect", 1}, {"new set", 1}, {"tournament", 2}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t a) { static const int ns[] = {1, 2, 3, 5, 8, 12, 30, 100, 400, 1500}; int n = ns[a % 10] * (int)g_big; m.lazy = a / 10 % 2; m.id.resize(n); for (int i = 0; i < n; i++) m.id[i] = i; return new (p) Obj(n); }
    static void unite(Model &m, int a, int b) { int x = m.id[a], y = m.id[b]; if (x == y) return; for (int &v : m.id) if (v == y) v = x; }
    static bool apply(Env &e, Obj &s, Model &m, int code, uint32_t a, uint32_t b) {
        int n = (int)m.id.size(); if (!n) return false; int x = a % n, y = b % n;
        switch (code) {
        case CONNECT: s.connect(x, y); unite(m, x, y); VP_CHECK(e.ctx, m.lazy || s.connected(x, y), "disjoint set: %d and %d are not connected after connect", x, y); return true;
        case QUERY: { bool r = s.connected(x, y); VP_CHECK(e.ctx, r == (m.id[x] == m.id[y]), "disjoint set: connected(%d,%d) is %d, expected %d", x, y, (int)r, (int)!r); return true; }
        case RECONNECT: { std::vector<int> same; for (int i = 0; i < n; i++) if (m.id[i] == m.id[x]) same.push_back(i); int z = same[b % same.size()]; s.connect(x, z); if (x != z) e.ctx.label("already connected pair connected again"); return true; }
        case UNIONROOTS: { int rx = s.find(x), ry = s.find(y); if (rx == ry) return false; s.union_set(rx, ry); unite(m, x, y); return true; }
        case CHAIN: { int step = 1 + b % 3; bool down = a & 1; int len = std::min(n - 1, 40 + (int)(a % 300)); for (int i = 0; i < len; i++) { int p = down ? (x - i * step % n + 2 * n) % n : (x + i * step) % n, q = down ? (p - step + n) % n : (p + step) % n; if (b & 8) std::swap(p, q); s.connect(p, q); unite(m, p, q); } return true; }
        case BULK: { uint32_t r = a * 2654435761u + b; for (int i = 0; i < 60; i++) { r = r * 1664525u + 1013904223u; int p = (r >> 8) % n; r = r * 1664525u + 1013904223u; int q = (r >> 8) % n; s.connect(p, q); unite(m, p, q); } return true; }
        case RENEW: { s.~Obj(); m = Model(); construct(e, &s, m, a); return true; }
        case TOURN: { // sets of equal rank are united level by level, by their representatives (the deepest trees) or by members
            std::vector<int> r; for (int i = 0; i < n && (int)r.size() < 4096; i++) { bool seen = m.id[i] != i && !(b & 4); if (!seen) r.push_back(i); }
            if (b & 4 || r.size() < 2) { r.clear(); for (int i = 0; i < std::min(n, 4096); i++) r.push_back(i); }
            if (b & 8) std::reverse(r.begin(), r.end()); int levels = 1 + a % 12;
            for (int l = 0; l < levels && r.size() > 1; l++) { std::vector<int> up; for (size_t i = 0; i + 1 < r.size(); i += 2) { int p = r[i], q = r[i + 1]; if (b & 16) std::swap(p, q); s.connect(p, q); unite(m, p, q); up.push_back(s.find(p)); } r.swap(up); }
            e.ctx.label("tournament"); return true; }
        }
        return false;
    }
    static void check(Env &e, Obj &s, const Model &m, int lvl) {
        Ctx &c = e.ctx; int n = (int)m.id.size();
        VP_CHECK(c, (int)s.size() == n && s.empty() == (n == 0), "disjoint set: size() is %llu, expected %d", (unsigned long long)s.size(), n);
        std::set<int> ids(m.id.begin(), m.id.end());
        VP_CHECK(c, s.count() == ids.size(), "disjoint set: count() is %llu, expected %zu sets", (unsigned long long)s.count(), ids.size());
        if (lvl < 2 && n > 60) return;
        if (m.lazy && n) { Model t = m; t.lazy = false; Obj o(s); check(e, o, t, 2); c.label("sets observed through copies"); return; }
        std::vector<int> rep(n, -1), rf(n); const int dir = (n + (int)ids.size()) % 3;
        for (int k = 0; k < n; k++) { int i = dir == 0 ? k : dir == 1 ? n - 1 - k : (int)((k * 7919ll + 3) % n); int r = s.find(i); VP_CHECK(c, r >= 0 && r < n, "disjoint set: find(%d) is %d, out of range", i, r); VP_CHECK(c, m.id[r] == m.id[i], "disjoint set: find(%d) is %d, which is in another set", i, r);
            rf[i] = r; if (rep[m.id[i]] < 0) rep[m.id[i]] = r; VP_CHECK(c, rep[m.id[i]] == r, "disjoint set: two elements of one set (last %d) have different representatives %d and %d", i, rep[m.id[i]], r); }
        for (int i = 0; i < n; i++) { VP_CHECK(c, s.find(rf[i]) == rf[i], "disjoint set: the representative %d of %d does not represent itself", rf[i], i); }
        VP_CHECK(c, s.count() == ids.size(), "disjoint set: count() changes after look-ups");
        if (n <= 12) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VP_CHECK(c, s.connected(i, j) == (m.id[i] == m.id[j]), "disjoint set: connected(%d,%d) wrong", i, j);
    }
};

// ------------------------------------------------------------------ String
template <class A> struct StringAd {
    using Obj = dstruct::BasicString<char, A>; struct Model { std::string s; };
    static const bool copyable = true, reusable = true;
    static void reset() {}
    static void moved(Model &m) { m = Model(); }
    static size_t msize(const Model &m) { return m.s.size(); }
    static size_t slack(const Model &) { return 0; }
    enum { PUSHB, FROMC, ASSIGNC, APPS, APPC, APPSELF, SET, CLEAR, CONCAT, CONCATC, CCONCAT, EQ, ITSET, PUSHSELF, BULK, PREFIX, ASSIGNOWN, APPOWN };
    static const size_t giant = 16; static const int growOp = BULK;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = {{"push_back", 14}, {"String(cstr)", 4}, {"=cstr", 4}, {"+=String", 7}, {"+=cstr", 7}, {"+=self", 1}, {"[i]=c", 6}, {"clear", 1}, {"+", 3}, {"+cstr", 3}, {"cstr+", 3}, {"compare", 6}, {"*it=c", 3}, {"push_back(self[i])", 4}, {"bulk push_back", 2}, {"String(self prefix)", 3}, {"=own c_str", 1}, {"+=own c_str", 1}}; return o; }
    static Obj *construct(Env &, void *p, Model &m, uint32_t) { m = Model(); return new (p) Obj; }
    static char ch(Env &e, uint32_t a) { switch (e.d % 8) { case 7: return "\0ab"[a % 3]; case 0: case 4: return "ab"[a & 1]; case 1: case 5: return (char)('a' + a % 26); default: { char c = (char)(a % 255 + 1); return c; } } }
    static std::string text(Env &e, uint32_t a, uint32_t b) { static const int L[] = {0, 1, 2, 3, 7, 13, 14, 15, 16, 17, 30, 31, 32, 64, 100, 257}; int n = L[b % 16]; if (g_big > 1 && n > 32) n *= (int)g_big * 3; std::string s; for (int i = 0; i < n; i++) s += ch(e, a + i * 7); return s; }
    static Obj S(const std::string &t) { if (t.find('\0') == std::string::npos) return Obj(t.c_str()); Obj o; for (char x : t) o.push_back(x); return o; }
    static std::string Z(const std::string &t) { return t.c_str(); } // as a C string
    static bool apply(Env &e, Obj &s, Model &M, int code, uint32_t a, uint32_t b) {
        std::string &m = M.s; size_t n = m.size(); Ctx &c = e.ctx; if (n > 6000 * g_big && code != CLEAR && code != FROMC && code != ASSIGNC) return false;
        switch (code) {
        case PUSHB: { char k = ch(e, a); s.push_back(k); m.push_back(k); return true; }
        case FROMC: { std::string t = text(e, a, b); s.~Obj(); new (&s) Obj(t.c_str()); m = Z(t); return true; }
        case ASSIGNC: { std::string t = text(e, a, b); Obj &r = (s = t.c_str()); VP_CHECK(c, &r == &s, "string: assignment did not return its target"); m = Z(t); return true; }
        case APPS: { std::string t = text(e, a, b); Obj o = S(t); Obj &r = (s += o); VP_CHECK(c, &r == &s, "string: += did not return its target"); m += t; same(c, o, t, "right operand of +="); return true; }
        case APPC: { std::string t = text(e, a, b); s += t.c_str(); m += Z(t); return true; }
        case APPSELF: if (n > 3000 * g_big) return false; { Obj &r = s; s += r; m += m; c.label("string appended to itself"); return true; }
        case SET: { if (!n) return false; char k = ch(e, a); s[(int)(b % n)] = k; m[b % n] = k; return true; }
        case CLEAR: s.clear(); m.clear(); return true;
        case CONCAT: { std::string t = text(e, a, b); Obj o = S(t); same(c, s + o, m + t, "String + String"); same(c, o + s, t + m, "String + String"); same(c, s + s, m + m, "String + itself"); return true; }
        case CONCATC: { std::string t = text(e, a, b); same(c, s + t.c_str(), m + Z(t), "String + cstr"); return true; }
        case CCONCAT: { std::string t = text(e, a, b); same(c, t.c_str() + s, Z(t) + m, "cstr + String"); return true; }
        case EQ: { std::string t = (a & 1) ? m : text(e, a, b); if ((a & 6) == 6 && !t.empty()) t[b % t.size()] ^= 1; if ((a & 24) == 24 && !t.empty()) t.pop_back(); Obj o = S(t); bool q = t == m, z = Z(t) == m; if (t.find('\0') != std::string::npos) c.label("string with null characters compared"); if (q) c.label("equal strings compared");
            VP_CHECK(c, (s == o) == q && (o == s) == q && (s == t.c_str()) == z && (t.c_str() == s) == z, "string: == is wrong for \"%s\" and \"%s\"", m.c_str(), t.c_str());
            VP_CHECK(c, (s != o) == !q && (o != s) == !q && (s != t.c_str()) == !z && (t.c_str() != s) == !z, "string: != is wrong for \"%s\" and \"%s\"", m.c_str(), t.c_str()); return true; }
        case ITSET: { if (!n) return false; char k = ch(e, a); auto it = s.begin() + (int)(b % n); *it = k; m[b % n] = k; return true; }
        case PUSHSELF: { if (!n) return false; size_t i = b % n; s.push_back(s[(int)i]); char k = m[i]; m.push_back(k); return true; }
        case BULK: { size_t t = bulk(b, n); for (size_t i = 0; i < t; i++) { char k = ch(e, a + (uint32_t)i * 7); s.push_back(k); m.push_back(k); } return t > 0; }
        case ASSIGNOWN: { size_t i = n ? b % (n + 1) : 0; std::string t = Z(m.substr(i)); Obj &r = (s = s.c_str() + i); VP_CHECK(c, &r == &s, "string: assignment did not return its target"); m = t; c.label("assigned from its own characters"); return true; }
        case APPOWN: { if (n > 3000 * g_big) return false; size_t i = n ? b % (n + 1) : 0; std::string t = Z(m.substr(i)); s += s.c_str() + i; m += t; c.label("appended its own characters"); return true; }
        case PREFIX: { Obj o(s.c_str()); same(c, o, Z(m), "String(s.c_str())"); return true; }
        }
        return false;
    }
    static void same(Ctx &c, const Obj &o, const std::string &m, const char *what) {
        VP_CHECK(c, o.size() == m.size(), "%s: size() is %llu, expected %zu", what, (unsigned long long)o.size(), m.size());
        VP_CHECK(c, o.c_str()[m.size()] == 0 && memcmp(o.c_str(), m.data(), m.size()) == 0, "%s: c_str() is \"%.60s\", expected \"%.60s\"", what, o.c_str(), m.c_str());
    }
    static void check(Env &e, Obj &s, const Model &M, int lvl) {
        const std::string &m = M.s; Ctx &c = e.ctx; const Obj &cs = s; size_t n = m.size();
        VP_CHECK(c, cs.size() == n, "string: size() is %llu, expected %zu", (unsigned long long)cs.size(), n);
        VP_CHECK(c, cs.empty() == (n == 0), "string: empty() wrong at size %zu", n);
        VP_CHECK(c, cs.capacity() >= n, "string: capacity() %llu too small for size %zu", (unsigned long long)cs.capacity(), n);
        VP_CHECK(c, cs.c_str()[n] == '\0', "string: c_str() is not terminated at %zu", n);
        if (n) VP_CHECK(c, cs.front() == m.front() && cs.back() == m.back(), "string: front()/back() wrong (size %zu)", n);
        if (lvl < 2 && n > 64) return;
        VP_CHECK(c, memcmp(cs.c_str(), m.data(), n) == 0, "string: content is \"%.80s\", expected \"%.80s\"", cs.c_str(), m.c_str());
        for (size_t i = 0; i < n; i++) VP_CHECK(c, cs[(int)i] == m[i] && &s[(int)i] == &cs[(int)i], "string: [%zu] wrong", i);
        size_t i = 0; for (auto it = s.begin(); it != s.end(); it++) { VP_CHECK(c, i < n && *it == m[i], "string: iteration wrong at %zu of %zu", i, n); i++; } VP_CHECK(c, i == n, "string: iteration stops at %zu of %zu", i, n);
        i = 0; for (auto &x : cs) { VP_CHECK(c, i < n && x == m[i], "const string: iteration wrong at %zu", i); i++; } VP_CHECK(c, i == n, "const string: iteration stops early");
    }
};
} // namespace vp
