// driver of the programs that C32.py generates: one random history over one container of u::E,
// against a model made of ints.  The generated text defines u::E, u::mk(int), u::key(const E &) and
// the macros T_ASSIGN (elements can be assigned), T_EQ (== is equality), T_DOM (number of values).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <set>
#include <map>
#include <algorithm>

namespace vp {

typedef u::E E;
static int opi = 0;
static const char *opn = "";
static void fail(const char *what, long long got, long long want) {
    printf("FAIL operation %d (%s): %s is %lld, should be %lld\n", opi, opn, what, got, want); fflush(stdout); _Exit(1);
}
inline void same(const char *what, long long got, long long want) { if (got != want) fail(what, got, want); }

struct Rng {
    unsigned long long s;
    unsigned operator()(unsigned n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return n ? (unsigned)((s >> 11) % n) : 0; }
};

template <int X> struct I { };

// ------------------------------------------------------------------ sequences
struct Base { enum { PF = 0, POPF = 0, POPB = 0, IDX = 0, FILL = 0, BACK = 0, FRONT = 0, ITER = 1, OWN = 0, NEG = 0, WIDX = 0 };
    template <class C> static void pf(C &, const E &) { } template <class C> static void pb(C &c, const E &e) { c.push_back(e); }
    template <class C> static void popf(C &) { } template <class C> static void popb(C &) { }
    template <class C> static long long at(C &, int) { return 0; } template <class C> static void own(C &, int, int) { }
    template <class C> static void fill(C &, int, const E &) { } template <class C> static long long front(const C &) { return 0; } template <class C> static long long back(const C &) { return 0; }
    template <class C> static void write(C &, int, const E &) { } template <class C> static void clear(C &c) { c.clear(); } template <class C> static void res(C &, int) { } template <class C> static void make(C &, int, const E &) { }
};
struct AVec : Base { enum { POPB = 1, IDX = 1, FILL = 1, BACK = 1, FRONT = 1, OWN = 1, NEG = 1, WIDX = T_ASSIGN };
    template <class C> static void popb(C &c) { c.pop_back(); }
    template <class C> static long long at(C &c, int i) { return u::key(c[i]); } template <class C> static void own(C &c, int i, int) { c.push_back(c[i]); }
    template <class C> static void fill(C &c, int n, const E &e) { c.resize(n, e); } template <class C> static void res(C &c, int n) { c.resize(n); } template <class C> static void make(C &c, int n, const E &e) { C x((size_t)n, e); c = x; }
    template <class C> static long long front(const C &c) { return u::key(c.front()); } template <class C> static long long back(const C &c) { return u::key(c.back()); }
#if T_ASSIGN
    template <class C> static void write(C &c, int i, const E &e) { c[i] = e; }
#endif
};
struct ADeq : Base { enum { PF = 1, POPF = 1, POPB = 1, IDX = 1, BACK = 1, FRONT = 1, OWN = 1, NEG = 1 };
    template <class C> static void pf(C &c, const E &e) { c.push_front(e); }
    template <class C> static void popb(C &c) { c.pop_back(); } template <class C> static void popf(C &c) { c.pop_front(); }
    template <class C> static long long at(C &c, int i) { return u::key(c[i]); } template <class C> static void own(C &c, int i, int b) { if (b) c.push_back(c[i]); else c.push_front(c[i]); }
    template <class C> static long long front(const C &c) { return u::key(c.front()); } template <class C> static long long back(const C &c) { return u::key(c.back()); }
};
struct ADL : Base { enum { PF = 1, POPF = 1, POPB = 1, BACK = 1, FRONT = 1, WIDX = T_ASSIGN };
    template <class C> static void pf(C &c, const E &e) { c.push_front(e); }
    template <class C> static void popb(C &c) { c.pop_back(); } template <class C> static void popf(C &c) { c.pop_front(); }
    template <class C> static long long front(const C &c) { return u::key(c.front()); } template <class C> static long long back(const C &c) { return u::key(c.back()); }
#if T_ASSIGN
    template <class C> static void write(C &c, int i, const E &e) { auto it = c.begin(); while (i--) ++it; *it = e; }
#endif
};
struct ASL : ADL { enum { POPB = 0 }; template <class C> static void popb(C &) { } };
struct AQue : Base { enum { POPF = 1, FRONT = 1, BACK = 1 };
    template <class C> static void pb(C &c, const E &e) { c.push(e); } template <class C> static void popf(C &c) { c.pop(); } template <class C> static void clear(C &c) { while (!c.empty()) c.pop(); }
    template <class C> static long long front(const C &c) { return u::key(c.front()); } template <class C> static long long back(const C &c) { return u::key(c.back()); }
};
struct AStk : Base { enum { POPB = 1, BACK = 1 };
    template <class C> static void pb(C &c, const E &e) { c.push(e); } template <class C> static void popb(C &c) { c.pop(); }
    template <class C> static long long back(const C &c) { return u::key(c.top()); }
};

template <class A, class C> void audit(const C &c, const std::vector<int> &m) {
    same("size", (long long)c.size(), (long long)m.size()); same("empty", c.empty(), m.empty());
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); it++, i++) { if (i >= m.size()) fail("number of elements iterated over", (long long)i + 1, (long long)m.size()); if (u::key(*it) != m[i]) fail("element iterated over", u::key(*it), m[i]); }
    same("number of elements iterated over", (long long)i, (long long)m.size());
    if (!m.empty()) { if (A::FRONT) same("front", A::front(c), m.front()); if (A::BACK) same("back", A::back(c), m.back()); }
}
template <class A, class C> void sequence(unsigned long long seed, int n) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
    C *c = new C, *d = new C; std::vector<int> m, k;
    int bias = 3 + (int)r(5);
    for (opi = 0; opi < n; opi++) {
        int o = r(24), v = r(T_DOM);
        if (o < bias) { opn = "push_back"; A::pb(*c, u::mk(v)); m.push_back(v); }
        else if (o < 9 && A::PF) { opn = "push_front"; A::pf(*c, u::mk(v)); m.insert(m.begin(), v); }
        else if (o < 12) { if (m.empty()) continue; if (A::POPB && (r(2) || !A::POPF)) { opn = "pop_back"; A::popb(*c); m.pop_back(); } else if (A::POPF) { opn = "pop_front"; A::popf(*c); m.erase(m.begin()); } else continue; }
        else if (o == 12 && A::IDX) { opn = "index"; if (m.empty()) continue; int i = r((unsigned)m.size()); same("element", A::at(*c, i), m[i]); same("element", A::at(*c, i - (int)m.size()), m[i]); }
        else if (o == 13 && A::WIDX) { opn = "write"; if (m.empty()) continue; int i = r((unsigned)m.size()); A::write(*c, i, u::mk(v)); m[i] = v; }
        else if (o == 14 && A::OWN) { opn = "push of an own element"; if (m.empty()) continue; int i = r((unsigned)m.size()), b = r(2); int x = m[i]; if (b || !A::PF) { A::own(*c, i, 1); m.push_back(x); } else { A::own(*c, i, 0); m.insert(m.begin(), x); } }
        else if (o == 15) { if (r(4)) continue; opn = "clear"; A::clear(*c); m.clear(); }
        else if (o == 16) { opn = "copy construction"; C x(*c); audit<A>(x, m); audit<A>(*c, m); }
        else if (o == 17) { opn = "copy assignment"; *d = *c; k = m; audit<A>(*d, k); }
        else if (o == 18) { opn = "move assignment"; *d = dstruct::move(*c); k = m; m.clear(); audit<A>(*d, k); }
        else if (o == 19) { opn = "swap"; dstruct::swap(*c, *d); m.swap(k); audit<A>(*d, k); }
        else if (o == 20) { opn = "move construction"; C x(dstruct::move(*c)); audit<A>(x, m); *c = x; }
        else if (o == 21) { opn = "self assignment"; C &y = *c; *c = y; }
        else if (o == 22 && A::FILL) { opn = "resize"; int s = r(14); if (s && r(4) == 0) { A::make(*c, s, u::mk(v)); m.assign(s, v); } A::fill(*c, s, u::mk(v)); m.resize(s, v); if (r(3) == 0) { int t = r(20); A::res(*c, t); if ((int)m.size() > t) m.resize(t); } }
#if T_EQ
        else if (o == 23) { opn = "algorithm::find"; auto it = dstruct::algorithm::find(((const C *)c)->begin(), ((const C *)c)->end(), u::mk(v)); size_t i = 0; for (auto j = ((const C *)c)->begin(); j != it && i <= m.size(); j++) i++; same("position found", (long long)i, std::find(m.begin(), m.end(), v) - m.begin()); }
#endif
        else continue;
        audit<A>(*c, m);
    }
    opn = "end"; audit<A>(*d, k); delete d; audit<A>(*c, m); delete c;
}

// ------------------------------------------------------------------ fixed arrays
template <class C, int N> void fixed(unsigned long long seed, int n) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
    int v = r(T_DOM); C *c = new C(u::mk(v)); std::vector<int> m(N, v);
    for (opi = 0; opi < n; opi++) {
        v = r(T_DOM); int i = r(N);
        switch (r(5)) {
        case 0: case 1: opn = "write"; (*c)[i] = u::mk(v); m[i] = v; break;
        case 2: opn = "copy construction"; { C x(*c); x[i] = u::mk(v); audit<Base>(*c, m); *c = x; m[i] = v; } break;
        case 3: opn = "move"; { C x(dstruct::move(*c)); audit<Base>(x, m); *c = dstruct::move(x); } break;
        case 4: opn = "assignment"; { C x(u::mk(v)); x = *c; *c = x; } break;
        }
        audit<Base>(*c, m); same("front", u::key(c->front()), m.front()); same("back", u::key(c->back()), m.back()); same("element", u::key((*c)[i - N]), m[i]);
    }
    delete c;
}

// ------------------------------------------------------------------ heaps, min/max stacks (UP: the smallest first)
template <class C, int UP> void heap(unsigned long long seed, int n, C *c) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
    C *d = new C(*c); std::multiset<int> m, k;
    for (opi = 0; opi < n; opi++) {
        int o = r(16), v = r(T_DOM);
        if (o < 7) { opn = "push"; c->push(u::mk(v)); m.insert(v); }
        else if (o < 11) { if (m.empty()) continue; opn = "pop"; c->pop(); if (UP) m.erase(m.begin()); else m.erase(--m.end()); }
        else if (o == 11) { opn = "copy"; C x(*c); *d = x; k = m; }
        else if (o == 12) { opn = "move"; *d = dstruct::move(*c); k = m; m.clear(); }
        else if (o == 13) { opn = "swap"; dstruct::swap(*c, *d); m.swap(k); }
        else if (o == 14) { opn = "push of the top"; if (m.empty()) continue; int t = UP ? *m.begin() : *--m.end(); c->push(c->top()); m.insert(t); }
        else { opn = "drain of a copy"; C x(*c); std::multiset<int> y = m; while (!y.empty()) { int t = UP ? *y.begin() : *--y.end(); same("top", u::key(x.top()), t); x.pop(); y.erase(y.find(t)); } same("empty", x.empty(), 1); }
        same("size", (long long)c->size(), (long long)m.size()); same("empty", c->empty(), m.empty());
        if (!m.empty()) same("top", u::key(c->top()), UP ? *m.begin() : *--m.end());
        std::multiset<int> s; for (auto it = c->begin(); it != c->end(); it++) s.insert(u::key(*it)); if (s != m) fail("content (sum)", 0, 0);
    }
    delete d; delete c;
}
template <class H, int UP> void sorting(unsigned long long seed, int n) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
    n = n / 2 + 1; E *a = (E *)malloc(sizeof(E) * (n + 2)); std::vector<int> m;
    for (int i = 0; i < n + 2; i++) { int v = r(T_DOM); dstruct::construct(a + i, u::mk(v)); m.push_back(v); }
    opn = "sort"; H::sort(a + 1, a + 1 + n); std::sort(m.begin() + 1, m.end() - 1); if (!UP) std::reverse(m.begin() + 1, m.end() - 1);
    for (int i = 0; i < n + 2; i++) { opi = i; same("element", u::key(a[i]), m[i]); }
    opn = "build"; { H h = H::build(a, a + n + 2); same("size", (long long)h.size(), n + 2); std::sort(m.begin(), m.end()); if (!UP) std::reverse(m.begin(), m.end()); for (int i = 0; i < n + 2; i++) { opi = i; same("top", u::key(h.top()), m[i]); h.pop(); } }
    std::multiset<int> x, y; for (int i = 0; i < n + 2; i++) { x.insert(u::key(a[i])); y.insert(m[i]); } if (x != y) fail("elements after build", 0, 0);
    for (int i = 0; i < n + 2; i++) dstruct::destroy(a + i);
    free(a);
}
template <class C, int UP> void extreme(unsigned long long seed, int n) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
    C *c = new C, *d = new C; std::vector<int> m, k;
    for (opi = 0; opi < n; opi++) {
        int o = r(16), v = r(T_DOM);
        if (o < 8) { opn = "push"; c->push(u::mk(v)); m.push_back(v); }
        else if (o < 12) { if (m.empty()) continue; opn = "pop"; c->pop(); m.pop_back(); }
        else if (o == 12) { opn = "copy"; C x(*c); *d = x; k = m; }
        else if (o == 13) { opn = "move"; *d = dstruct::move(*c); k = m; m.clear(); }
        else if (o == 14) { opn = "swap"; dstruct::swap(*c, *d); m.swap(k); }
        else { if (r(3)) continue; opn = "clear"; c->clear(); m.clear(); }
        same("empty", c->empty(), m.empty());
        if (!m.empty()) { same("top", u::key(c->top()), m.back()); same("extreme value", u::key(c->getXValue()), UP ? *std::min_element(m.begin(), m.end()) : *std::max_element(m.begin(), m.end())); }
    }
    delete d; delete c;
}

// ------------------------------------------------------------------ ordered sets
template <class C, int UP, int AVL> struct Ord {
    static void audit(const C &c, const std::set<int> &m) {
        same("size", (long long)c.size(), (long long)m.size()); same("empty", c.empty(), m.empty());
        std::vector<int> w(m.begin(), m.end()); if (!UP) std::reverse(w.begin(), w.end());
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); it++, i++) { if (i >= w.size()) fail("number of elements iterated over", (long long)i + 1, (long long)w.size()); if (u::key(*it) != w[i]) fail("element iterated over", u::key(*it), w[i]); }
        same("number of elements iterated over", (long long)i, (long long)w.size());
    }
    static void run(unsigned long long seed, int n, C *c) {
        Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
        C *d = new C(*c); std::set<int> m, k;
        for (opi = 0; opi < n; opi++) {
            int o = r(16), v = r(T_DOM);
            if (o < 6) { if (AVL && m.count(v)) continue; opn = "push"; c->push(u::mk(v)); m.insert(v); }
            else if (o < 8) { opn = "pop"; c->pop(u::mk(v)); m.erase(v); }
            else if (o == 8) { opn = "pop of an own element"; auto it = c->find(u::mk(v)); if (!m.count(v)) continue; c->pop(*it); m.erase(v); }
            else if (o < 11) { opn = "find"; auto it = c->find(u::mk(v)); same("found", it != c->end(), (long long)m.count(v)); if (m.count(v)) same("found element", u::key(*it), v); }
            else if (o == 11) { if (!m.count(v)) continue; opn = "erase"; auto it = c->find(u::mk(v)); it = c->erase(it); std::vector<int> w(m.begin(), m.end()); if (!UP) std::reverse(w.begin(), w.end()); size_t p = std::find(w.begin(), w.end(), v) - w.begin(); m.erase(v); if (p + 1 < w.size()) { if (it == c->end()) fail("element after the erased one", -1, w[p + 1]); same("element after the erased one", u::key(*it), w[p + 1]); } else same("at the end", it == c->end(), 1); }
            else if (o == 12) { opn = "copy"; C x(*c); *d = x; k = m; audit(*d, k); }
            else if (o == 13) { opn = "move"; *d = dstruct::move(*c); k = m; m.clear(); audit(*d, k); }
            else if (o == 14) { opn = "swap"; dstruct::swap(*c, *d); m.swap(k); audit(*d, k); }
            else { if (r(3)) continue; opn = "clear"; c->clear(); m.clear(); }
            audit(*c, m);
        }
        opn = "end"; audit(*d, k); delete d; audit(*c, m); delete c;
    }
};

// ------------------------------------------------------------------ maps: int -> E, E -> int, E -> E
template <int M> struct KV;
template <> struct KV<0> { static int mk(int k) { return k; } static E mv(int v) { return u::mk(v % T_DOM); } static int key(int k) { return k; } static int val(const E &e) { return u::key(e); } enum { KD = 40, VD = T_DOM }; };
template <> struct KV<1> { static E mk(int k) { return u::mk(k); } static int mv(int v) { return v; } static int key(const E &e) { return u::key(e); } static int val(int v) { return v; } enum { KD = T_DOM, VD = 1000 }; };
template <> struct KV<2> { static E mk(int k) { return u::mk(k); } static E mv(int v) { return u::mk(v); } static int key(const E &e) { return u::key(e); } static int val(const E &e) { return u::key(e); } enum { KD = T_DOM, VD = T_DOM }; };
template <class C, int M, int UP> struct Dict {
    typedef KV<M> X;
    static void audit(const C &c, const std::map<int, int> &m) {
        same("size", (long long)c.size(), (long long)m.size()); same("empty", c.empty(), m.empty());
        std::vector<std::pair<int, int> > w(m.begin(), m.end()); if (!UP) std::reverse(w.begin(), w.end());
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); it++, i++) { if (i >= w.size()) fail("number of entries iterated over", (long long)i + 1, (long long)w.size()); if (X::key(it->key) != w[i].first) fail("key iterated over", X::key(it->key), w[i].first); if (X::val(it->value) != w[i].second) fail("value iterated over", X::val(it->value), w[i].second); }
        same("number of entries iterated over", (long long)i, (long long)w.size());
    }
    template <int A> static typename std::enable_if<A>::type write(C &c, int k, int v) { c[X::mk(k)] = X::mv(v); }
    template <int A> static typename std::enable_if<!A>::type write(C &, int, int) { }
    static void run(unsigned long long seed, int n) {
        Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; for (int i = 0; i < 8; i++) r(2);
        C *c = new C, *d = new C; std::map<int, int> m, q;
        for (opi = 0; opi < n; opi++) {
            int o = r(18), k = r(X::KD), v = r(X::VD);
            if (o < 4) { if (m.count(k)) continue; opn = "push"; c->push(typename C::KeyValueType(X::mk(k), X::mv(v))); m[k] = v; }
            else if (o < 7) { if (M != 1 && !T_ASSIGN) continue; opn = "write"; write<M == 1 || T_ASSIGN>(*c, k, v); m[k] = v; }
            else if (o == 7) { opn = "subscript"; int x = X::val((*c)[X::mk(k)]); if (m.count(k)) same("value", x, m[k]); else m[k] = x; }
            else if (o < 10) { opn = "pop"; c->pop(X::mk(k)); m.erase(k); }
            else if (o == 10) { if (!m.count(k)) continue; opn = "constant subscript"; const C &y = *c; same("value", X::val(y[X::mk(k)]), m[k]); }
            else if (o < 13) { opn = "find"; auto it = c->find(X::mk(k)); same("found", it != c->end(), (long long)m.count(k)); if (m.count(k)) { same("found key", X::key(it->key), k); same("found value", X::val(it->value), m[k]); } }
            else if (o == 13) { if (!m.count(k)) continue; opn = "erase"; auto it = c->find(X::mk(k)); c->erase(it); m.erase(k); }
            else if (o == 14) { opn = "copy"; C x(*c); *d = x; q = m; audit(*d, q); }
            else if (o == 15) { opn = "move"; *d = dstruct::move(*c); q = m; m.clear(); audit(*d, q); }
            else if (o == 16) { opn = "swap"; dstruct::swap(*c, *d); m.swap(q); audit(*d, q); }
            else { if (r(3)) continue; opn = "clear"; c->clear(); m.clear(); }
            audit(*c, m);
        }
        opn = "end"; audit(*d, q); delete d; audit(*c, m); delete c;
    }
};

} // namespace vp
