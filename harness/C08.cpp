// PARTS: 3
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <> struct El<KP> {             // identity = key and payload, order = key only
    static int norm(int v) { return v; }
    static KP make(int v) { KP k; k.k = v >> 2; k.p = v & 3; return k; }
    static int key(const KP &t) { return (int)((unsigned)t.k << 2 | (unsigned)t.p); }
};
static int g_dir = 1;
template <class T> struct GlobCmp { bool operator()(const T &a, const T &b) const { g_cmps++; return g_dir > 0 ? a < b : b < a; } };
// a raw, exactly sized buffer as well as a Vector carry the range
template <class T, class Cmp> static void sort_run(Ctx &c) {
    Env e(c); std::vector<int> m; dstruct::Vector<T> v; g_dir = c.hdr(3) & 1 ? 1 : -1; Cmp cmp; size_t done = 0, left = 1u << 30; const bool large = c.hdr(2) % 128 == 77; if (large) left = 9;
    typedef dstruct::Heap<T, Cmp, Alloc> H;
    auto add = [&](int x) { x = El<T>::norm(x); v.push_back(El<T>::make(x)); m.push_back(x); };
    auto same_outside = [&](size_t lo, size_t hi, const char *w) { for (size_t i = 0; i < m.size(); i++) if (i < lo || i >= hi) VP_CHECK(c, El<T>::key(v[(int)i]) == m[i], "%s of [%zu,%zu) changed element %zu outside the range", w, lo, hi, i); };
    for (auto &o : c.c->ops) {
        if (!left--) break; if (large && left == 8) { size_t q = 20000 + o.b % 60000; int b = e.raw(o.a); for (size_t i = 0; i < q; i++) add(o.a & 1 ? (int)((unsigned)b + i * 2654435761u) : o.a & 2 ? (int)((unsigned)b - i) : (int)((unsigned)b + i)); c.label(q > 33000 ? "range of 33000 or more" : "range of 20000 or more"); c.log("%zu elements at once", q); continue; }
        size_t n = m.size(); size_t lo = n ? o.a % (n + 1) : 0, hi = n ? lo + o.b % (n - lo + 1) : 0; if (o.b % 5 == 0) { lo = 0; hi = n; }
        switch (o.code) {
        case 0: if (n < 1500) add(e.raw(o.a)); break;
        case 1: { if (n > 1200) break; size_t q = 1 + o.b % 130; int b = e.raw(o.a); for (size_t i = 0; i < q; i++) { int x; switch (o.b / 256 % 5) { case 0: x = b; break; case 1: x = (int)((unsigned)b + i); break; case 2: x = (int)((unsigned)b - i); break; case 3: x = (int)((unsigned)b + (i < q / 2 ? i : q - i)); break; default: x = e.raw(o.a + (uint32_t)i * 7919); } add(x); } break; }
        case 2: case 3: case 4: {      // sort / build in the vector / sort a raw buffer
            std::vector<int> want(m.begin() + lo, m.begin() + hi); std::sort(want.begin(), want.end()); size_t k = hi - lo;
            c.log("%s [%zu,%zu) of %zu", o.code == 2 ? "sort" : o.code == 3 ? "build" : "sort raw", lo, hi, n);
            if (k >= 2) { done++; if (std::adjacent_find(want.begin(), want.end()) != want.end()) c.label("range with equal elements"); if (k >= 32) c.label("range of 32 or more"); } if (k == 0) c.label("empty range"); if (lo > 0 && hi < n) c.label("proper sub-range");
            std::vector<int> got(k);
            if (o.code == 4) {
                T *buf = static_cast<T *>(malloc(k * sizeof(T) + (k == 0))); for (size_t i = 0; i < k; i++) new (buf + i) T(v[(int)(lo + i)]);
                H::sort(buf, buf + k);
                for (size_t i = 0; i < k; i++) { got[i] = El<T>::key(buf[i]); if (i) VP_CHECK(c, !cmp(buf[i], buf[i - 1]), "sort: element %zu precedes element %zu of %zu in a raw buffer", i, i - 1, k); }
                for (size_t i = 0; i < k; i++) buf[i].~T(); free(buf);
            } else if (o.code == 2) {
                H::sort(v.begin() + (int)lo, v.begin() + (int)hi);
                for (size_t i = 0; i < k; i++) { got[i] = El<T>::key(v[(int)(lo + i)]); if (i) VP_CHECK(c, !cmp(v[(int)(lo + i)], v[(int)(lo + i - 1)]), "sort: element %zu precedes element %zu of %zu", i, i - 1, k); }
            } else {
                H h = H::build(v.begin() + (int)lo, v.begin() + (int)hi);
                for (size_t i = 0; i < k; i++) { got[i] = El<T>::key(v[(int)(lo + i)]); if (i) VP_CHECK(c, !cmp(v[(int)(lo + i)], v[(int)(lo + (i - 1) / 2)]), "heap build: child %zu precedes its parent %zu of %zu", i, (i - 1) / 2, k); }
                VP_CHECK(c, h.size() == k && h.empty() == (k == 0), "heap build: the returned heap holds %llu of %zu elements", (unsigned long long)h.size(), k);
                std::vector<int> out; if (o.b & 1024) { T x = El<T>::make(El<T>::norm(e.raw(o.a))); h.push(x); want.push_back(El<T>::key(x)); std::sort(want.begin(), want.end()); }
                std::vector<T> seq; while (!h.empty()) { VP_CHECK(c, seq.size() <= k, "heap build: the returned heap never becomes empty"); seq.push_back(h.top()); h.pop(); }
                for (size_t i = 0; i < seq.size(); i++) { out.push_back(El<T>::key(seq[i])); if (i) VP_CHECK(c, !cmp(seq[i], seq[i - 1]), "heap build: the returned heap yields element %zu out of order", i); }
                std::sort(out.begin(), out.end()); VP_CHECK(c, out == want, "heap build: the returned heap yields other elements than the range held (%zu)", k);
                want.assign(m.begin() + lo, m.begin() + hi); std::sort(want.begin(), want.end());
            }
            std::vector<int> g2 = got; std::sort(g2.begin(), g2.end());
            VP_CHECK(c, g2 == want, "%s: the range of %zu elements is no permutation of what it held", o.code == 3 ? "heap build" : "sort", k);
            VP_CHECK(c, v.size() == n, "sort/build changed the vector's size");
            same_outside(lo, hi, o.code == 3 ? "heap build" : "sort");
            if (o.code != 4) std::copy(got.begin(), got.end(), m.begin() + lo);
            break; }
        case 5: if (n) { int x = El<T>::norm(e.raw(o.a)); v[(int)(o.b % n)] = El<T>::make(x); m[o.b % n] = x; } break;
        case 6: if (n) { v.clear(); m.clear(); } break;
        }
        c.did(o.code * 77 + o.a);
    }
    if (done >= 2) c.interesting("two or more ranges of at least two elements");
}
template <class T, class C> static Suite ss(const char *n, int share = 1) { return Suite{n, sort_run<T, C>, {10, 4, 6, 6, 3, 3, 1}, share, false, 200}; }
void define(Property &P) {
    P.id = "C08";
    P.rule = "vectors and raw buffers grown from random, constant, ascending, descending and organ-pipe runs; in-place sorts and heap builds over random sub-ranges (empty, single, whole), with the returned heaps drained; the oracle is order under the comparison, permutation of identities and an untouched outside; non-trivial: at least two sorted or built ranges of two or more elements";
    P.assumptions = {"the comparison is a strict weak order and default-constructible", "[begin,end) is a valid range"};
    ADD0((ss<int, less<int>>("sort<int>", 3))); ADD0((ss<int, greater<int>>("sort<int,greater>", 2))); ADD1((ss<KP, less<KP>>("sort<keyed>", 2))); ADD1((ss<Str, less<Str>>("sort<Str>", 2)));
    ADD2((ss<Str, GlobCmp<Str>>("sort<Str,runtime>"))); ADD2((ss<char, less<char>>("sort<char>"))); ADD0((ss<double, GlobCmp<double>>("sort<double,runtime>"))); ADD1((ss<Wide, greater<Wide>>("sort<Wide,greater>"))); ADD2((ss<Big, less<Big>>("sort<Big>")));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
