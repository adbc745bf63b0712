// PARTS: 2
// SAN: -O1 -fsanitize-coverage=trace-pc
// REL: -O2 -DNDEBUG -fsanitize-coverage=trace-pc
// RELX: 2
// FUZZ: no
// Work is counted, not timed: the compiler calls back at every branch of the program, so the number
// of branches an operation takes is exact and the same in every run.
#define VP_NO_GIANT
#include "suts.hpp"
#include <cstdio>
#include <cstdlib>
static volatile uint64_t g_steps = 0, g_stop = ~0ull; // g_stop: no run of operations here is anywhere near, so something does not end or is quadratic
#define VP_STEP { if ((g_steps = g_steps + 1) > g_stop) { g_stop = ~0ull; fprintf(stderr, "one run of operations takes more than 1e9 steps\n"); abort(); } }
#if defined(__clang__)
extern "C" __attribute__((no_sanitize("coverage"), noinline)) void __sanitizer_cov_trace_pc() VP_STEP
#else
extern "C" __attribute__((no_sanitize_coverage, noinline)) void __sanitizer_cov_trace_pc() VP_STEP
#endif
namespace vp {
using dstruct::less; using dstruct::greater; using dstruct::Alloc;
static volatile int g_sink;
static void sink(int x) { g_sink = x; }
static double lg(size_t n) { double l = 1; for (size_t x = n + 1; x > 1; x >>= 1) l++; return l; }
// one measured phase: `ops` operations of one kind on a container of n elements may take `per` steps each, plus `carry`
// for every element (what an operation may owe to the ones before it, or the elements a linear operation passes over)
struct Meter { Ctx &c; const char *name; uint64_t s0 = 0; std::map<std::string, double> worst; uint64_t phases = 0, big = 0;
    void begin() { s0 = g_steps; g_stop = s0 + 1000000000ull; }
    void end(const char *what, double ops, double per, double carry = 0, size_t n = 0) { g_stop = ~0ull; uint64_t w = g_steps - s0; double lim = per * ops + carry * n + 600; phases++; if (n >= 1000) big++;
        if (getenv("VP_CAL")) { static std::map<std::string, double> &m = *new std::map<std::string, double>; double &x = m[std::string(name) + "/" + what]; double r = w / lim; if (r > x * 1.05) { x = r; FILE *f = fopen(getenv("VP_CAL"), "a"); fprintf(f, "%.3f %s/%s ops %.0f n %zu steps %llu\n", r, name, what, ops, n, (unsigned long long)w); fclose(f); } return; }
        c.log("%s: %s: %.0f operations on %zu elements take %llu steps (bound %.0f)", name, what, ops, n, (unsigned long long)w, lim);
        if ((double)w > lim) c.fail("%s: %s: %.0f operations on %zu elements take %llu steps (bound %.0f)", name, what, ops, n, (unsigned long long)w, lim); } };
static size_t extent(const Op &op, size_t cap) { size_t t = op.b % 5 == 0 ? 1 + op.b / 5 % 8 : op.b % 5 == 1 ? 1 + op.b / 5 % 300 : 1 + op.b / 5 % cap; return t; }

// ---- sequences.  D: ends (1 back only, 2 in at the back and out at the front, 3 both), IDX, ITER, type T
template <class D> static void seq_run(Ctx &c) {
    typedef typename D::T T; Meter m{c, D::name()}; T *o = new T; size_t n = 0; uint32_t r = c.hdr(1) | 1; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return r >> 8; }; size_t left = 30, hw = 0; const double P = D::F * 90.0, Q = D::F * 45.0; // hw: the most it ever held, which decides how much room it keeps
    for (auto &op : c.c->ops) { if (!left--) break; size_t t = extent(op, 30000); hw = std::max(hw, n); int e = op.a & 1, f = op.a >> 1 & 1; bool did = true;
        switch (op.code) {
        case 0: if (D::IDX && op.a % 8 == 7) t *= 40; if (n + t > (D::IDX ? 1300000 : 60000)) { did = false; break; } m.begin(); for (size_t i = 0; i < t; i++) D::push(*o, e, (int)i); m.end("insertion", t, P, Q, hw); n += t; break;
        case 1: t = std::min(t, n); if (!t) { did = false; break; } m.begin(); for (size_t i = 0; i < t; i++) D::pop(*o, e); m.end("removal", t, P, Q, hw); n -= t; break;
        case 2: m.begin(); for (size_t i = 0; i < t % 3000; i++) { D::push(*o, e, (int)i); D::pop(*o, f); } m.end("insertion and removal in turn", t % 3000, 2 * P, Q, hw + 1); break;
        case 3: if (!n) { did = false; break; } t %= 400; m.begin(); for (size_t i = 0; i < t; i++) D::look(*o); m.end("size, emptiness, first and last", t, 160); break;
        case 4: if constexpr (D::IDX) { if (!n) { did = false; break; } t %= 400; m.begin(); for (size_t i = 0; i < t; i++) { long x = (long)(rnd() % n); sink((*o)[(int)(i & 1 ? x : x - (long)n)]); } m.end("access by index", t, 30); } else did = false; break;
        case 5: if constexpr (D::ITER) { int s = 0; size_t k = 0; m.begin(); for (auto it = ((const T *)o)->begin(); it != ((const T *)o)->end(); it++) { s += *it; k++; } m.end("iteration", 1, 100, 60, n); sink(s); if (k != n) c.fail("%s: %zu elements iterated over, should be %zu", D::name(), k, n); } else did = false; break;
        case 6: { m.begin(); { T x(*o); } m.end("copy and destruction", 1, 400, 150 * D::F, n); m.begin(); { T x; x = *o; } m.end("copy assignment and destruction", 1, 400, 150 * D::F, n); break; }
        case 7: { T *x = nullptr; m.begin(); x = new T(dstruct::move(*o)); *o = dstruct::move(*x); m.end("moves", 2, 300); delete x; break; }
        case 8: { T x; D::push(x, 1, 1); m.begin(); dstruct::swap(*o, x); dstruct::swap(x, *o); m.end("swaps", 2, 1500); break; }
        case 9: if (op.a % 4) { did = false; break; } m.begin(); if (op.a & 4) { delete o; o = nullptr; } else D::clear(*o); m.end("clearing", 1, 300, 80 * D::F, hw); if (!o) o = new T; n = hw = 0; break;
        case 10: { if (n < 10 || n > 20000) { did = false; break; } m.begin(); size_t k = 0; while (n > 3) { D::pop(*o, f); n--; k++; } m.end("draining", k, P, Q, hw); break; }
        case 11: if constexpr (D::BACK) { if (!n) { did = false; break; } int s = 0; size_t k = n; m.begin(); auto it = ((const T *)o)->end(); for (; k; k--) { it--; s += *it; } m.end("iteration backwards", 1, 100, 60 * D::F, n); sink(s); if (!(it == ((const T *)o)->begin())) c.fail("%s: %zu steps back from the end do not lead to the beginning", D::name(), n); } else did = false; break;
        case 12: if constexpr (D::ITER) { if (!n) { did = false; break; } t %= 400; m.begin(); for (size_t i = 0; i < t; i++) { auto it = o->begin(); auto e = ((const T *)o)->end(); auto b = ((const T *)o)->begin(); sink(*it + (b != e)); it++; } m.end("begin and end", t, 300); } else did = false; break;
        default: did = false; }
        if (did) c.did(op.code * 64 + op.a % 64); }
    if (m.phases >= 4 && m.big >= 2) c.nontriv = 1;
    hw = std::max(hw, n); m.begin(); delete o; m.end("destruction", 1, 300, 80 * D::F, hw);
}
#define LOOK(...) template <class C> static void look(C &o) { sink((int)o.size() + (int)o.empty()); __VA_ARGS__; }
#define FB sink(o.front()); sink(o.back())
struct SVec { typedef dstruct::Vector<int> T; enum { BACK = 1 }; enum { IDX = 1, ITER = 1, F = 1 }; static const char *name() { return "Vector"; } static void push(T &o, int, int v) { o.push_back(v); } static void pop(T &o, int) { o.pop_back(); } LOOK(FB; sink((int)o.capacity())) static void clear(T &o) { o.clear(); } };
template <int B> struct SDeq { typedef dstruct::Deque<int, B> T; enum { BACK = 1 }; enum { IDX = 0, ITER = 1, F = B == 1 ? 12 : B < 10 ? 4 : 2 }; static const char *name() { return "Deque"; } static void push(T &o, int e, int v) { if (e) o.push_back(v); else o.push_front(v); } static void pop(T &o, int e) { if (e) o.pop_back(); else o.pop_front(); } LOOK(FB; sink((int)o.capacity())) static void clear(T &o) { o.clear(); } };
struct SDL { typedef dstruct::DLinkedList<int> T; enum { BACK = 1 }; enum { IDX = 0, ITER = 1, F = 1 }; static const char *name() { return "DLinkedList"; } static void push(T &o, int e, int v) { if (e) o.push_back(v); else o.push_front(v); } static void pop(T &o, int e) { if (e) o.pop_back(); else o.pop_front(); } LOOK(FB) static void clear(T &o) { o.clear(); } };
struct SSL { typedef dstruct::SLinkedList<int> T; enum { BACK = 0 }; enum { IDX = 0, ITER = 1, F = 1 }; static const char *name() { return "SLinkedList"; } static void push(T &o, int e, int v) { if (e) o.push_back(v); else o.push_front(v); } static void pop(T &o, int) { o.pop_front(); } LOOK(FB) static void clear(T &o) { o.clear(); } };
template <class Q> struct SQue { typedef Q T; enum { BACK = 0 }; enum { IDX = 0, ITER = 0, F = 2 }; static const char *name() { return "Queue"; } static void push(T &o, int, int v) { o.push(v); } static void pop(T &o, int) { o.pop(); } LOOK(FB) static void clear(T &o) { o = T(); } };
template <class Q> struct SStk { typedef Q T; enum { BACK = 0 }; enum { IDX = 0, ITER = 0, F = 1 }; static const char *name() { return "Stack"; } static void push(T &o, int, int v) { o.push(v); } static void pop(T &o, int) { o.pop(); } LOOK(sink(o.top())) static void clear(T &o) { o = T(); } };
template <class Q> struct SMin { typedef Q T; enum { BACK = 0 }; enum { IDX = 0, ITER = 0, F = 1 }; static const char *name() { return "min/max stack"; } static void push(T &o, int, int v) { o.push(v % 97); } static void pop(T &o, int) { o.pop(); } template <class C> static void look(C &o) { sink(o.top() + o.getXValue() + (int)o.empty()); } static void clear(T &o) { o.clear(); } };

// ---- strings
static void str_run(Ctx &c) {
    typedef dstruct::String T; Meter m{c, "String"}; T o; size_t n = 0; size_t left = 30;
    for (auto &op : c.c->ops) { if (!left--) break; size_t t = extent(op, 20000); bool did = true;
        switch (op.code) {
        case 0: if (n + t > 60000) { did = false; break; } m.begin(); for (size_t i = 0; i < t; i++) o.push_back('a'); m.end("push_back", t, 120, 45, n); n += t; break;
        case 1: { std::string s(t, 'b'); if (n + t > 60000) { did = false; break; } m.begin(); o += s.c_str(); m.end("append", 1, 500, 250, n + t); n += t; break; }
        case 2: { std::string s(t, 'b'); m.begin(); { T x(s.c_str()); } m.end("making one from text", 1, 500, 200, t); break; }
        case 3: { T x(o); m.begin(); bool e = x == o; m.end("comparison", 1, 1000, 400, n); if (!e) c.fail("String: a copy is not equal"); break; }
        case 4: { T x(o); m.begin(); T y = x + o; m.end("concatenation", 1, 2000, 900, n); if (y.size() != 2 * n) c.fail("String: size wrong"); break; }
        case 5: { if (!n) { did = false; break; } t %= 500; m.begin(); for (size_t i = 0; i < t; i++) sink(o[(int)(i * 7919 % n)] + *o.c_str() + (int)o.size() + o.empty() + o.back()); m.end("access", t, 120); break; }
        case 6: m.begin(); { T x(dstruct::move(o)); o = dstruct::move(x); } m.end("moves", 2, 1500); break;
        case 7: m.begin(); { T x; x = o; } m.end("copy", 1, 1500, 150, n); break;
        case 8: if (op.a % 4) { did = false; break; } m.begin(); o.clear(); m.end("clearing", 1, 1500, 60, n); n = 0; break;
        default: did = false; }
        if (did) c.did(op.code * 64 + op.b % 64); }
    if (m.phases >= 4 && m.big >= 2) c.nontriv = 1;
}

// ---- heaps
template <class H> static void heap_run(Ctx &c) {
    Meter m{c, "Heap"}; H *o = new H; size_t n = 0; uint32_t r = c.hdr(1) | 1; size_t left = 24; int shape = c.hdr(2) % 4; int seqn = 0;
    auto val = [&]() { r = r * 1664525u + 1013904223u; seqn++; return shape == 0 ? (int)(r >> 8) : shape == 1 ? seqn : shape == 2 ? -seqn : (int)(r >> 28); };
    for (auto &op : c.c->ops) { if (!left--) break; size_t t = extent(op, 20000); bool did = true; double l = lg(n + t);
        switch (op.code) {
        case 0: { if (n + t > 40000) { did = false; break; } std::vector<int> v(t); for (auto &x : v) x = val(); m.begin(); for (size_t i = 0; i < t; i++) o->push(v[i]); m.end("push", t, 150 + 50 * l, 45, n); n += t; break; }
        case 1: t = std::min(t, n); if (!t) { did = false; break; } m.begin(); for (size_t i = 0; i < t; i++) o->pop(); m.end("pop", t, 200 + 100 * l, 45, n); n -= t; break;
        case 2: { if (!n) { did = false; break; } t %= 500; m.begin(); for (size_t i = 0; i < t; i++) sink(o->top() + (int)o->size() + o->empty()); m.end("top, size and emptiness", t, 100); break; }
        case 3: { std::vector<int> v(t); for (auto &x : v) x = val(); m.begin(); H::sort(v.data(), v.data() + t); m.end("sorting", t, 300 + 100 * l); break; }
        case 4: { std::vector<int> v(t); for (auto &x : v) x = val(); m.begin(); { H x(v.data(), v.data() + t); } m.end("building", t, 400 + 100 * 2); break; }
        case 5: m.begin(); { H x(*o); } m.end("copy", 1, 1000, 200, n); break;
        case 6: { H x; m.begin(); x = dstruct::move(*o); *o = dstruct::move(x); m.end("moves", 2, 1500); break; }
        case 7: { t %= 1500; m.begin(); for (size_t i = 0; i < t; i++) { o->push(val()); o->pop(); } m.end("push and pop in turn", t, 400 + 150 * l, 45, n); break; }
        case 8: { m.begin(); int s = 0; for (auto it = o->begin(); it != o->end(); it++) s += *it; m.end("iteration", 1, 300, 60, n); sink(s); break; }
        case 9: { std::vector<int> v(t); for (auto &x : v) x = val(); m.begin(); { H x = H::build(v.data(), v.data() + t); sink(x.top()); } m.end("building", t, 600); break; }
        default: did = false; }
        if (did) c.did(op.code * 64 + op.b % 64); }
    if (m.phases >= 4 && m.big >= 2) c.nontriv = 1;
    delete o;
}

// ---- search trees and maps.  shape of the keys: random, ascending, descending, zigzag; a plain search tree only gets random keys
template <class K> struct Tree; 
typedef dstruct::tree::BinarySearchTree<int, less<int>, Alloc> TB; typedef dstruct::AVLTree<int, less<int>, Alloc> TV; typedef dstruct::Map<int, int> TM;
template <> struct Tree<TB> { static const char *name() { return "search tree"; } enum { BAL = 0, ORD = 1 }; static void put(TB &o, int k) { o.push(k); } static int key(const int &x) { return x; } static int top(TB &) { return 0; } };
template <> struct Tree<TV> { static const char *name() { return "AVL tree"; } enum { BAL = 1, ORD = 1 }; static void put(TV &o, int k) { o.push(k); } static int key(const int &x) { return x; } static int top(TV &o) { return o.height(); } };
template <> struct Tree<TM> { static const char *name() { return "Map"; } enum { BAL = 1, ORD = 0 }; static void put(TM &o, int k) { o[k] = k; } template <class X> static int key(const X &x) { return x.key; } static int top(TM &o) { const TM &k = o; return k.begin() != k.end(); } };
template <class T> static void tree_run(Ctx &c) {
    typedef Tree<T> X; Meter m{c, X::name()}; T *o = new T; std::set<int> s; uint32_t r = c.hdr(1) | 1; size_t left = 24; int shape = X::BAL ? c.hdr(2) % 4 : 0; int seqn = 0;
    auto rnd = [&]() { r = r * 1664525u + 1013904223u; return r >> 7; };
    auto fresh = [&]() { for (;;) { seqn++; int k = shape == 0 ? (int)rnd() : shape == 1 ? seqn : shape == 2 ? -seqn : (seqn & 1 ? seqn : -seqn) * (1 << 10); if (s.insert(k).second) return k; } };
    auto some = [&]() { auto it = s.lower_bound(shape == 0 ? (int)rnd() : shape == 1 ? (int)(rnd() % (seqn + 1)) : shape == 2 ? -(int)(rnd() % (seqn + 1)) : ((int)(rnd() % (2 * seqn + 2)) - seqn) * (1 << 10)); if (it == s.end()) it = s.begin(); return *it; };
    for (auto &op : c.c->ops) { if (!left--) break; size_t t = extent(op, 6000), n = s.size(); bool did = true; double l = lg(n + t); double f = X::BAL ? 1 : 3.5;
        switch (op.code) {
        case 0: { if (n + t > 16000) { did = false; break; } std::vector<int> v; for (size_t i = 0; i < t; i++) v.push_back(fresh()); m.begin(); for (int k : v) X::put(*o, k); m.end("insertion", t, 300 + 90 * l * f); break; }
        case 1: { t = std::min(t, n); if (!t) { did = false; break; } std::vector<int> v; for (size_t i = 0; i < t; i++) { int k = some(); s.erase(k); v.push_back(k); } m.begin(); for (int k : v) o->pop(k); m.end("removal by value", t, 500 + 150 * l * f); break; }
        case 2: { t = std::min(t, n); if (!t) { did = false; break; } std::vector<int> v; for (size_t i = 0; i < t; i++) { int k = some(); s.erase(k); v.push_back(k); } m.begin(); for (int k : v) { auto it = o->find(k); o->erase(it); } m.end("removal by position", t, 600 + 200 * l * f); break; }
        case 3: { if (!n) { did = false; break; } std::vector<int> v; for (size_t i = 0; i < t % 2000; i++) v.push_back(i & 1 ? some() : some() + 1); m.begin(); for (int k : v) { auto it = o->find(k); sink(it != o->end()); } m.end("lookup", v.size(), 200 + 50 * l * f); break; }
        case 4: { size_t k = 0; int x = 0; m.begin(); for (auto it = o->begin(); it != o->end(); it++) { x += X::key(*it); k++; } m.end("iteration", 1, 600, 150, n); sink(x); if (k != n) c.fail("%s: %zu elements iterated over, should be %zu", X::name(), k, n);
            if constexpr (X::ORD) { for (auto tt : { T::TraversalType::PreOrder, T::TraversalType::PostOrder }) { k = 0; m.begin(); for (auto it = o->begin(tt); it != o->end(tt); it++) k++; m.end(tt == T::TraversalType::PreOrder ? "pre-order iteration" : "post-order iteration", 1, 600, 150, n); if (k != n) c.fail("%s: %zu elements iterated over, should be %zu", X::name(), k, n); } }
            break; }
        case 5: m.begin(); { T y(*o); } m.end("copy and destruction", 1, 600, 250, n); break;
        case 6: { T y; m.begin(); y = dstruct::move(*o); *o = dstruct::move(y); m.end("moves", 2, 600); break; }
        case 7: { t %= 500; m.begin(); for (size_t i = 0; i < t; i++) sink((int)o->size() + o->empty()); m.end("size and emptiness", t, 60); break; }
        case 8: { if (!n) { did = false; break; } std::vector<int> v; for (size_t i = 0; i < t % 2000; i++) v.push_back(some() + 1); for (size_t i = 0; i < v.size();) if (s.count(v[i])) { v[i] = v.back(); v.pop_back(); } else i++; m.begin(); for (int k : v) o->pop(k); m.end("removal of absent values", v.size(), 500 + 150 * l * f); break; }
        case 9: if (op.a % 4) { did = false; break; } m.begin(); o->clear(); m.end("clearing", 1, 600, 80, n); s.clear(); break;
        case 10: { if (!n) { did = false; break; } t %= 500; std::vector<int> v; for (size_t i = 0; i < t; i++) v.push_back(fresh()); m.begin(); for (int k : v) { X::put(*o, k); o->pop(k); } m.end("insertion and removal in turn", t, 800 + 250 * l * f); for (int k : v) s.erase(k); break; }
        case 11: { t = std::min(t, n); if (!t) { did = false; break; } m.begin(); for (size_t i = 0; i < t; i++) { auto it = o->begin(); o->erase(it); } m.end("removal of the first", t, 600 + 200 * l * f); for (size_t i = 0; i < t; i++) s.erase(s.begin()); break; }
        case 12: { if (!n) { did = false; break; } t %= 500; std::vector<int> v; for (size_t i = 0; i < t; i++) v.push_back(some()); m.begin(); for (int k : v) { if (!X::ORD) X::put(*o, k); auto b = o->begin(); sink(b != o->end()); sink(X::top(*o)); } m.end("begin and end, present keys", t, 600 + 120 * l * f); break; }
        case 13: { if constexpr (X::ORD && !X::BAL) { std::vector<int> v; std::set<int> w; for (size_t i = 0; i < t; i++) { int k = shape == 1 ? (int)i : shape == 2 ? -(int)i : (int)rnd(); if (w.insert(k).second) v.push_back(k); } if (v.empty()) { did = false; break; } m.begin(); { T y(v.data(), v.data() + v.size()); sink((int)y.size()); } m.end("making one from elements, and destruction", v.size(), 600 + 90 * l * f); } else did = false; break; }
        default: did = false; }
        if (o->size() != s.size()) c.fail("%s: size is %zu, should be %zu", X::name(), (size_t)o->size(), s.size());
        if (did) c.did(op.code * 64 + op.b % 64); }
    if (m.phases >= 4 && m.big >= 2) c.nontriv = 1;
    m.begin(); delete o; m.end("destruction", 1, 600, 80, s.size());
}
// degenerate search trees: whatever the shape, passing over every element is linear
static void chain_run(Ctx &c) {
    Meter m{c, "search tree"}; size_t n = 200 + c.hdr(0) % 2000; TB o; uint32_t r = c.hdr(1); int shape = c.hdr(2) % 7; // chains, zigzag, blocks, and combs: a chain with a leaf (or a bent one) at every node
    if (shape >= 4) { int u = shape == 4 ? 10 : -10; for (int i = 1; i <= (int)n / 2; i++) o.push(i * u); for (int i = 1; i <= (int)n / 2; i++) o.push(i * u - u / 2); if (shape == 6) for (int i = 1; i <= (int)n / 8; i++) { o.push(i * u - u / 2 - 1); o.push(i * u - u / 2 + 1); } }
    else for (size_t i = 0; i < n; i++) { r = r * 1664525u + 1013904223u; o.push(shape == 0 ? (int)i : shape == 1 ? -(int)i : shape == 2 ? (i & 1 ? (int)i : -(int)i + 100000) : (int)((i / 50) * 100000 + (i % 50 & 1 ? i % 50 : 100 - i % 50))); }
    size_t z = o.size(), k = 0;
    for (auto tt : { TB::TraversalType::InOrder, TB::TraversalType::PreOrder, TB::TraversalType::PostOrder }) { k = 0; m.begin(); for (auto it = o.begin(tt); it != o.end(tt); it++) k++; m.end("iteration of a degenerate tree", 1, 600, 150, z); if (k != z) c.fail("search tree: %zu elements iterated over, should be %zu", k, z); }
    m.begin(); { TB x(o); } m.end("copy of a degenerate tree", 1, 600, 250, z); m.begin(); o.clear(); m.end("clearing of a degenerate tree", 1, 600, 80, z);
    c.did(shape); if (z >= 1000) c.nontriv = 1;
}

// ---- disjoint sets
static void uf_run(Ctx &c) {
    typedef dstruct::UFSet T; Meter m{c, "DisjointSet"}; size_t n = c.hdr(0) % 3 == 0 ? 1 + c.hdr(3) % 300 : 1 + c.hdr(3) % 40000; T o((int)n); uint32_t r = c.hdr(1) | 1; size_t left = 24; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return (int)((r >> 7) % n); }; double l = lg(n);
    for (auto &op : c.c->ops) { if (!left--) break; size_t t = extent(op, 20000); bool did = true; int kind = op.a % 5; std::vector<std::pair<int, int>> v; int last = rnd();
        switch (op.code) {
        case 0: for (size_t i = 0; i < t; i++) { int a = rnd(), b = rnd(); if (kind == 1) { a = last; last = b; } else if (kind == 2) { a = 0; } else if (kind == 3) { a = (int)(i % n); b = (int)((i + 1) % n); } else if (kind == 4) { b = 0; } v.push_back({a, b}); } m.begin(); for (auto &p : v) o.connect(p.first, p.second); m.end("connection", t, 150 + 60 * l); break;
        case 1: for (size_t i = 0; i < t; i++) v.push_back({rnd(), rnd()}); m.begin(); for (auto &p : v) sink(o.connected(p.first, p.second)); m.end("query", t, 150 + 60 * l); break;
        case 2: m.begin(); sink((int)o.count()); m.end("counting", 1, 100, 30, n); break;
        case 3: { size_t w = 1; while (w * 2 <= n) w *= 2; m.begin(); for (size_t d = 1; d < w; d *= 2) for (size_t i = 0; i + d < w; i += 2 * d) { int a = op.a & 8 ? (int)i : (int)(i + d - 1), b = op.a & 16 ? (int)(i + d) : (int)(i + 2 * d - 1); o.connect(a, b); } m.end("connection in a tournament", (double)w, 150 + 60 * l); break; }
        case 4: m.begin(); { T x(o); } m.end("copy", 1, 600, 100, n); break;
        default: did = false; }
        if (did) c.did(op.code * 64 + op.a % 64); }
    if (m.phases >= 4 && n >= 1000) c.nontriv = 1;
}

static Suite mk(const char *n, void (*f)(Ctx &), std::vector<int> w, int share = 1) { Suite s; s.name = n; s.run = f; s.weights = w; s.share = share; s.maxLen = 24; return s; }
static const std::vector<int> WS = {10, 4, 4, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2}, WT = {12, 3, 3, 3, 2, 2, 1, 1, 2, 1, 2, 2, 2, 2};
void define(Property &P) {
    P.id = "C33";
    P.rule = "histories of runs of one operation each on containers of up to 60000 elements (vectors 1300000, trees 16000); the branches taken are counted by instrumentation and must stay within a bound per operation that does not depend on the size (ends of sequences, access, moves), grows with its logarithm (heaps, balanced trees, maps, random search trees, disjoint sets), or is linear where every element is concerned (copies, iteration, clearing); non-trivial: at least four measured runs, two of them on at least 1000 elements";
    P.assumptions = {"steps are branches taken in code of the library and its instantiations, not time; calls into libc are not counted", "the bounds are several times what the present code takes", "access by index in a deque, assignment of strings by appending, and the static allocator's search are linear by design and not bounded here"};
    ADD0(mk("Vector", seq_run<SVec>, WS, 2)); ADD0(mk("Deque,1", seq_run<SDeq<1>>, WS)); ADD0(mk("Deque,7", seq_run<SDeq<7>>, WS, 2)); ADD0(mk("Deque,32", seq_run<SDeq<32>>, WS)); ADD0(mk("DLinkedList", seq_run<SDL>, WS)); ADD0(mk("SLinkedList", seq_run<SSL>, WS));
    ADD1(mk("Queue over deque", seq_run<SQue<dstruct::Queue<int>>>, WS)); ADD1((mk("Queue over list", seq_run<SQue<dstruct::adapter::Queue<int, dstruct::DLinkedList<int>>>>, WS))); ADD1(mk("Stack over vector", seq_run<SStk<dstruct::Stack<int>>>, WS)); ADD1((mk("Stack over list", seq_run<SStk<dstruct::adapter::Stack<int, dstruct::DLinkedList<int>>>>, WS))); ADD1((mk("min stack", seq_run<SMin<dstruct::stack::XValueStack<int, less<int>>>>, WS)));
    ADD0(mk("String", str_run, {6, 4, 1, 3, 2, 2, 1, 2, 1}, 2)); ADD1((mk("Heap", heap_run<dstruct::Heap<int, less<int>>>, {8, 3, 1, 2, 2, 1, 1, 2, 1, 2}, 3)));
    ADD0(mk("AVL tree", tree_run<TV>, WT, 3)); ADD1(mk("search tree", tree_run<TB>, WT, 2)); ADD1(mk("Map", tree_run<TM>, WT, 3)); ADD1(mk("degenerate search tree", chain_run, {1}, 2)); ADD0(mk("DisjointSet", uf_run, {5, 3, 1, 2, 1}, 3));
    P.quickCases = 16000; P.thoroughCases = 150000;
}
}
