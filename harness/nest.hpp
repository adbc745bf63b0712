// Values made of containers of containers, with a model: a tree of plain values.
#pragma once
#include "allocs.hpp"
#include <dstruct.hpp>

namespace vp {
using NA = TrackAlloc<0>;

// the model of any value: i = number, s = text, c = sequence, m = map (keys in the entries), h = multiset, r = record (number, content)
struct Val { char kind = 'i'; int v = 0, key = 0; std::string s; std::vector<Val> c; };
static inline size_t weigh(const Val &x) { size_t n = 1 + x.s.size() / 16; for (auto &y : x.c) n += weigh(y); return n; }
static inline std::string text(const Val &x) {
    std::string r;
    switch (x.kind) {
    case 'i': return std::to_string(x.v);
    case 's': return "'" + x.s + "'";
    case 'c': r = "["; for (auto &y : x.c) r += text(y) + ","; return r + "]";
    case 'm': r = "{"; for (auto &y : x.c) r += std::to_string(y.key) + "=" + text(y) + ","; return r + "}";
    case 'h': { std::vector<std::string> t; for (auto &y : x.c) t.push_back(text(y)); std::sort(t.begin(), t.end()); r = "<"; for (auto &y : t) r += y + ","; return r + ">"; }
    default: return "(" + std::to_string(x.v) + text(x.c[0]) + ")";
    }
}
struct R {
    Rng g; Ctx &ctx; long room; int level = 0;
    R(uint64_t s, Ctx &c, long room) : g(s), ctx(c), room(room) {}
    uint32_t below(uint32_t n) { return g.below(n); }
    bool one(uint32_t n) { return g.below(n) == 0; }
    bool wide = false;
    int len(int d) { return room <= 0 ? 0 : (int)below(wide ? 20 : d > 1 ? 3 : d > 0 ? 4 : 5); }
};
#define NCHECK(cond, ...) do { if (!(cond)) g_ctx->fail(__VA_ARGS__); } while (0)

// Nx<T>: rnd (a random model of a T), fill (an empty T from a model), text (what a T shows), op (one random operation on both)
template <class T> struct Nx;
template <class T> static T make(const Val &v) { T x; Nx<T>::fill(x, v); return x; }

template <> struct Nx<Trk> {
    static const int depth = 0; static const bool cont = false;
    static Val rnd(R &r) { Val v; v.v = (int)r.below(1000); r.room--; return v; }
    static void fill(Trk &x, const Val &v) { x = Trk(v.v); }
    static std::string text(const Trk &x) { return std::to_string(El<Trk>::key(x)); }
    static bool op(Trk &x, Val &v, R &r) { v = rnd(r); x = Trk(v.v); return true; }
};
using NStr = dstruct::BasicString<char, NA>;
template <> struct Nx<NStr> {
    static const int depth = 1; static const bool cont = true;
    static Val empty() { Val v; v.kind = 's'; return v; }
    static Val rnd(R &r) { Val v = empty(); size_t n = r.one(4) ? r.below(60) : r.below(8); for (size_t i = 0; i < n; i++) v.s += (char)('a' + r.below(26)); r.room -= 1 + (long)n / 16; return v; }
    static void fill(NStr &x, const Val &v) { x = v.s.c_str(); }
    static std::string text(const NStr &x) { NCHECK(x.size() == strlen(x.c_str()) && x.empty() == (x.size() == 0), "a nested string reports %zu characters and holds %zu", (size_t)x.size(), strlen(x.c_str())); return std::string("'") + x.c_str() + "'"; }
    static bool op(NStr &x, Val &v, R &r) {
        switch (r.below(6)) {
        case 0: { char c = (char)('a' + r.below(26)); x.push_back(c); v.s += c; return true; }
        case 1: { Val t = rnd(r); x += t.s.c_str(); v.s += t.s; return true; }
        case 2: { Val t = rnd(r); x = t.s.c_str(); v.s = t.s; return true; }
        case 3: if (v.s.empty() || v.s.size() > 100) return false; x += x; v.s += v.s; return true;
        case 4: if (v.s.empty()) return false; { size_t i = r.below((uint32_t)v.s.size()); x[(int)i] = 'Z'; v.s[i] = 'Z'; } return true;
        default: { NStr y = x + x; NCHECK(Nx<NStr>::text(y) == "'" + v.s + v.s + "'", "concatenation of nested strings is wrong"); } return true;
        }
    }
};
// what every sequence shows
template <class E, class C> static std::string seqtext(const C &x, char open, char close) {
    std::string s(1, open); size_t n = 0;
    for (auto it = x.begin(); it != x.end(); it++) { s += Nx<E>::text(*it) + ","; n++; }
    NCHECK(x.size() == n && x.empty() == (n == 0), "a nested container reports %zu elements and shows %zu", (size_t)x.size(), n);
    return s + close;
}
template <class E> static Val rndseq(R &r, char kind, int d, int n = -1) { Val v; v.kind = kind; if (n < 0) n = r.len(d); r.room--; for (int i = 0; i < n; i++) v.c.push_back(Nx<E>::rnd(r)); return v; }
static inline Val emptyOf(char kind) { Val v; v.kind = kind; return v; }

// operations on two elements of a container that gives access to them by reference
template <class E> static bool pairop(E &a, Val &va, E &b, Val &vb, R &r) {
    switch (r.below(4)) {
    case 0: a = b; va = vb; va.key = va.key; return true;
    case 1: dstruct::swap(a, b); std::swap(va, vb); return true;
    case 2: if constexpr (Nx<E>::cont) {     // out and back by move: empty in between
                E t(static_cast<E &&>(a)); NCHECK(Nx<E>::text(a) == text(Nx<E>::empty()), "an element that is a container was moved from and still shows %s", Nx<E>::text(a).c_str());
                a = static_cast<E &&>(t); return true; }
            return false;
    default: if constexpr (Nx<E>::cont) { if (&a == &b) return false; a = static_cast<E &&>(b); va = vb; vb = Nx<E>::empty(); return true; } return false;
    }
}
template <class E> static bool pairopk(E &a, Val &va, E &b, Val &vb, R &r) { int ka = va.key, kb = vb.key; bool x = pairop(a, va, b, vb, r); va.key = ka; vb.key = kb; return x; }

template <class E> struct Nx<dstruct::Vector<E, NA>> {
    using T = dstruct::Vector<E, NA>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('c'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'c', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push_back(make<E>(e)); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size(); uint32_t i = n ? r.below((uint32_t)n) : 0, j = n ? r.below((uint32_t)n) : 0;
        switch (r.below(14)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push_back(o); v.c.push_back(e); return true; }
        case 2: if (!n || r.room <= 0) return false; x.push_back(x[(int)i]); { Val e = v.c[i]; v.c.push_back(e); } return true;
        case 3: if (!n) return false; x.pop_back(); v.c.pop_back(); return true;
        case 4: if (r.one(3)) { x.clear(); v.c.clear(); return true; } return false;
        case 5: case 6: if (!n) return false; return pairop(x[(int)i], v.c[i], x[(int)j], v.c[j], r);
        case 7: { size_t k = r.below((uint32_t)n + 1); x.resize(k); v.c.resize(k); return true; }
        case 8: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); size_t k = r.below((uint32_t)n + 3); x.resize(k, o); v.c.resize(k, e); return true; }
        case 9: if (!n || r.room <= 0) return false; { Val e = v.c[i]; size_t k = n + r.below(3); x.resize(k, x[(int)i]); v.c.resize(k, e); } return true;
        default: if (!n) return false; if (r.one(2)) { auto it = x.begin() + (int)i; return Nx<E>::op(*it, v.c[i], r); } return Nx<E>::op(x[(int)i], v.c[i], r);
        }
    }
};
template <class E, auto N> struct Nx<dstruct::Array<E, N>> {
    using T = dstruct::Array<E, N>; static const int depth = Nx<E>::depth + 1; static const bool cont = false;
    static Val rnd(R &r) { return rndseq<E>(r, 'c', 0, (int)N); }
    static void fill(T &x, const Val &v) { for (int i = 0; i < (int)N; i++) x[i] = make<E>(v.c[i]); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        int i = (int)r.below(N), j = (int)r.below(N);
        switch (r.below(6)) {
        case 0: return pairop(x[i], v.c[i], x[j - (int)N], v.c[j], r);
        case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); x = T(make<E>(e)); for (auto &y : v.c) y = e; return true; }
        default: return Nx<E>::op(x[i], v.c[i], r);
        }
    }
};
template <class E, class T, bool DBL> struct NxList {
    static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('c'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'c', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push_back(make<E>(e)); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size(); uint32_t i = n ? r.below((uint32_t)n) : 0, j = n ? r.below((uint32_t)n) : 0;
        auto at = [&](size_t k) { auto it = x.begin(); while (k--) it++; return it; };
        switch (r.below(13)) {
        case 0: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push_back(o); v.c.push_back(e); return true; }
        case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push_front(o); v.c.insert(v.c.begin(), e); return true; }
        case 2: if (!n || r.room <= 0) return false; { auto it = at(i); Val e = v.c[i]; if (r.one(2)) { x.push_back(*it); v.c.push_back(e); } else { x.push_front(*it); v.c.insert(v.c.begin(), e); } } return true;
        case 3: if (!n) return false; x.pop_front(); v.c.erase(v.c.begin()); return true;
        case 4: if (!n) return false; if constexpr (DBL) { x.pop_back(); v.c.pop_back(); return true; } return false;
        case 5: if (r.one(3)) { x.clear(); v.c.clear(); return true; } return false;
        case 6: case 7: if (!n) return false; { auto p = at(i), q = at(j); return pairop(*p, v.c[i], *q, v.c[j], r); }
        case 8: if (!n) return false; { E o = x.front(); NCHECK(Nx<E>::text(o) == vp::text(v.c.front()), "front() of a nested list is %s, expected %s", Nx<E>::text(o).c_str(), vp::text(v.c.front()).c_str()); x.pop_front(); x.push_back(o); std::rotate(v.c.begin(), v.c.begin() + 1, v.c.end()); } return true;
        default: if (!n) return false; { auto it = at(i); return Nx<E>::op(*it, v.c[i], r); }
        }
    }
};
template <class E> struct Nx<dstruct::SinglyLinkedList<E, NA>> : NxList<E, dstruct::SinglyLinkedList<E, NA>, false> {};
template <class E> struct Nx<dstruct::DoublyLinkedList<E, NA>> : NxList<E, dstruct::DoublyLinkedList<E, NA>, true> {};
template <class E, auto B> struct Nx<dstruct::DoubleEndedQueue<E, B, NA>> {
    using T = dstruct::DoubleEndedQueue<E, B, NA>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('c'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'c', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push_back(make<E>(e)); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size(); uint32_t i = n ? r.below((uint32_t)n) : 0;
        switch (r.below(9)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push_back(o); v.c.push_back(e); return true; }
        case 2: case 3: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push_front(o); v.c.insert(v.c.begin(), e); return true; }
        case 4: if (!n || r.room <= 0) return false; { Val e = v.c[i]; if (r.one(2)) { x.push_back(x[(int)i]); v.c.push_back(e); } else { x.push_front(x[(int)i]); v.c.insert(v.c.begin(), e); } } return true;
        case 5: if (!n) return false; x.pop_front(); v.c.erase(v.c.begin()); return true;
        case 6: if (!n) return false; x.pop_back(); v.c.pop_back(); return true;
        case 7: if (r.one(4)) { x.clear(); v.c.clear(); return true; } return false;
        default: if (!n) return false; { E o = x.back(); NCHECK(Nx<E>::text(o) == vp::text(v.c.back()), "back() of a nested deque is %s, expected %s", Nx<E>::text(o).c_str(), vp::text(v.c.back()).c_str()); x.pop_back(); Nx<E>::op(o, v.c.back(), r); x.push_back(o); } return true;
        }
    }
};
template <class E, class D> struct Nx<dstruct::adapter::Queue<E, D>> {
    using T = dstruct::adapter::Queue<E, D>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('c'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'c', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push(make<E>(e)); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size();
        switch (r.below(5)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push(o); v.c.push_back(e); return true; }
        case 2: if (!n) return false; x.pop(); v.c.erase(v.c.begin()); return true;
        default: if (!n) return false; { E o = x.front(); NCHECK(Nx<E>::text(o) == vp::text(v.c.front()), "front() of a nested queue is %s, expected %s", Nx<E>::text(o).c_str(), vp::text(v.c.front()).c_str()); x.pop(); Nx<E>::op(o, v.c.front(), r); x.push(o); std::rotate(v.c.begin(), v.c.begin() + 1, v.c.end()); } return true;
        }
    }
};
template <class E, class D> struct Nx<dstruct::adapter::Stack<E, D>> {
    using T = dstruct::adapter::Stack<E, D>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('c'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'c', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push(make<E>(e)); }
    static std::string text(const T &x) { return seqtext<E>(x, '[', ']'); }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size();
        switch (r.below(6)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push(o); v.c.push_back(e); return true; }
        case 2: if (!n) return false; x.pop(); v.c.pop_back(); return true;
        case 3: if (!n || r.room <= 0) return false; x.push(x.top()); { Val e = v.c.back(); v.c.push_back(e); } return true;
        default: if (!n) return false; { E o = x.top(); NCHECK(Nx<E>::text(o) == vp::text(v.c.back()), "top() of a nested stack is %s, expected %s", Nx<E>::text(o).c_str(), vp::text(v.c.back()).c_str()); x.pop(); Nx<E>::op(o, v.c.back(), r); x.push(o); } return true;
        }
    }
};
// an order on any value: that of its text
template <class E> struct ByText { bool operator()(const E &a, const E &b) const { return Nx<E>::text(a) < Nx<E>::text(b); } };
template <class E> struct Nx<dstruct::Heap<E, ByText<E>, NA>> {
    using T = dstruct::Heap<E, ByText<E>, NA>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('h'); }
    static Val rnd(R &r) { return rndseq<E>(r, 'h', depth - 1); }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push(make<E>(e)); }
    static std::string text(const T &x) {
        std::vector<std::string> t; for (auto it = x.begin(); it != x.end(); it++) t.push_back(Nx<E>::text(*it));
        NCHECK(x.size() == t.size() && x.empty() == t.empty(), "a nested heap reports %zu elements and shows %zu", (size_t)x.size(), t.size());
        std::sort(t.begin(), t.end()); if (!t.empty()) { E o = x.top(); NCHECK(Nx<E>::text(o) == t[0], "the top of a nested heap is not its first element"); }
        std::string s = "<"; for (auto &y : t) s += y + ","; return s + ">";
    }
    static size_t least(const Val &v) { size_t b = 0; for (size_t i = 1; i < v.c.size(); i++) if (vp::text(v.c[i]) < vp::text(v.c[b])) b = i; return b; }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size();
        switch (r.below(4)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); E o = make<E>(e); x.push(o); v.c.push_back(e); return true; }
        case 2: if (!n) return false; x.pop(); v.c.erase(v.c.begin() + (long)least(v)); return true;
        default: if (!n) return false; { E o = x.top(); size_t i = least(v); Val e = v.c[i]; x.pop(); v.c.erase(v.c.begin() + (long)i); Nx<E>::op(o, e, r); x.push(o); v.c.push_back(e); } return true;
        }
    }
};
template <class E, class T> struct NxTree {
    static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('h'); }
    static Val rnd(R &r) { Val v = rndseq<E>(r, 'h', depth - 1); std::set<std::string> seen; std::vector<Val> c; for (auto &e : v.c) if (seen.insert(vp::text(e)).second) c.push_back(e); v.c = c; return v; }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x.push(make<E>(e)); }
    static std::string text(const T &x) {
        std::vector<std::string> t; for (auto it = x.begin(); it != x.end(); it++) t.push_back(Nx<E>::text(*it));
        NCHECK(x.size() == t.size() && x.empty() == t.empty(), "a nested tree reports %zu elements and shows %zu", (size_t)x.size(), t.size());
        NCHECK(std::is_sorted(t.begin(), t.end()), "a nested tree is not in order");
        std::string s = "<"; for (auto &y : t) s += y + ","; return s + ">";
    }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size(); uint32_t i = n ? r.below((uint32_t)n) : 0;
        switch (r.below(5)) {
        case 0: case 1: { if (r.room <= 0) return false; Val e = Nx<E>::rnd(r); std::string t = vp::text(e); for (auto &y : v.c) if (vp::text(y) == t) return false; E o = make<E>(e); x.push(o); v.c.push_back(e); return true; }
        case 2: if (!n) return false; { E o = make<E>(v.c[i]); NCHECK(x.find(o) != x.end(), "a nested tree does not find its own element"); x.pop(o); v.c.erase(v.c.begin() + i); } return true;
        case 3: if (!n) return false; { E o = make<E>(v.c[i]); auto it = x.find(o); std::string t = vp::text(v.c[i]), nx; for (auto &y : v.c) { std::string u = vp::text(y); if (u > t && (nx.empty() || u < nx)) nx = u; } it = x.erase(it); NCHECK(nx.empty() ? it == x.end() : it != x.end() && Nx<E>::text(*it) == nx, "erase() in a nested tree did not return the next element"); v.c.erase(v.c.begin() + i); } return true;
        default: if (!n) return false; { E o = make<E>(v.c[i]); Val e = v.c[i]; x.pop(o); v.c.erase(v.c.begin() + i); Nx<E>::op(o, e, r); std::string t = vp::text(e); for (auto &y : v.c) if (vp::text(y) == t) return true; x.push(o); v.c.push_back(e); } return true;
        }
    }
};
template <class E> struct Nx<dstruct::tree::BinarySearchTree<E, ByText<E>, NA>> : NxTree<E, dstruct::tree::BinarySearchTree<E, ByText<E>, NA>> {};
template <class E> struct Nx<dstruct::AVLTree<E, ByText<E>, NA>> : NxTree<E, dstruct::AVLTree<E, ByText<E>, NA>> {};
template <class E> using NKV = dstruct::KeyValue<const int, E>;
template <class E> using NMap = dstruct::Map<int, E, dstruct::less<int>, dstruct::AVLTree<NKV<E>, dstruct::KVCMPKey<NKV<E>, dstruct::less<int>>, NA>>;
template <class E, class D> struct Nx<dstruct::Map<int, E, dstruct::less<int>, D>> {
    using T = dstruct::Map<int, E, dstruct::less<int>, D>; static const int depth = Nx<E>::depth + 1; static const bool cont = true;
    static Val empty() { return emptyOf('m'); }
    static size_t slot(Val &v, int k) { size_t i = 0; while (i < v.c.size() && v.c[i].key < k) i++; return i; }
    static void put(Val &v, int k, const Val &e) { size_t i = slot(v, k); if (i == v.c.size() || v.c[i].key != k) v.c.insert(v.c.begin() + (long)i, e); else v.c[i] = e; v.c[i].key = k; }
    static Val rnd(R &r) { Val v = empty(); int n = r.len(depth - 1); r.room--; for (int i = 0; i < n; i++) put(v, (int)r.below(12), Nx<E>::rnd(r)); return v; }
    static void fill(T &x, const Val &v) { for (auto &e : v.c) x[e.key] = make<E>(e); }
    static std::string text(const T &x) {
        std::string s = "{"; size_t n = 0;
        for (auto it = x.begin(); it != x.end(); it++) { s += std::to_string(it->key) + "=" + Nx<E>::text(it->value) + ","; n++; }
        NCHECK(x.size() == n && x.empty() == (n == 0), "a nested map reports %zu entries and shows %zu", (size_t)x.size(), n);
        return s + "}";
    }
    static bool op(T &x, Val &v, R &r) {
        size_t n = v.c.size(); uint32_t i = n ? r.below((uint32_t)n) : 0, j = n ? r.below((uint32_t)n) : 0;
        switch (r.below(11)) {
        case 0: case 1: { if (r.room <= 0) return false; int k = (int)r.below(12); Val e = Nx<E>::rnd(r); x[k] = make<E>(e); put(v, k, e); return true; }
        case 2: if (!n) return false; x.pop(v.c[i].key); v.c.erase(v.c.begin() + i); return true;
        case 3: if (!n) return false; { auto it = x.find(v.c[i].key); it = x.erase(it); NCHECK(i + 1 == n ? it == x.end() : it != x.end() && it->key == v.c[i + 1].key, "erase() in a nested map did not return the next entry"); v.c.erase(v.c.begin() + i); } return true;
        case 4: if constexpr (Nx<E>::cont) { int k = (int)r.below(12); E &e = x[k]; size_t s = slot(v, k); if (s == n || v.c[s].key != k) { NCHECK(Nx<E>::text(e) == vp::text(Nx<E>::empty()), "a default entry of a nested map is not empty"); put(v, k, Nx<E>::empty()); } s = slot(v, k); bool b = Nx<E>::op(e, v.c[s], r); v.c[s].key = k; (void)b; return true; } return false;
        case 5: if (r.one(4)) { x.clear(); v.c.clear(); return true; } return false;
        case 6: case 7: if (!n) return false; return pairopk(x[v.c[i].key], v.c[i], x[v.c[j].key], v.c[j], r);
        default: if (!n) return false; { int k = v.c[i].key; const T &cx = x; NCHECK(Nx<E>::text(cx[k]) == vp::text(v.c[i]), "reading a nested map gives %s, expected %s", Nx<E>::text(cx[k]).c_str(), vp::text(v.c[i]).c_str()); bool b = Nx<E>::op(x[k], v.c[i], r); v.c[i].key = k; return b; }
        }
    }
};
// a record that holds a container of records
template <template <class> class C> struct Rec { Trk v; C<Rec> kids; };
template <template <class> class C> struct Nx<Rec<C>> {
    using T = Rec<C>; using K = C<Rec<C>>; static const int depth = 2; static const bool cont = false;
    static Val rnd(R &r) {
        Val v; v.kind = 'r'; v.v = (int)r.below(1000); Val k = Nx<K>::empty(); r.room--;
        if (r.level < 4) { r.level++; int n = r.room > 0 ? (int)r.below(3) : 0; for (int i = 0; i < n; i++) k.c.push_back(rnd(r)); r.level--; }
        v.c.push_back(k); return v;
    }
    static void fill(T &x, const Val &v) { x.v = Trk(v.v); Nx<K>::fill(x.kids, v.c[0]); }
    static std::string text(const T &x) { return "(" + std::to_string(El<Trk>::key(x.v)) + Nx<K>::text(x.kids) + ")"; }
    static bool op(T &x, Val &v, R &r) {
        int key = v.key; bool done = true;
        switch (r.below(6)) {
        case 0: v.v = (int)r.below(1000); x.v = Trk(v.v); break;
        case 1: { if (v.c[0].c.empty()) return false; Val e = v.c[0].c[0]; T t = *x.kids.begin(); x = t; v = e; break; }      // a part replaces the whole
        case 2: { if (r.room < (long)weigh(v)) return false; T t = x; Val e = v; x.kids.push_back(t); v.c[0].c.push_back(e); break; }
        default: done = Nx<K>::op(x.kids, v.c[0], r);
        }
        v.key = key; return done;
    }
};

template <class T> struct Nest {
    static const int N = 3;
    static void run(Ctx &c) {
        reset_allocs(); g_life.reset();
        {
            T *o[N] = {}; Val m[N]; bool wide = c.hdr(3) % 12 == 5; long limit = wide ? 1200 : 240;
            auto room = [&] { long w = 0; for (auto &x : m) w += (long)weigh(x); return limit - w; };
            auto check = [&](int k) { std::string a = Nx<T>::text(*(const T *)o[k]), b = text(m[k]); if (a != b) c.fail("object #%d is %.300s, the model is %.300s", k, a.c_str(), b.c_str()); };
            for (int k = 0; k < N; k++) { R r(c.hdr(1) + (uint64_t)k * 7919, c, 30); m[k] = Nx<T>::rnd(r); o[k] = new T(make<T>(m[k])); check(k); }
            unsigned kinds = 0, done = 0; size_t peak = 0;
            for (size_t i = 0; i < c.c->ops.size(); i++) {
                Op op = c.c->ops[i]; int k = op.b % N, j = (op.b >> 8) % N; R r(mix64(op.a + ((uint64_t)op.b << 32)), c, room()); r.wide = wide; bool ok = true;
                switch (op.code) {
                case 0: ok = Nx<T>::op(*o[k], m[k], r); if (c.trace && ok) c.log("[%zu] operation %u/%u on #%d -> %s", i, op.a, op.b, k, text(m[k]).c_str()); break;
                case 1: if (r.room < (long)weigh(m[j])) { ok = false; break; } c.log("[%zu] #%d = copy of #%d %s", i, k, j, text(m[j]).c_str()); *o[k] = *(const T *)o[j]; m[k] = m[j]; break;
                case 2: if (k == j) { ok = false; break; } c.log("[%zu] #%d = new copy of #%d %s", i, k, j, text(m[j]).c_str()); delete o[k]; o[k] = new T(*(const T *)o[j]); m[k] = m[j]; break;
                case 3: if (k == j || !Nx<T>::cont) { ok = false; break; } if constexpr (Nx<T>::cont) { c.log("[%zu] #%d = move of #%d %s", i, k, j, text(m[j]).c_str()); *o[k] = static_cast<T &&>(*o[j]); m[k] = m[j]; m[j] = Nx<T>::empty(); } break;
                case 4: if (k == j) { ok = false; break; } c.log("[%zu] swap #%d #%d", i, k, j); dstruct::swap(*o[k], *o[j]); std::swap(m[k], m[j]); break;
                case 5: { c.log("[%zu] #%d = new object", i, k); delete o[k]; R q(op.a, c, 30); m[k] = Nx<T>::rnd(q); o[k] = new T(make<T>(m[k])); break; }
                default: ok = false;
                }
                if (!ok) { if (c.sh) c.sh->skippedOps++; continue; }
                done++; kinds |= 1u << op.code; c.did((uint64_t)op.code << 40 ^ op.a ^ (uint64_t)op.b << 20);
                check(k); if (op.code) { check(j); } if (done % 4 == 0) for (int q = 0; q < N; q++) check(q);
                size_t w = 0; for (auto &x : m) w += weigh(x); if (w > peak) peak = w;
            }
            for (int k = 0; k < N; k++) { check(k); }
            for (int k = 0; k < N; k++) { int q = (int)((k + c.hdr(2) % N) % N); delete o[q]; o[q] = nullptr; for (int z = 0; z < N; z++) if (o[z]) check(z); }
            if (c.sh && peak > c.sh->maxSize) c.sh->maxSize = peak;
            if (peak >= 60) c.label("60 values and more"); if (peak >= 200) c.label("200 values and more"); if (peak >= 700) c.label("700 values and more");
            if (done >= 6 && __builtin_popcount(kinds) >= 2 && peak >= 12) c.nontriv = 1;
        }
        auto &s = NA::st(); if (!s.blk.empty()) c.fail("%zu blocks (%ld bytes) were never returned to the allocator", s.blk.size(), s.bytes);
        if (!g_life.live.empty()) c.fail("%zu elements were never destroyed", g_life.live.size());
    }
    static Suite suite(const char *n, int share = 1) { Suite s; s.name = n; s.share = share; s.weights = {30, 3, 2, 2, 2, 1}; s.maxLen = 250; s.run = run; return s; }
};
} // namespace vp
