// Element types the containers are exercised with.  El<T> turns a logical int
// into a T and back; norm() is the logical value that survives the round trip.
#pragma once
#include "engine.hpp"
#include <climits>
#include <unordered_set>
#include <unordered_map>

namespace vp {

template <class T> struct El;

template <> struct El<int> {
    static const char *name() { return "int"; }
    static int norm(int v) { return v; }
    static int make(int v) { return v; }
    static int key(const int &t) { return t; }
};
template <> struct El<char> {
    static const char *name() { return "char"; }
    static int norm(int v) { return (signed char)v; }
    static char make(int v) { return (char)(signed char)v; }
    static int key(const char &t) { return (signed char)t; }
};
template <> struct El<double> {
    static const char *name() { return "double"; }
    static int norm(int v) { return v; }
    static double make(int v) { return v + 0.25; }
    static int key(const double &t) {
        double f = t - 0.25; if (!(f >= INT_MIN && f <= INT_MAX) || (double)(int)f != f) gfail("element value was corrupted");
        return (int)f; }
};

// 16-byte aligned element
struct alignas(16) Wide { long long a; int v; };
inline bool operator<(const Wide &x, const Wide &y) { return x.v < y.v; }
inline bool operator>(const Wide &x, const Wide &y) { return x.v > y.v; }
inline bool operator>=(const Wide &x, const Wide &y) { return x.v >= y.v; }
inline bool operator==(const Wide &x, const Wide &y) { return x.v == y.v && x.a == y.a; }
template <> struct El<Wide> {
    static const char *name() { return "Wide"; }
    static int norm(int v) { return v; }
    static Wide make(int v) { Wide w; w.v = v; w.a = ~(long long)v; return w; }
    static int key(const Wide &t) { if (t.a != ~(long long)t.v) gfail("element bytes were corrupted"); return t.v; }
};

// string-backed element: owns heap memory for some values, small buffer for others
struct Str {
    std::string s;
    Str() {}
    explicit Str(int v) { char b[16]; snprintf(b, sizeof b, "%08x", (unsigned)v ^ 0x80000000u); s = b; s.append((unsigned)v % 37u, 'x'); }
};
inline bool operator<(const Str &a, const Str &b) { return a.s < b.s; }
inline bool operator>(const Str &a, const Str &b) { return a.s > b.s; }
inline bool operator>=(const Str &a, const Str &b) { return a.s >= b.s; }
inline bool operator==(const Str &a, const Str &b) { return a.s == b.s; }
template <> struct El<Str> {
    static const char *name() { return "Str"; }
    static int norm(int v) { return v; }
    static Str make(int v) { return Str(v); }
    static int key(const Str &t) {
        if (t.s.size() < 8) gfail("element holds no value (default-constructed or moved-from)");
        int v = (int)((unsigned)strtoul(t.s.substr(0, 8).c_str(), nullptr, 16) ^ 0x80000000u);
        if (t.s.size() != 8 + (unsigned)v % 37u) gfail("element value was corrupted");
        return v;
    }
};

// > 128 byte payload (bigger than the static allocator's quick blocks)
struct Big {
    int v; int pad[50];
    Big() : v(0) { for (int &p : pad) p = 0; }
    explicit Big(int x) : v(x) { for (int i = 0; i < 50; i++) pad[i] = (int)((unsigned)x * 31u + i); }
};
inline bool operator<(const Big &a, const Big &b) { return a.v < b.v; }
inline bool operator>(const Big &a, const Big &b) { return a.v > b.v; }
inline bool operator>=(const Big &a, const Big &b) { return a.v >= b.v; }
inline bool operator==(const Big &a, const Big &b) { return a.v == b.v; }
template <> struct El<Big> {
    static const char *name() { return "Big"; }
    static int norm(int v) { return v; }
    static Big make(int v) { return Big(v); }
    static int key(const Big &t) { for (int i = 0; i < 50; i++) if (t.pad[i] != (int)((unsigned)t.v * 31u + i)) gfail("element bytes were corrupted"); return t.v; }
};

// ordered by key only; payload distinguishes equal keys
struct KP { int k, p; };
inline bool operator<(const KP &a, const KP &b) { return a.k < b.k; }
inline bool operator>(const KP &a, const KP &b) { return a.k > b.k; }
inline bool operator>=(const KP &a, const KP &b) { return a.k >= b.k; }
inline bool operator==(const KP &a, const KP &b) { return a.k == b.k && a.p == b.p; }

// ---------------------------------------------------------------- lifetimes
struct Life {
    std::unordered_set<const void *> live;
    uint64_t ctor = 0, copies = 0, moves = 0, assigns = 0, dtor = 0;
    long tempLive = 0;                 // harness-owned instances
    void reset() { live.clear(); ctor = copies = moves = assigns = dtor = 0; tempLive = 0; }
    void add(const void *p) { if (!live.insert(p).second) gfail("an element was constructed over an element that is still alive", p); ctor++; }
    void del(const void *p) { if (!live.erase(p)) gfail("an element was destroyed that is not alive (never constructed, or destroyed twice)", p); dtor++; }
    void need(const void *p, const char *what) { if (!live.count(p)) gfail(what, p); }
};
static Life g_life;

struct Trk {
    int v; int *own; Trk *self;
    static int mk() { return 0; }
    Trk() : v(0), own(new int(0)), self(this) { g_life.add(this); }
    explicit Trk(int x) : v(x), own(new int(x)), self(this) { g_life.add(this); }
    Trk(const Trk &o) : v(0), own(nullptr), self(this) { o.ok("copy-constructed from an object that is not alive"); v = o.v; own = new int(*o.own); g_life.add(this); g_life.copies++; }
    Trk(Trk &&o) : v(0), own(nullptr), self(this) { o.ok("move-constructed from an object that is not alive"); v = o.v; own = new int(*o.own); o.hollow(); g_life.add(this); g_life.moves++; }
    Trk &operator=(const Trk &o) { ok("assignment to an object that is not alive"); o.ok("assignment from an object that is not alive"); v = o.v; *own = *o.own; g_life.assigns++; return *this; }
    Trk &operator=(Trk &&o) { ok("assignment to an object that is not alive"); o.ok("assignment from an object that is not alive");
        if (this != &o) { v = o.v; *own = *o.own; o.hollow(); } g_life.assigns++; return *this; }
    ~Trk() { ok("destructor of an object that is not alive"); g_life.del(this); delete own; own = nullptr; self = nullptr; v = 0x5a5a5a5a; }
    void hollow() { v = 0x0badbad0; *own = v; }
    void ok(const char *w) const { g_life.need(this, w); if (self != this) gfail("an element was relocated byte-wise", this); if (*own != v) gfail("element value was corrupted", this); }
};
inline bool operator<(const Trk &a, const Trk &b) { a.ok("comparison of an object that is not alive"); b.ok("comparison of an object that is not alive"); return a.v < b.v; }
inline bool operator>(const Trk &a, const Trk &b) { return b < a; }
inline bool operator>=(const Trk &a, const Trk &b) { return !(a < b); }
inline bool operator==(const Trk &a, const Trk &b) { a.ok("comparison of an object that is not alive"); b.ok("comparison of an object that is not alive"); return a.v == b.v; }
template <> struct El<Trk> {
    static const char *name() { return "Trk"; }
    static int norm(int v) { return v; }
    static Trk make(int v) { return Trk(v); }
    static int key(const Trk &t) { t.ok("the container exposes an object that is not alive"); return t.v; }
};

// the same in other sizes: more than any quick block or cache line, and a single byte
struct TrkB : Trk {
    int pad[60];
    TrkB() { set(); } explicit TrkB(int x) : Trk(x) { set(); }
    TrkB(const TrkB &o) : Trk(o) { o.okb(); set(); } TrkB(TrkB &&o) : Trk(static_cast<Trk &&>(o)) { set(); o.set(); }
    TrkB &operator=(const TrkB &o) { okb(); o.okb(); Trk::operator=(o); set(); return *this; }
    TrkB &operator=(TrkB &&o) { okb(); o.okb(); Trk::operator=(static_cast<Trk &&>(o)); set(); o.set(); return *this; }
    void set() { for (int i = 0; i < 60; i++) pad[i] = v * 7 + i; }
    void okb() const { ok("use of an object that is not alive"); for (int i = 0; i < 60; i++) if (pad[i] != v * 7 + i) gfail("part of an element was changed", this, i); }
};
template <> struct El<TrkB> {
    static const char *name() { return "TrkB"; }
    static int norm(int v) { return v % 1000000; }
    static TrkB make(int v) { return TrkB(v); }
    static int key(const TrkB &t) { t.ok("the container exposes an object that is not alive"); t.okb(); return t.v; }
};
struct Trk1 {
    unsigned char v;
    Trk1() : v(0) { g_life.add(this); }
    explicit Trk1(int x) : v((unsigned char)x) { g_life.add(this); }
    Trk1(const Trk1 &o) : v(0) { o.ok("copy-constructed from an object that is not alive"); v = o.v; g_life.add(this); }
    Trk1 &operator=(const Trk1 &o) { ok("assignment to an object that is not alive"); o.ok("assignment from an object that is not alive"); v = o.v; return *this; }
    ~Trk1() { ok("destructor of an object that is not alive"); g_life.del(this); v = 0xEE; }
    void ok(const char *w) const { g_life.need(this, w); }
};
inline bool operator<(const Trk1 &a, const Trk1 &b) { a.ok("comparison of an object that is not alive"); b.ok("comparison of an object that is not alive"); return a.v < b.v; }
inline bool operator>(const Trk1 &a, const Trk1 &b) { return b < a; }
inline bool operator>=(const Trk1 &a, const Trk1 &b) { return !(a < b); }
inline bool operator==(const Trk1 &a, const Trk1 &b) { a.ok("comparison of an object that is not alive"); b.ok("comparison of an object that is not alive"); return a.v == b.v; }
template <> struct El<Trk1> {
    static const char *name() { return "Trk1"; }
    static int norm(int v) { return v & 0xff; }
    static Trk1 make(int v) { return Trk1(v); }
    static int key(const Trk1 &t) { t.ok("the container exposes an object that is not alive"); return t.v; }
};

// ---------------------------------------------------------------- order
static uint64_t g_cmps = 0;
template <class T> struct DirCmp {     // stateful comparator: direction chosen at run time
    int dir; uint32_t magic;
    explicit DirCmp(int d = 1) : dir(d), magic(0xC0FFEE) {}
    DirCmp(const DirCmp &) = default; DirCmp &operator=(const DirCmp &) = default;
    DirCmp(DirCmp &&o) : dir(o.dir), magic(o.magic) { o.magic = 0xBADBAD; } // like std::function: empty once moved from
    DirCmp &operator=(DirCmp &&o) { dir = o.dir; magic = o.magic; if (this != &o) o.magic = 0xBADBAD; return *this; }
    bool operator()(const T &a, const T &b) const {
        if (magic == 0xBADBAD) gfail("an order that was moved from is in use", this);
        if (magic != 0xC0FFEE) gfail("a comparator object that was never initialised is in use", this);
        g_cmps++; return dir > 0 ? a < b : b < a; }
};
template <class T> struct CntCmp {
    bool operator()(const T &a, const T &b) const { g_cmps++; return a < b; }
};

// ---------------------------------------------------------------- values
struct Env {
    Ctx &ctx; uint32_t d; int asc = 0;
    explicit Env(Ctx &c) : ctx(c), d(c.hdr(0) % 8) {}
    int raw(uint32_t a) {
        static const int ext[] = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 2, -2, 127, 128, -128, -129, 255, 256, 65535};
        switch (d) {
        case 0: return (int)(a % 5);
        case 1: return (int)(a % 24) - 12;
        case 2: return (int)(a % 64);
        case 3: return (int)(a % 1000);
        case 4: return a % 3 == 0 ? ext[(a / 3) % 16] : (int)a;
        case 5: return asc++;
        case 6: return -(asc++);
        default: { int k = asc++; return (k & 1) ? k : -k; }
        }
    }
    // value used for look-ups/removals: never advances the counters
    int look(uint32_t a) { if (d < 5) return raw(a); if (asc == 0) return 0; int k = (int)(a % (uint32_t)asc); return d == 5 ? k : d == 6 ? -k : (k & 1) ? k : -k; }
};
template <class T> static T mk(Env &e, uint32_t a, int &key) { int v = El<T>::norm(e.raw(a)); key = v; return El<T>::make(v); }

} // namespace vp
