// PARTS: 4
// FUZZ: no
// SAN: -O1 -fsanitize=address
// REL: -O2
#ifdef NDEBUG
#error "this property is about builds with checks enabled"
#endif
#if VP_PART == 3
#define ENABLE_SMA
#endif
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
typedef TrackAlloc<0> TA;
// ------------------------------------------------------------------ running a call that must not return
enum { D_SEGV = 100, D_ABRT = 101, D_RETURNED = 102, D_NOTHING = 103, D_DAMAGE = 104, D_WILD = 105 };
static bool (*g_intact)() = nullptr;       // checked when the program stops
static void on_stop(int sig, siginfo_t *si, void *) {
    if (g_intact && !g_intact()) _exit(D_DAMAGE);
    if (sig == SIGABRT) _exit(D_ABRT);
    if (sig == SIGILL || sig == SIGTRAP) _exit(D_SEGV);
    _exit((uintptr_t)si->si_addr < 4096 ? D_SEGV : D_WILD);
}
template <class F> static int stops(Ctx &c, F f) {
    fflush(nullptr); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_stop; sa.sa_flags = SA_SIGINFO; for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
        c.sh = nullptr; c.trace = nullptr; arm(10); int r = f(); _exit(r);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void expect(Ctx &c, int r, const char *what) {
    switch (r) {
    case D_SEGV: case D_ABRT: c.label(r == D_ABRT ? "stopped by an assertion" : "stopped by a deliberate crash"); return;
    case D_NOTHING: return;
    case D_RETURNED: c.fail("%s: the call returns instead of stopping the program", what);
    case D_DAMAGE: c.fail("%s: memory outside the container was changed before the program stopped", what);
    case D_WILD: c.fail("%s: accesses a wild address instead of stopping at the check", what);
    default: c.fail("%s: invalid memory access or other failure instead of stopping at the check (status %d)", what, r);
    }
}
// ------------------------------------------------------------------ misuse per container
template <class Ad> struct Mis { template <class O, class M> static bool run(Env &, O &, const M &, uint32_t, uint32_t) { return false; } };
template <class T, class A> struct Mis<VectorAd<T, A>> { using O = dstruct::Vector<T, A>; static bool run(Env &e, O &o, const typename VectorAd<T, A>::Model &M, uint32_t a, uint32_t b) {
    Ctx &c = e.ctx; size_t n = M.d.size(); char w[160]; const O &co = o; static volatile int sink; bool d = false;
    if (n == 0) { int k = a % 4; const char *nm[] = {"back()", "pop_back()", "pop()", "[0]"}; snprintf(w, sizeof w, "Vector: %s on an empty vector", nm[k]); c.log("%s", w);
        expect(c, stops(c, [&] { switch (k) { case 0: sink = El<T>::key(co.back()); break; case 1: o.pop_back(); break; case 2: o.pop(); break; default: sink = *(const volatile char *)&co[0]; } return D_RETURNED; }), w); c.label("last element of an empty vector"); d = true; }
    long long idx; size_t cap = (size_t)o.capacity(); switch (a % 9) { case 0: idx = n; break; case 1: idx = n + 1; break; case 2: idx = cap; break; case 3: idx = cap ? cap - 1 : 0; break; case 4: idx = INT_MAX; break; case 5: idx = INT_MAX - (b % 100); break; case 6: idx = n + b % 1000; break; case 7: idx = n + (a >> 4) % (cap - n + 1); break; default: idx = (int)((a ^ b << 12) & 0x7fffffff); }
    if (idx < (long long)n) idx = n; if (idx > INT_MAX) idx = INT_MAX;
    bool cst = b & 1, wr = b & 2; snprintf(w, sizeof w, "Vector: %sindex %lld of %zu elements (capacity %zu)", cst ? "constant " : "", idx, n, cap); c.log("%s", w);
    expect(c, stops(c, [&] { if (cst) { const T &r = co[(int)idx]; sink = *(const volatile char *)&r; } else { T &r = o[(int)idx]; if (wr) r = El<T>::make(7); else sink = *(const volatile char *)&r; } return D_RETURNED; }), w);
    c.label(idx < (long long)cap ? "index between size and capacity" : idx == (long long)cap ? "index at the capacity" : "index beyond the capacity"); (void)d; return true; } };
template <class L> struct Mis<ListAd<L>> { using T = typename ListAd<L>::T; static bool run(Env &e, L &o, const typename ListAd<L>::Model &M, uint32_t a, uint32_t) {
    Ctx &c = e.ctx; if (M.d.size()) return false; int k = a % 4; const char *nm[] = {"back()", "pop_front()", "pop()", "removal at the back"}; char w[120]; snprintf(w, sizeof w, "list: %s on an empty list", nm[k]); c.log("%s", w); static volatile int sink; const L &co = o;
    expect(c, stops(c, [&] { switch (k) { case 0: { T x = co.back(); sink = *(const volatile char *)&x; break; } case 1: o.pop_front(); break; case 2: o.pop(); break; default: ListAd<L>::popb(o); } return D_RETURNED; }), w); c.label("last element of an empty list"); return true; } };
template <class K, class V, class KC, class A> struct Mis<MapAd<K, V, KC, A>> { using Ad = MapAd<K, V, KC, A>; using O = typename Ad::Obj; static bool run(Env &e, O &o, const typename Ad::Model &m, uint32_t a, uint32_t b) {
    Ctx &c = e.ctx; static volatile int sink; const O &co = o; char w[120];
    if (a & 1 && !m.s.empty()) { int k = Ad::nth(m, b % m.s.size()); snprintf(w, sizeof w, "Map: push of the present key %d (size %zu)", k, m.s.size()); c.log("%s", w); expect(c, stops(c, [&] { o.push(typename Ad::KV(El<K>::make(k), El<V>::make(5))); return D_RETURNED; }), w); c.label("present key inserted into a map"); return true; }
    int k = El<K>::norm(e.look(b)); for (int t = 0; m.s.count(k); t++) { if (t > 3000) return false; k = El<K>::norm((int)((unsigned)k + (t & 1 ? 1u : 7919u))); }
    snprintf(w, sizeof w, "Map: constant [] with the absent key %d (size %zu)", k, m.s.size()); c.log("%s", w); expect(c, stops(c, [&] { const V &r = co[El<K>::make(k)]; sink = *(const volatile char *)&r; return D_RETURNED; }), w); c.label("absent key read from a constant map"); return true; } };
template <class T, class C, class A, bool S, bool Or> struct Mis<TreeAd<dstruct::AVLTree<T, C, A>, S, Or>> { using Ad = TreeAd<dstruct::AVLTree<T, C, A>, S, Or>; using O = typename Ad::Obj; static bool run(Env &e, O &o, const typename Ad::Model &m, uint32_t, uint32_t b) {
    Ctx &c = e.ctx; if (m.s.empty()) return false; int k = Ad::kth(m, b % m.s.size()); char w[120]; snprintf(w, sizeof w, "AVL tree: push of the present value %d (size %zu)", k, m.s.size()); c.log("%s", w); expect(c, stops(c, [&] { o.push(El<T>::make(k)); return D_RETURNED; }), w); c.label("present value inserted into an AVL tree"); return true; } };
// ------------------------------------------------------------------ insertions (i-th of a series), false: nothing to insert
template <class Ad> struct Ins;
#define VP_ABS(set, k) for (int t = 0; set.count(k); t++) { if (t > 6000) return false; k = El<KT>::norm((int)((unsigned)k + (t & 1 ? 1u : 7919u))); }
template <class T, class A> struct Ins<VectorAd<T, A>> { template <class M> static bool run(dstruct::Vector<T, A> &o, M &m, uint32_t a, uint32_t i) { size_t n = m.d.size() + i; switch (a % 4) { case 0: o.push_back(El<T>::make(i)); break; case 1: o.push(El<T>::make(i)); break; case 2: if (n) o.push_back(o[(int)(a % n)]); else o.push_back(El<T>::make(i)); break; default: if (i == 0) o.resize(o.capacity() + 1 + (a >> 4) % 30, El<T>::make(3)); else o.push_back(El<T>::make(i)); } return true; } };
template <class L> struct Ins<ListAd<L>> { template <class M> static bool run(L &o, M &m, uint32_t a, uint32_t i) { using T = typename ListAd<L>::T; switch (a % 4) { case 0: o.push_front(El<T>::make(i)); break; case 1: o.push_back(El<T>::make(i)); break; case 2: o.push(El<T>::make(i)); break; default: if (m.d.size()) o.push_back(*o.begin()); else o.push_back(El<T>::make(i)); } return true; } };
template <class T, int B, class A> struct Ins<DequeAd<T, B, A>> { template <class M> static bool run(dstruct::DoubleEndedQueue<T, B, A> &o, M &m, uint32_t a, uint32_t i) { switch (a % 4) { case 0: o.push_front(El<T>::make(i)); break; case 1: o.push_back(El<T>::make(i)); break; case 2: o.push(El<T>::make(i)); break; default: if (m.d.size()) o.push_back(o.front()); else if (i & 1) o.push_back(El<T>::make(i)); else o.push_front(El<T>::make(i)); } return true; } };
template <class T, class C, class A> struct Ins<HeapAd<T, C, A>> { template <class M> static bool run(dstruct::Heap<T, C, A> &o, M &m, uint32_t a, uint32_t i) { if (a % 3 == 0 && m.s.size()) o.push(o.top()); else o.push(El<T>::make((int)(a + i * 7919))); return true; } };
template <class C, bool S, bool Or> struct Ins<TreeAd<C, S, Or>> { using KT = typename TreeAd<C, S, Or>::T; template <class M> static bool run(C &o, M &m, uint32_t a, uint32_t i) { int k = El<KT>::norm((int)(a % 2 ? a % 1000 : a)); k = El<KT>::norm(k + (int)i); VP_ABS(m.s, k) o.push(El<KT>::make(k)); m.s.insert(k); return true; } };
template <class K, class V, class KC, class A> struct Ins<MapAd<K, V, KC, A>> { using KT = K; template <class O, class M> static bool run(O &o, M &m, uint32_t a, uint32_t i) { using Ad = MapAd<K, V, KC, A>; int k = El<K>::norm((int)(a % 2 ? a % 1000 : a)); k = El<K>::norm(k + (int)i); VP_ABS(m.s, k) if (a & 4) o.push(typename Ad::KV(El<K>::make(k), El<V>::make(1))); else o[El<K>::make(k)] = El<V>::make(1); m.s[k] = 1; return true; } };
template <class A> struct Ins<StringAd<A>> { template <class M> static bool run(dstruct::BasicString<char, A> &o, M &m, uint32_t a, uint32_t i) { if (m.s.size() > 3000) return false; switch (a % 3) { case 0: o.push_back('x'); break; case 1: o += "some text"; break; default: if (m.s.size() && i < 3) o += o; else o.push_back('y'); } return true; } };
template <class T, class DS, bool X> struct Ins<QueueAd<T, DS, X>> { template <class O, class M> static bool run(O &o, M &m, uint32_t a, uint32_t i) { if (a % 3 == 0 && m.d.size()) o.push(o.front()); else o.push(El<T>::make(i)); return true; } };
template <class T, class DS> struct Ins<StackAd<T, DS>> { template <class O, class M> static bool run(O &o, M &m, uint32_t a, uint32_t i) { if (a % 3 == 0 && m.d.size()) o.push(o.top()); else o.push(El<T>::make(i)); return true; } };
template <class T, class S, int D> struct Ins<XStackAd<T, S, D>> { template <class O, class M> static bool run(O &o, M &m, uint32_t a, uint32_t i) { if (a % 3 == 0 && m.d.size()) o.push(o.top()); else o.push(El<T>::make((int)(a & 1 ? i : -i))); return true; } };

template <class B, bool MIS, bool FAULT> struct DeathAd : B {
    using typename B::Obj; using typename B::Model;
    static const std::vector<OpDef> &ops() { static const std::vector<OpDef> o = [] { std::vector<OpDef> v = B::ops(); int t = 0; for (auto &x : v) { t += x.w; } for (auto &x : v) if (!strcmp(x.name, "clear") || !strcmp(x.name, "drain")) x.w = t / 20 + 1; v.push_back({"misuse", MIS ? t / 6 + 1 : 0}); v.push_back({"insertion without memory", FAULT ? t / 10 + 1 : 0}); return v; }(); return o; }
    static bool apply(Env &e, Obj &o, Model &m, int code, uint32_t a, uint32_t b) {
        if (code < (int)B::ops().size()) return B::apply(e, o, m, code, a, b); Ctx &c = e.ctx;
        if (code == (int)B::ops().size()) { bool r = false; if constexpr (MIS) r = Mis<B>::run(e, o, m, a, b); if (r) c.interesting("misuse stopped"); return r; }
        if constexpr (FAULT) {
            auto &s = TA::st(); int skip = b % 4 == 3 ? 2 : b % 4 == 2 ? 1 : 0; c.log("insertion with every allocation after the next %d refused", skip);
            int r = stops(c, [&] { s.refused = 0; s.failAt = s.allocs + 1 + skip; Model x = m; for (uint32_t i = 0; i < 3000; i++) { if (!Ins<B>::run(o, x, a, i)) return (int)D_NOTHING; if (s.refused) return (int)D_RETURNED; } return (int)D_NOTHING; });
            char w[160]; snprintf(w, sizeof w, "insertion into a container of %zu elements for which the allocator supplies no memory", (size_t)B::msize(m)); expect(c, r, w);
            if (r == D_NOTHING) c.label("insertion needed no memory"); else { c.interesting("allocation refused"); c.label(B::msize(m) == 0 ? "refused on an empty container" : "refused on a filled container"); }
            return true;
        }
        return false;
    }
};
template <class Ad, bool MIS, bool FAULT> static Suite cs(const char *n, int share = 1) { return Machine<DeathAd<Ad, MIS, FAULT>>::suite(n, F_COPY | F_MOVE | F_RENEW, R_OPS, share, Hooks(), 60); }

// ------------------------------------------------------------------ exhausted static pools
static const int WN = 60; static dstruct::Vector<int> *g_w1; static int g_wseed;
static bool w_ok() { if ((int)g_w1->size() != WN) return false; for (int i = 0; i < WN; i++) if ((*g_w1)[i] != g_wseed + i * 3) return false; return true; }
template <class V> static V *witness(int seed) { V *v = new V; for (int i = 0; i < WN; i++) v->push_back(seed + i * 3); return v; }
template <class C, class PUSH, class VER> static void exhaust(Ctx &c, const char *name, size_t limit, PUSH push, VER ver, int pre) {
    int r = stops(c, [&] { C x; size_t n = 0; for (; n < limit; n++) { push(x, n); if ((n & 511) == 0 || (int)n == pre) { if (!ver(x, n + 1)) return (int)D_DAMAGE; if (g_intact && !g_intact()) return (int)D_DAMAGE; } } return (int)D_RETURNED; });
    c.log("exhaust the pool with %s (status %d)", name, r); char w[200]; snprintf(w, sizeof w, "insertion into %s with the static pool exhausted", name); expect(c, r, w); c.interesting("static pool exhausted"); c.did(mix64((uint64_t)(uintptr_t)name) + pre);
}
#if VP_PART == 2
namespace sm = dstruct::smemory;
struct SmaAlloc { static void *allocate(int n) { return dstruct::smemory::SMA::allocate(n); } static void deallocate(void *p, int n) { dstruct::smemory::SMA::deallocate(p, n); } };
static sm::Vector<int> *g_w2; static bool w2_ok() { for (int i = 0; i < WN; i++) if ((*g_w2)[i] != g_wseed + i * 3) return false; return (int)g_w2->size() == WN; }
static void pool_run(Ctx &c) {
    g_wseed = (int)(c.hdr(1) % 1000); g_w2 = witness<sm::Vector<int>>(g_wseed); g_intact = w2_ok; std::vector<sm::Vector<char> *> keep;
    for (auto &op : c.c->ops) {
        int pre = op.b % 3000; size_t L = 40000;
        switch (op.code) {
        case 0: exhaust<sm::Vector<int>>(c, "smemory::Vector<int>", L, [](auto &x, size_t i) { x.push_back((int)i); }, [](auto &x, size_t n) { return x.size() == n && x[0] == 0 && x[(int)n - 1] == (int)n - 1; }, pre); break;
        case 1: exhaust<sm::SLinkedList<int>>(c, "smemory::SLinkedList<int>", L, [](auto &x, size_t i) { x.push_back((int)i); }, [](auto &x, size_t n) { size_t k = 0; for (int v : x) if (v != (int)k++) return false; return k == n; }, pre); break;
        case 2: exhaust<sm::DLinkedList<int>>(c, "smemory::DLinkedList<int>", L, [](auto &x, size_t i) { x.push_front((int)i); }, [](auto &x, size_t n) { size_t k = n; for (int v : x) if (v != (int)--k) return false; return k == 0; }, pre); break;
        case 3: exhaust<sm::Deque<int>>(c, "smemory::Deque<int>", L, [](auto &x, size_t i) { x.push_back((int)i); }, [](auto &x, size_t n) { return x.size() == n && x.front() == 0 && x.back() == (int)n - 1; }, pre); break;
        case 4: exhaust<sm::BSTree<int>>(c, "smemory::BSTree<int>", L, [](auto &x, size_t i) { x.push((int)(i * 7919 % 40009)); }, [](auto &x, size_t n) { return x.size() == n; }, pre); break;
        case 5: exhaust<MapAd<int, int, less<int>, SmaAlloc>::Obj>(c, "Map<int,int> on the static pool", L, [](auto &x, size_t i) { x[(int)i] = (int)i; }, [](auto &x, size_t n) { size_t k = 0; for (auto &kv : x) { if (kv.key != (int)k || kv.value != (int)k) return false; k++; } return k == n; }, pre); break;
        case 6: exhaust<sm::String>(c, "smemory::String", L, [](auto &x, size_t i) { x.push_back('a' + i % 26); }, [](auto &x, size_t n) { if (x.size() != n) return false; for (size_t i = 0; i < n; i++) if (x[(int)i] != (char)('a' + i % 26)) return false; return true; }, pre); break;
        case 7: exhaust<sm::Stack<int>>(c, "smemory::Stack<int>", L, [](auto &x, size_t i) { x.push((int)i); }, [](auto &x, size_t n) { return x.size() == n && x.top() == (int)n - 1; }, pre); break;
        case 8: exhaust<sm::Queue<int>>(c, "smemory::Queue<int>", L, [](auto &x, size_t i) { x.push((int)i); }, [](auto &x, size_t n) { return x.size() == n && x.front() == 0; }, pre); break;
        case 9: exhaust<sm::PriorityQueue<int>>(c, "smemory::PriorityQueue<int>", L, [](auto &x, size_t i) { x.push((int)(i * 7919 % 40009)); }, [](auto &x, size_t n) { return x.size() == n; }, pre); break;
        case 10: { if (dstruct::smemory::SMA::max_free_mblock_size() > 5000) { auto *v = new sm::Vector<char>; for (uint32_t i = 0; i < 8 + op.a % 700; i++) v->push_back((char)i); keep.push_back(v); } break; }
        case 11: { if (!keep.empty()) { size_t i = op.a % keep.size(); delete keep[i]; keep.erase(keep.begin() + i); } break; }
        }
        VP_CHECK(c, w2_ok(), "harness: the witness changed in the parent");
    }
    g_intact = nullptr;
}
#endif
#if VP_PART == 3
static void big_pool_run(Ctx &c) {
    g_wseed = (int)(c.hdr(1) % 1000); g_w1 = witness<dstruct::Vector<int>>(g_wseed); g_intact = w_ok; size_t POOLB = 1 << 20;
    for (auto &op : c.c->ops) {
        int pre = op.b % 3000; size_t L = POOLB / 200 + 100;
        switch (op.code) {
        case 0: exhaust<dstruct::Vector<Big>>(c, "Vector<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x.push_back(Big((int)i)); }, [](auto &x, size_t n) { return x.size() == n && x[0] == Big(0) && x[(int)n - 1] == Big((int)n - 1); }, pre); break;
        case 1: exhaust<dstruct::SinglyLinkedList<Big>>(c, "SinglyLinkedList<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x.push_back(Big((int)i)); }, [](auto &x, size_t n) { int k = 0; for (auto &v : x) if (!(v == Big(k++))) return false; return k == (int)n; }, pre); break;
        case 2: exhaust<dstruct::DoublyLinkedList<Big>>(c, "DoublyLinkedList<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x.push_back(Big((int)i)); }, [](auto &x, size_t n) { int k = 0; for (auto &v : x) if (!(v == Big(k++))) return false; return k == (int)n; }, pre); break;
        case 3: exhaust<dstruct::Deque<Big>>(c, "Deque<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { if (i & 1) x.push_front(Big((int)i)); else x.push_back(Big((int)i)); }, [](auto &x, size_t n) { return x.size() == n; }, pre); break;
        case 4: exhaust<dstruct::BSTree<Big>>(c, "BSTree<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x.push(Big((int)(i * 7919 % 40009))); }, [](auto &x, size_t n) { int p = -1; size_t k = 0; for (auto &v : x) { if (v.v <= p) return false; p = v.v; k++; } return k == n; }, pre); break;
        case 5: exhaust<dstruct::AVLTree<Big, less<Big>, Alloc>>(c, "AVLTree<Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x.push(Big((int)(i * 7919 % 40009))); }, [](auto &x, size_t n) { int p = -1; size_t k = 0; for (auto &v : x) { if (v.v <= p) return false; p = v.v; k++; } return k == n; }, pre); break;
        case 6: exhaust<dstruct::Map<int, Big>>(c, "Map<int,Big> with ENABLE_SMA", L, [](auto &x, size_t i) { x[(int)i] = Big((int)i); }, [](auto &x, size_t n) { size_t k = 0; for (auto &kv : x) { if (kv.key != (int)k || !(kv.value == Big((int)k))) return false; k++; } return k == n; }, pre); break;
        }
        VP_CHECK(c, w_ok(), "harness: the witness changed in the parent");
    }
    g_intact = nullptr;
}
#endif
#if VP_PART == 2
// ------------------------------------------------------------------ requests whose size in bytes does not fit the allocator's int
// n elements of size bytes each, n * size > INT_MAX; often n * size is small modulo 2^32 (or n itself modulo 2^32)
static unsigned long long too_many(uint32_t a, uint32_t b, unsigned size) {
    unsigned long long small = 1 + b % 40, k = 1 + (b >> 8) % 9;
    switch (a % 6) {
    case 0: return (k << 32) / size + (size == 1 ? small : (b >> 16) % 3 + (size & (size - 1) ? 1 : 0));
    case 1: return (k << 32) / size + small;
    case 2: return (k << 32) + small;
    case 3: return size == 1 ? ~0ull - small : (~0ull / size) + 1 + small;                      // wraps in 64 bits as well
    case 4: return 0x80000000ull / size + small;
    default: return ((unsigned long long)(a | 1) << 32 | b) / size + 0x80000000ull;
    } }
template <class T, class A> static void toobig(Ctx &c, const char *name, uint32_t a, uint32_t b) {
    using V = dstruct::Vector<T, A>; static volatile int sink; unsigned long long n = too_many(a, b, sizeof(T)); int kind = (a >> 8) % 4, have = (a >> 12) % 20, cut = (a >> 20) % 21; char w[200];
    const char *nm[] = {"Vector(n, x)", "resize(n, x)", "resize(n) and an insertion", "insertions after a refused resize(n)"};
    snprintf(w, sizeof w, "%s of %s with n = %llu (%d elements held)", nm[kind], name, n, kind ? have : 0); c.log("%s", w);
    int r = stops(c, [&] { V v; for (int i = 0; i < have; i++) v.push_back(El<T>::make(i)); for (int i = 0; i < cut && !v.empty(); i++) v.pop_back(); T x = El<T>::make(7);
        switch (kind) {
        case 0: { V u(n, x); sink = (int)u.size(); break; }
        case 1: v.resize(n, x); break;
        case 2: v.resize(n); v.push_back(x); break;
        default: v.resize(n); for (int i = 0; i < 40; i++) v.push(x); }
        return (int)D_RETURNED; });
    expect(c, r, w); c.interesting("request of more bytes than the allocator can be asked for");
}
static void toobig_run(Ctx &c) {
    reset_allocs(); g_life.reset(); TA::st();
    for (auto &o : c.c->ops) { switch (o.code) {
        case 0: toobig<int, TA>(c, "int", o.a, o.b); break; case 1: toobig<char, TA>(c, "char", o.a, o.b); break; case 2: toobig<Wide, TA>(c, "Wide", o.a, o.b); break; case 3: toobig<Big, TA>(c, "Big", o.a, o.b); break;
        case 4: toobig<int, SmaAlloc>(c, "int on the static pool", o.a, o.b); break; case 5: toobig<Big, SmaAlloc>(c, "Big on the static pool", o.a, o.b); break; case 6: toobig<Str, dstruct::Alloc>(c, "Str", o.a, o.b); break;
        default: { int n = (int)((o.a % 3 ? 0x40000000u : 0x20000000u) + (o.a % 3 == 2 ? 0x1fffffffu : 0u) + o.b % 40); char w[120]; snprintf(w, sizeof w, "disjoint set of %d elements", n); c.log("%s", w);
            expect(c, stops(c, [&] { dstruct::DisjointSet<TA> u(n); return (int)D_RETURNED; }), w); c.interesting("request of more bytes than the allocator can be asked for"); } }
        c.did(o.code * 31 + o.a % 6); }
}
#endif
template <class T, int B> using TQ = dstruct::DoubleEndedQueue<T, B, TA>;
void define(Property &P) {
    P.id = "C27";
    P.rule = "histories in which, at random points, a forked child performs one offending call (index at or past the end of a vector, last element of an empty vector or list, absent key of a constant map, present value into an AVL tree or map) or an insertion while the allocator refuses every allocation after the next k, or asks for more bytes than an allocator's int can express, or exhausts a static pool; the child must stop by assertion or deliberate crash inside that call, with no sanitizer report, no wild access and the neighbouring data of the pool intact; non-trivial: at least one such call was made";
    P.assumptions = {"checks are enabled (NDEBUG not defined)", "an insertion that needs no memory may succeed while the allocator refuses"};
    ADD0((cs<VectorAd<int, TA>, true, true>("Vector<int>", 3))); ADD0((cs<VectorAd<Str, TA>, true, true>("Vector<Str>", 2))); ADD0((cs<VectorAd<Big, TA>, true, true>("Vector<Big>", 1))); ADD0((cs<StringAd<TA>, false, true>("String")));
    ADD0((cs<StackAd<int, dstruct::Vector<int, TA>>, false, true>("Stack<int>"))); ADD0((cs<QueueAd<int, TQ<int, 4>, true>, false, true>("Queue<int>")));
    ADD1((cs<ListAd<dstruct::SinglyLinkedList<int, TA>>, true, true>("SinglyLinkedList<int>", 2))); ADD1((cs<ListAd<dstruct::DoublyLinkedList<Str, TA>>, true, true>("DoublyLinkedList<Str>", 2))); ADD1((cs<ListAd<dstruct::DoublyLinkedList<int, TA>>, true, true>("DoublyLinkedList<int>"))); ADD1((cs<DequeAd<int, 4, TA>, false, true>("Deque<int,4>", 2))); ADD1((cs<DequeAd<Str, 1, TA>, false, true>("Deque<Str,1>")));  ADD1((cs<HeapAd<int, DirCmp<int>, TA>, false, true>("Heap<int>")));
    ADD2((cs<MapAd<int, Str, less<int>, TA>, true, true>("Map<int,Str>", 3))); ADD2((cs<MapAd<Str, int, greater<Str>, TA>, true, true>("Map<Str,int>", 2))); ADD2((cs<TreeAd<dstruct::AVLTree<int, greater<int>, TA>>, true, true>("AVL<int>", 2))); ADD2((cs<TreeAd<dstruct::AVLTree<Str, DirCmp<Str>, TA>>, true, true>("AVL<Str>", 2))); ADD2((cs<TreeAd<dstruct::tree::BinarySearchTree<int, less<int>, TA>>, false, true>("BST<int>")));
#if VP_PART == 2
    { Suite s; s.name = "sizes beyond int"; s.run = toobig_run; s.weights = {4, 2, 3, 2, 3, 2, 2, 1}; s.maxLen = 8; s.isolated = true; s.share = 1; P.suites.push_back(s); }
#endif
#if VP_PART == 2
    { Suite s; s.name = "smemory pool"; s.run = pool_run; s.weights = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 5, 3}; s.maxLen = 24; s.isolated = true; s.share = 2; P.suites.push_back(s); }
#endif
#if VP_PART == 3
    { Suite s; s.name = "ENABLE_SMA pool"; s.run = big_pool_run; s.weights = {1, 1, 1, 1, 1, 1, 1}; s.maxLen = 5; s.isolated = true; s.share = 1; P.suites.push_back(s); }
#endif
    P.quickCases = 4000; P.thoroughCases = 60000;
}
}
