// PARTS: 4
// SAN: -O1 -fsanitize=thread
// REL: -O2 -DNDEBUG
// RELX: 2
// FUZZ: no
#define VP_NO_GIANT
#include "suts.hpp"
#include <memory>
#include <thread>
namespace vp {
using dstruct::less; using dstruct::greater;
// One thread's work on one kind of container.  Nothing of the harness is shared between threads while
// they run: each has its own Ctx and Env; only the containers of phase B are, and these are only read.
struct Body {
    Ctx ctx; std::vector<Op> priv, late; int id = 0;
    virtual ~Body() {}
    virtual void work() = 0;                       // phase A: an own history on own objects
    virtual void read(Ctx &c, const std::vector<Op> &ops) = 0;   // phase B: called by every thread at the same time
    virtual void finish() = 0;                     // phase C: last check, destruction
    virtual size_t size() = 0;
};
template <class Ad> struct Readable { static const bool v = true; };
template <class A> struct Readable<UFAd<A>> { static const bool v = false; };     // find() shortens paths
template <class Ad> struct BodyOf : Body {
    using Obj = typename Ad::Obj; using Model = typename Ad::Model;
    struct Slot { void *mem = nullptr; Obj *o = nullptr; Model m; } s[2];
    std::unique_ptr<Env> e;
    static void alloc(Slot &x) { size_t al = std::max<size_t>(16, alignof(Obj)), sz = (sizeof(Obj) + al - 1) / al * al; x.mem = aligned_alloc(al, sz); memset(x.mem, 0xA5, sz); }
    static void kill(Slot &x) { if (x.o) { x.o->~Obj(); x.o = nullptr; } if (x.mem) free(x.mem); x.mem = nullptr; x.m = Model(); }
    void fresh(Slot &x, uint32_t a) { kill(x); alloc(x); x.o = Ad::construct(*e, x.mem, x.m, a); }
    void work() override {
        e.reset(new Env(ctx)); fresh(s[0], ctx.hdr(2)); fresh(s[1], ctx.hdr(2) >> 8);
        const int n = (int)Ad::ops().size(); size_t k = 0;
        for (const Op &op : priv) {
            Slot &t = s[(op.b >> 20) % 2], &u = &t == s ? s[1] : s[0]; bool ok = true;
            int code = op.code % (n + 4);
            if (code < n) ok = Ad::apply(*e, *t.o, t.m, code, op.a, op.b & 0xfffff);
            else if (code == n) fresh(t, op.a);
            else if (code == n + 1) { if constexpr (Ad::copyable) { kill(t); alloc(t); t.o = new (t.mem) Obj(*(const Obj *)u.o); t.m = u.m; } }
            else if (code == n + 2) { if constexpr (Ad::copyable) { *t.o = *(const Obj *)u.o; t.m = u.m; } }
            else if (Ad::reusable) { dstruct::swap(*t.o, *u.o); std::swap(t.m, u.m); }
            if (!ok) continue;
            ctx.did((uint64_t)op.code << 40 ^ op.a ^ (uint64_t)id << 60);
            if (Ad::msize(t.m) < 60 || k++ % 8 == 0) Ad::check(*e, *t.o, t.m, Ad::msize(t.m) < 60 ? 2 : 1);
        }
        for (auto &x : s) Ad::check(*e, *x.o, x.m, 2);
    }
    void read(Ctx &c, const std::vector<Op> &ops) override {
        Env le(c);
        for (auto &x : s) if (Readable<Ad>::v) Ad::check(le, *x.o, x.m, 2);
        if constexpr (Ad::copyable) {
            Slot y; alloc(y); y.o = new (y.mem) Obj(*(const Obj *)s[0].o); y.m = s[0].m;
            const int n = (int)Ad::ops().size(); size_t k = 0;
            for (const Op &op : ops) { int code = op.code % (n + 1);
                if (code == n) { const Slot &f = s[op.a % 2]; *y.o = *(const Obj *)f.o; y.m = f.m; } else Ad::apply(le, *y.o, y.m, code, op.a, op.b & 0xfffff);
                if (k++ % 4 == 0 && Readable<Ad>::v) Ad::check(le, *s[k % 2].o, s[k % 2].m, 1); }
            Ad::check(le, *y.o, y.m, 2); kill(y);
        } else for (size_t k = 0; k < 3; k++) if (Readable<Ad>::v) Ad::check(le, *s[k % 2].o, s[k % 2].m, 1);
    }
    void finish() override { for (auto &x : s) { Ad::check(*e, *x.o, x.m, 2); kill(x); } }
    size_t size() override { return Ad::msize(s[0].m) + Ad::msize(s[1].m); }
};
typedef std::function<Body *()> Make;
template <class Ad> static Make mkb() { return [] { return (Body *)new BodyOf<Ad>; }; }
template <class F> static void threads(int n, F f) { std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([=] { f(i); }); for (auto &x : t) x.join(); }
static void run(Ctx &c, const std::vector<Make> &kinds, bool shared, int nops) {
    int T = kinds.size() > 1 && !shared ? (int)std::min<size_t>(kinds.size(), 3) : 2 + c.hdr(1) % 2;
    g_big = 1;
    std::vector<std::unique_ptr<Body>> b; std::vector<Ctx> rc(T);
    for (int i = 0; i < T; i++) {
        b.emplace_back(kinds[((c.hdr(1) >> 4) + i * (kinds.size() > 1 ? 1 + (c.hdr(1) >> 12) % (kinds.size() > 3 && shared ? 3 : 1) : 1)) % kinds.size()]());
        b[i]->id = i; b[i]->ctx.c = rc[i].c = c.c; b[i]->ctx.fsh = rc[i].fsh = c.sh;
    }
    size_t n = c.c->ops.size(); int left = 0;
    for (size_t i = 0; i < n; i++) { Op op = c.c->ops[i]; int t = (op.b >> 24) % T; bool late = shared && i >= n - n / 3; (late ? b[t]->late : b[t]->priv).push_back(op);
        c.log("[%zu] thread %d, %s: op %d a=%u b=%u", i, t, late ? "on its own copy while all read" : "on its own objects", op.code, op.a, op.b & 0xfffff); }
    threads(T, [&](int i) { b[i]->work(); });
    size_t peak = 0; for (auto &x : b) peak = std::max(peak, x->size());
    if (shared) { c.log("all threads read all containers and copy them"); threads(T, [&](int i) { for (int k = 0; k < T; k++) b[(i + k) % T]->read(rc[i], k ? std::vector<Op>() : b[i]->late); }); c.label("readers of one container"); }
    c.log("each thread destroys its objects");
    threads(T, [&](int i) { b[i]->finish(); });
    uint64_t least = ~0ull, all = 0; for (auto &x : b) { least = std::min(least, x->ctx.eff); all += x->ctx.eff; c.effHash = mix64(c.effHash ^ x->ctx.effHash); if (c.sh) c.sh->execOps += x->ctx.eff; }
    if (T == 3) c.label("three threads"); if (peak >= 33) c.label("peak size >= 33"); if (peak >= 200) c.label("peak size >= 200");
    if (c.sh && peak > c.sh->maxSize) c.sh->maxSize = peak;
    if (least >= 3 && peak >= 3) c.nontriv = 1;
}
static Suite mt(const char *name, std::vector<Make> kinds, int nops, bool shared = true, int share = 1) {
    Suite s; s.name = name; s.share = share; s.maxLen = 300; s.weights.assign(nops, 2);
    s.run = [=](Ctx &c) { run(c, kinds, shared, nops); };
    return s;
}
template <class Ad> static Suite one(const char *name) { Suite s = mt(name, {mkb<Ad>()}, (int)Ad::ops().size() + 4); for (size_t i = 0; i < Ad::ops().size(); i++) s.weights[i] = Ad::ops()[i].w; return s; }
template <int N> using Pool = dstruct::StaticMemAllocator<(1 << 22) + 4096 * N>;
void define(Property &P) {
    P.id = "C31";
    P.rule = "a history dealt out to two or three threads: each first works on containers of its own (construction, operations, copies, swaps) while the others do; then all threads read and copy the same containers at the same time and change their own copies; each thread checks its own results against the reference model, and the race detector watches every access; non-trivial: at least three effective operations in every thread and at least three elements held";
    P.assumptions = {"one static pool, and one container that somebody changes, belongs to one thread at a time", "looking up in a disjoint set is a change (it shortens paths)", "allocation succeeds"};
    using dstruct::Alloc; using dstruct::tree::BinarySearchTree; using dstruct::AVLTree; using dstruct::SinglyLinkedList; using dstruct::DoublyLinkedList; using dstruct::DoubleEndedQueue;
    ADD0((one<VectorAd<int, Alloc>>("Vector<int>")));
    ADD0((one<MapAd<int, Str, less<int>, Alloc>>("Map<int,Str>")));
    ADD0((one<ListAd<SinglyLinkedList<Str, Alloc>>>("SinglyLinkedList<Str>")));
    ADD0((one<DequeAd<int, 4, Alloc>>("Deque<int,4>")));
    ADD1((one<VectorAd<Str, Alloc>>("Vector<Str>")));
    ADD1((one<ListAd<DoublyLinkedList<int, Alloc>>>("DoublyLinkedList<int>")));
    ADD1((one<TreeAd<AVLTree<int, less<int>, Alloc>, true, true>>("AVL<int>")));
    ADD1((one<QueueAd<int, DoubleEndedQueue<int, 32>, true>>("Queue<int>")));
    ADD2((one<HeapAd<int, less<int>, Alloc>>("Heap<int>")));
    ADD2((one<StringAd<Alloc>>("String")));
    ADD2((one<TreeAd<BinarySearchTree<Str, less<Str>, Alloc>, false, true>>("BST<Str>")));
    ADD2((one<StackAd<Str, dstruct::Vector<Str>>>("Stack<Str>")));
    ADD2((one<UFAd<Alloc>>("DisjointSet")));
    ADD3((one<XStackAd<int, dstruct::MinStack<int>, 1>>("MinStack<int>")));
    ADD3((one<ArrayAd<Str, 5>>("Array<Str,5>")));
    ADD3((one<DequeAd<Str, 32, Alloc>>("Deque<Str,32>")));
    ADD3((one<HeapAd<Str, greater<Str>, Alloc>>("Heap<Str,greater>")));
    ADD3((mt("a static pool per thread", {mkb<VectorAd<int, Pool<1>>>(), mkb<ListAd<DoublyLinkedList<int, Pool<2>>>>(), mkb<TreeAd<AVLTree<int, less<int>, Pool<3>>, true>>(), mkb<DequeAd<int, 4, Pool<4>>>(), mkb<ListAd<SinglyLinkedList<Str, Pool<5>>>>(), mkb<HeapAd<int, less<int>, Pool<6>>>()}, 24, false, 2)));
    ADD0((mt("different kinds", {mkb<VectorAd<int, Alloc>>(), mkb<MapAd<int, Str, less<int>, Alloc>>(), mkb<ListAd<SinglyLinkedList<Str, Alloc>>>(), mkb<DequeAd<int, 4, Alloc>>()}, 24, true, 2)));
    ADD1((mt("different kinds 2", {mkb<VectorAd<Str, Alloc>>(), mkb<ListAd<DoublyLinkedList<int, Alloc>>>(), mkb<TreeAd<AVLTree<int, less<int>, Alloc>, true, true>>(), mkb<QueueAd<int, DoubleEndedQueue<int, 32>, true>>()}, 24, true, 2)));
    P.quickCases = 60000; P.thoroughCases = 600000;
}
}
