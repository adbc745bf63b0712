// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
typedef TrackAlloc<0> TA;
static const unsigned F = F_COPY | F_MOVE | F_SELF | F_RENEW;
// every block goes back, sizes match, nothing is held for empty containers beyond a per-object allowance
static Hooks hooks() {
    Hooks h = track_hooks<0>();
    h.begin = [](Ctx &) { MallocWatch::out().clear(); MallocWatch::cnt() = 0; };
    h.after = [](Ctx &c, size_t tot, size_t) {
        if (tot == 0 && TA::st().blk.size() > 3 * 4 + 3) c.fail("%zu blocks are held by three containers without elements", TA::st().blk.size());
    };
    return h;
}
// A fixed pool that itself never uses the heap: whatever heap request is seen while a
// container operation runs was made by the container behind its allocator's back.
struct PoolAlloc {
    static const int CLS = 20;
    static char *&base() { static char *b = nullptr; return b; }
    static size_t &top() { static size_t t = 0; return t; }
    static void **fl() { static void *f[CLS]; return f; }
    static long &live() { static long n = 0; return n; }
    static int cls(int n) { int c = 5; while ((1 << c) < n) c++; return c - 5; }
    static void reset() { if (!base()) base() = (char *)mmap(nullptr, 64u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); top() = 0; live() = 0; for (int i = 0; i < CLS; i++) fl()[i] = nullptr; }
    static void *allocate(int n) { if (n <= 0) gfail("allocation of a non-positive number of bytes requested", nullptr, n); live()++; int c = cls(n); if (fl()[c]) { void *p = fl()[c]; fl()[c] = *(void **)p; return p; } size_t z = (size_t)1 << (c + 5); if (top() + z > (64u << 20)) gfail("harness pool exhausted"); void *p = base() + top(); top() += z; return p; }
    static void deallocate(void *p, int n) { if ((char *)p < base() || (char *)p >= base() + top()) gfail("foreign memory returned to the allocator", p, n); live()--; int c = cls(n); *(void **)p = fl()[c]; fl()[c] = p; }
};
template <class Obj> struct DirectOps { const char *name; void (*f)(Obj &, uint32_t); };
template <class Obj> static void direct_run(Ctx &c, const std::vector<DirectOps<Obj>> &ops) {
    PoolAlloc::reset(); bool multi = false;
    alignas(32) static char mem[2][sizeof(Obj)]; Obj *o[2] = {nullptr, nullptr}; size_t n = ops.size(); uint64_t seen = 0;
    auto watched = [&](const char *what, auto &&f) { uint64_t b = MallocWatch::cnt(); { Watch w; f(); } if (MallocWatch::cnt() != b) c.fail("%s requests memory directly from the heap instead of its allocator", what); };
    MallocWatch::out().clear(); MallocWatch::cnt() = 0;
    watched("construction", [&] { o[0] = new (mem[0]) Obj(); });
    for (auto &p : c.c->ops) {
        int k = (p.b >> 20) & 1; Obj *&x = o[k], *&y = o[1 - k];
        if (p.code < n) { if (!x) continue; c.log("%s %u", ops[p.code].name, p.a); watched(ops[p.code].name, [&] { ops[p.code].f(*x, p.a); }); seen++; }
        else switch (p.code - n) {
        case 0: if (!x) { if (!y) continue; c.log("copy construction"); multi = true; watched("copy construction", [&] { x = new (mem[k]) Obj(*(const Obj *)y); }); } else if (y) { c.log("copy assignment"); multi = true; watched("copy assignment", [&] { *x = *(const Obj *)y; }); } break;
        case 1: if (!x) { if (!y) continue; c.log("move construction"); watched("move construction", [&] { x = new (mem[k]) Obj(static_cast<Obj &&>(*y)); }); } else if (y) { c.log("move assignment"); watched("move assignment", [&] { *x = static_cast<Obj &&>(*y); }); } break;
        case 2: if (!x) continue; c.log("destruction"); watched("destruction", [&] { x->~Obj(); }); x = nullptr; if (!y) { watched("construction", [&] { x = new (mem[k]) Obj(); }); } break;
        }
        c.did(p.code * 31 + p.a);
    }
    for (auto &x : o) if (x) watched("destruction", [&] { x->~Obj(); });
    if (PoolAlloc::live()) c.fail("%ld blocks were never returned to the allocator", PoolAlloc::live());
    if (seen >= 6 && multi) c.interesting("direct heap use watched over six or more operations and a copy");
}
template <class Obj> static Suite direct(const char *name, std::vector<DirectOps<Obj>> ops) {
    Suite s; s.name = name; s.maxLen = 150; s.run = [=](Ctx &c) { direct_run<Obj>(c, ops); };
    for (size_t i = 0; i < ops.size(); i++) s.weights.push_back(6); s.weights.push_back(3); s.weights.push_back(1); s.weights.push_back(1); return s;
}
typedef PoolAlloc PA;
#define DOP(C, n, ...) DirectOps<C>{n, [](C &x, uint32_t a) { __VA_ARGS__; }}
typedef dstruct::Vector<int, PA> DV; typedef dstruct::SinglyLinkedList<int, PA> DSL; typedef dstruct::DoublyLinkedList<int, PA> DDL; typedef dstruct::DoubleEndedQueue<int, 4, PA> DDQ;
typedef dstruct::Heap<int, less<int>, PA> DH; typedef dstruct::tree::BinarySearchTree<int, less<int>, PA> DB; typedef dstruct::AVLTree<int, less<int>, PA> DA; typedef MapAd<int, int, less<int>, PA>::Obj DM; typedef dstruct::BasicString<char, PA> DS;
template <class Ad> static Suite cs(const char *n, int share = 1, unsigned f = F) { return Machine<Ad>::suite(n, f, R_LIFE, share, hooks(), 300); }
void define(Property &P) {
    P.id = "C19";
    P.rule = "the container histories of the other properties on an allocator that records every block, checks that each comes back exactly once with the size requested, scrambles memory on both sides, and demands that nothing is held at the end; a second group of suites counts direct heap requests made while a container operation runs; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"allocation succeeds", "a container without elements may keep up to four blocks"};
    ADD0(cs<VectorAd<int, TA>>("Vector<int>", 2));
    ADD1(cs<VectorAd<Big, TA>>("Vector<Big>"));
    ADD2(cs<ListAd<dstruct::SinglyLinkedList<int, TA>>>("SinglyLinkedList<int>"));
    ADD3(cs<ListAd<dstruct::DoublyLinkedList<Wide, TA>>>("DoublyLinkedList<Wide>"));
    ADD0((cs<DequeAd<int, 4, TA>>("Deque<int,4>", 2)));
    ADD1((cs<DequeAd<Str, 1, TA>>("Deque<Str,1>")));
    ADD2((cs<DequeAd<int, 32, TA>>("Deque<int,32>")));
    ADD3((cs<HeapAd<int, DirCmp<int>, TA>>("Heap<int>")));
    ADD0((cs<TreeAd<dstruct::tree::BinarySearchTree<int, less<int>, TA>>>("BST<int>", 2)));
    ADD1((cs<TreeAd<dstruct::AVLTree<int, greater<int>, TA>>>("AVL<int>", 2)));
    ADD2((cs<MapAd<int, Str, less<int>, TA>>("Map<int,Str>", 2)));
    ADD3(cs<UFAd<TA>>("DisjointSet"));
    ADD3(cs<StringAd<TA>>("String", 2));
    ADD0(direct<DV>("direct Vector", {DOP(DV, "push_back", x.push_back(a)), DOP(DV, "pop_back", if (!x.empty()) x.pop_back()), DOP(DV, "resize", x.resize(a % 100)), DOP(DV, "resize(n,x)", x.resize(a % 100, 7)), DOP(DV, "clear", if (a % 8 == 0) x.clear()), DOP(DV, "bulk push", for (uint32_t i = 0; i < a % 200; i++) x.push_back(i))}));
    ADD1(direct<DSL>("direct SinglyLinkedList", {DOP(DSL, "push_back", x.push_back(a)), DOP(DSL, "push_front", x.push_front(a)), DOP(DSL, "pop_front", if (!x.empty()) x.pop_front()), DOP(DSL, "clear", if (a % 8 == 0) x.clear())}));
    ADD1(direct<DDL>("direct DoublyLinkedList", {DOP(DDL, "push_back", x.push_back(a)), DOP(DDL, "push_front", x.push_front(a)), DOP(DDL, "pop_back", if (!x.empty()) x.pop_back()), DOP(DDL, "pop_front", if (!x.empty()) x.pop_front()), DOP(DDL, "clear", if (a % 8 == 0) x.clear())}));
    ADD2(direct<DDQ>("direct Deque", {DOP(DDQ, "push_back", x.push_back(a)), DOP(DDQ, "push_front", x.push_front(a)), DOP(DDQ, "pop_back", if (!x.empty()) x.pop_back()), DOP(DDQ, "pop_front", if (!x.empty()) x.pop_front()), DOP(DDQ, "bulk", for (uint32_t i = 0; i < a % 200; i++) if (a & 256) x.push_front(i); else x.push_back(i)), DOP(DDQ, "clear", if (a % 8 == 0) x.clear())}));
    ADD2(direct<DH>("direct Heap", {DOP(DH, "push", x.push(a)), DOP(DH, "pop", if (!x.empty()) x.pop()), DOP(DH, "bulk", for (uint32_t i = 0; i < a % 100; i++) x.push(i * a))}));
    ADD3(direct<DB>("direct BST", {DOP(DB, "push", x.push(a % 500)), DOP(DB, "pop", x.pop(a % 500)), DOP(DB, "erase(begin)", if (!x.empty()) x.erase(x.begin())), DOP(DB, "clear", if (a % 8 == 0) x.clear()), DOP(DB, "traversal", int s = 0; x.traversal([&](int v) { s += v; })), DOP(DB, "iteration", int s = 0; for (auto it = x.begin(); it != x.end(); it++) s += *it)}));
    ADD3(direct<DA>("direct AVL", {DOP(DA, "push", if (x.find(a % 500) == x.end()) x.push(a % 500)), DOP(DA, "pop", x.pop(a % 500)), DOP(DA, "erase(begin)", if (!x.empty()) x.erase(x.begin())), DOP(DA, "clear", if (a % 8 == 0) x.clear()), DOP(DA, "iteration", int s = 0; for (auto it = x.begin(); it != x.end(); it++) s += *it)}));
    ADD0(direct<DM>("direct Map", {DOP(DM, "[]", x[a % 500] = a), DOP(DM, "pop", x.pop(a % 500)), DOP(DM, "clear", if (a % 8 == 0) x.clear()), DOP(DM, "find", (void)x.find(a % 500))}));
    ADD2(direct<DS>("direct String", {DOP(DS, "push_back", x.push_back('a' + a % 26)), DOP(DS, "+=", x += "some text"), DOP(DS, "=", x = "short"), DOP(DS, "= +", DS y = x + "t"; x = y), DOP(DS, "clear", if (a % 4 == 0) x.clear()), DOP(DS, "+= itself", if (x.size() < 3000) x += x)}));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
