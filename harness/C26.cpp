// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, int B> using DQ = dstruct::DoubleEndedQueue<T, B>;
static const unsigned F = F_COPY | F_MOVE | F_SELF | F_RENEW | F_WATCHALL;
// what a container offers, detected so one probe serves them all
#define VP_HAS(NAME, EXPR) template <class X, class = void> struct has_##NAME : std::false_type {}; template <class X> struct has_##NAME<X, std::void_t<decltype(EXPR)>> : std::true_type {}
VP_HAS(begin, std::declval<X &>().begin()); VP_HAS(cbegin, std::declval<const X &>().begin()); VP_HAS(clear, std::declval<X &>().clear()); VP_HAS(cstr, std::declval<const X &>().c_str()); VP_HAS(trav, std::declval<typename X::TraversalType>()); VP_HAS(cap, std::declval<const X &>().capacity()); VP_HAS(height, std::declval<const X &>().height()); VP_HAS(size, std::declval<const X &>().size());
template <class Ad> struct KeyOf { using type = void; };
template <class C, bool S, bool O> struct KeyOf<TreeAd<C, S, O>> { using type = typename TreeAd<C, S, O>::T; };
template <class K, class V, class KC, class A> struct KeyOf<MapAd<K, V, KC, A>> { using type = K; };
// other constructions that yield an empty container
template <class Ad, class = void> struct Fresh { static typename Ad::Obj *make(Env &e, void *p, typename Ad::Model &m, uint32_t a) { return Ad::construct(e, p, m, a); } };
template <class L> struct Fresh<ListAd<L>> { static L *make(Env &e, void *p, typename ListAd<L>::Model &m, uint32_t a) { if (a & 1) { m = {}; e.ctx.label("List(0,x)"); return new (p) L((dstruct::size_t)0, El<typename ListAd<L>::T>::make(3)); } return ListAd<L>::construct(e, p, m, a); } };
template <class T, class A> struct Fresh<HeapAd<T, less<T>, A>> { using Ad = HeapAd<T, less<T>, A>; static typename Ad::Obj *make(Env &e, void *p, typename Ad::Model &m, uint32_t a) { if (a & 1) { m = {}; dstruct::Vector<T, A> v; if (a & 2) { v.push_back(El<T>::make(1)); v.pop_back(); } e.ctx.label("Heap(empty range)"); return new (p) typename Ad::Obj(v.begin(), v.end()); } return Ad::construct(e, p, m, a); } };
template <class T, class C, class A, bool S, bool O> struct Fresh<TreeAd<dstruct::tree::BinarySearchTree<T, C, A>, S, O>> { using Ad = TreeAd<dstruct::tree::BinarySearchTree<T, C, A>, S, O>; static typename Ad::Obj *make(Env &e, void *p, typename Ad::Model &m, uint32_t a) { if (a & 2) { m = {}; C c = Ad::CD::make(a); m.dir = Ad::CD::dir(c); dstruct::Vector<T> v; e.ctx.label("BST(empty range)"); return new (p) typename Ad::Obj(v.begin(), v.end(), c); } return Ad::construct(e, p, m, a); } };
template <class A> struct Fresh<StringAd<A>> { using Ad = StringAd<A>; static typename Ad::Obj *make(Env &e, void *p, typename Ad::Model &m, uint32_t a) { if (a & 1) { m = {}; e.ctx.label("String(\"\")"); return new (p) typename Ad::Obj(""); } return Ad::construct(e, p, m, a); } };

template <class B> struct EmptyAd : B {
    using typename B::Obj; using typename B::Model;
    static const std::vector<OpDef> &ops() {
        static const std::vector<OpDef> o = [] { std::vector<OpDef> v = B::ops(); int t = 0; for (auto &x : v) t += x.w; int u = std::max(1, t / 20);
            for (auto &x : v) { if (!strcmp(x.name, "clear") || !strcmp(x.name, "drain")) x.w = u * 2; if (!strncmp(x.name, "bulk", 4)) x.w = 1; }
            v.push_back({"probe while empty", u * 4}); return v; }();
        return o; }
    static Obj *construct(Env &e, void *p, Model &m, uint32_t a) { return Fresh<B>::make(e, p, m, a); }
    template <class It, class F> static void none(Ctx &c, It b, It e, F what) { VP_CHECK(c, b == e && !(b != e), "%s: begin() is not end() although the container is empty", what); size_t k = 0; for (; b != e; ++b) if (++k) break; VP_CHECK(c, k == 0, "%s: iteration of an empty container visits something", what); }
    static void look(Env &e, Obj &o) {
        Ctx &c = e.ctx; const Obj &co = o;
        VP_CHECK(c, co.empty(), "empty() is false on an empty container"); if constexpr (has_size<Obj>::value) VP_CHECK(c, co.size() == 0, "size() is not 0 on an empty container");
        if constexpr (has_begin<Obj>::value) { none(c, o.begin(), o.end(), "iteration"); for (auto &x : o) { (void)x; c.fail("range-for over an empty container visits something"); } }
        if constexpr (has_cbegin<Obj>::value) { none(c, co.begin(), co.end(), "const iteration"); for (auto &x : co) { (void)x; c.fail("range-for over an empty constant container visits something"); } }
        if constexpr (has_trav<Obj>::value) { using TR = typename Obj::TraversalType; for (TR t : {TR::PreOrder, TR::InOrder, TR::PostOrder}) { none(c, co.begin(t), co.end(t), "tree iteration"); co.traversal([&](auto &) { c.fail("traversal of an empty tree visits something"); }, t); } }
        if constexpr (has_height<Obj>::value) VP_CHECK(c, co.height() == 0, "height() of an empty tree is not 0");
        if constexpr (has_cstr<Obj>::value) { VP_CHECK(c, co.c_str() && co.c_str()[0] == 0, "c_str() of an empty string is not empty"); Obj x; VP_CHECK(c, co == x && x == co && !(co != x) && co == "" && "" == co && !(co == "a") && (co + co).size() == 0 && (co + "").size() == 0 && ("" + co).size() == 0 && (co + "a") == "a" && ("a" + co) == "a", "an empty string does not compare or concatenate as empty"); }
    }
    static bool apply(Env &e, Obj &o, Model &m, int code, uint32_t a, uint32_t b) {
        if (code < (int)B::ops().size()) return B::apply(e, o, m, code, a, b);
        if (B::msize(m)) return false;
        using K = typename KeyOf<B>::type; look(e, o);
        switch (a % 6) {
        case 0: if constexpr (has_clear<Obj>::value) { o.clear(); look(e, o); if (b & 1) o.clear(); e.ctx.label("clear of an empty container"); } break;
        case 1: if constexpr (!std::is_void<K>::value) { for (int q : {0, 1, -1, (int)(b % 50), (int)(b * 2654435761u)}) { auto k = El<K>::make(El<K>::norm(q)); VP_CHECK(e.ctx, o.find(k) == o.end(), "find(%d) finds something in an empty container", q); o.pop(k); look(e, o); } e.ctx.label("lookup and removal in an empty container"); } break;
        case 2: if constexpr (B::copyable) { alignas(Obj) unsigned char mem[sizeof(Obj)]; memset(mem, b % 2 ? 0xFF : 0x00, sizeof mem); Obj *x = new (mem) Obj((const Obj &)o); look(e, *x); look(e, o); *x = (const Obj &)o; look(e, *x); o = (const Obj &)*x; look(e, o); x->~Obj(); look(e, o); e.ctx.label("copies of an empty container"); } break;
        case 3: { alignas(Obj) unsigned char mem[sizeof(Obj)]; memset(mem, b % 2 ? 0xFF : 0x00, sizeof mem); Obj *x = new (mem) Obj(static_cast<Obj &&>(o)); look(e, *x); look(e, o); o = static_cast<Obj &&>(*x); look(e, *x); look(e, o); if (b & 2) { *x = static_cast<Obj &&>(o); look(e, o); look(e, *x); o = static_cast<Obj &&>(*x); } x->~Obj(); look(e, o); e.ctx.label("moves of an empty container"); } break;
        case 4: { Model m2; alignas(Obj) unsigned char mem[sizeof(Obj)]; memset(mem, b % 2 ? 0xFF : 0x00, sizeof mem); Obj *x = Fresh<B>::make(e, mem, m2, b >> 2); if (B::msize(m2) == 0) { look(e, *x); dstruct::swap(o, *x); look(e, o); look(e, *x); if constexpr (false) {} dstruct::swap(o, *x); } x->~Obj(); look(e, o); e.ctx.label("swap of empty containers"); } break;
        default: look(e, o);
        }
        return true;
    }
    static void check(Env &e, Obj &o, const Model &m, int lvl) { B::check(e, o, m, lvl); if (B::msize(m) == 0) look(e, o); }
};
template <class Ad> static Suite cs(const char *n, int share = 1) { return Machine<EmptyAd<Ad>>::suite(n, F, R_EMPTY, share, Hooks(), 160); }

// no container of size 0 beyond these two: fixed arrays of no elements, strings' and sets' degenerate sizes
static void zero_run(Ctx &c) {
    for (auto &op : c.c->ops) {
        alignas(16) unsigned char mem[512]; memset(mem, op.a % 2 ? 0xFF : op.a % 3 ? 0xA5 : 0, sizeof mem);
        switch (op.code) {
        case 0: { using O = dstruct::Array<int, 0>; static_assert(sizeof(O) <= sizeof mem, ""); O *o = new (mem) O(5); const O &k = *o; VP_CHECK(c, k.size() == 0 && k.empty() && k.begin() == k.end() && o->begin() == o->end(), "Array<int,0> is not empty"); O p(k); VP_CHECK(c, p.empty(), "copy of Array<int,0> is not empty"); for (auto &x : p) { (void)x; c.fail("Array<int,0> iterates"); } o->~O(); break; }
        case 1: { using O = dstruct::Array<Str, 0>; O *o = new (mem) O(El<Str>::make(5)); VP_CHECK(c, o->size() == 0 && o->empty() && o->begin() == o->end(), "Array<Str,0> is not empty"); o->~O(); break; }
        case 2: { using O = dstruct::Vector<Str>; O *o = new (mem) O; if (op.b & 1) o->resize(0); if (op.b & 2) o->resize(0, El<Str>::make(3)); VP_CHECK(c, o->empty() && o->size() == 0 && o->begin() == o->end(), "resize(0) of an empty vector"); if (op.b & 4) { o->resize(1 + op.a % 40, El<Str>::make(1)); o->resize(0); VP_CHECK(c, o->empty() && o->begin() == o->end(), "resize(0) leaves elements"); } int n = 1 + op.b % 60; for (int i = 0; i < n; i++) o->push_back(El<Str>::make(i)); for (int i = 0; i < n; i++) VP_CHECK(c, El<Str>::key((*o)[i]) == El<Str>::norm(i), "refilled vector is wrong at %d", i); o->~O(); break; }
        case 3: { using O = dstruct::DisjointSet<Alloc>; O *o = new (mem) O(1); VP_CHECK(c, o->size() == 1 && o->count() == 1 && o->find(0) == 0 && o->connected(0, 0), "a set of one element is wrong"); o->connect(0, 0); VP_CHECK(c, o->count() == 1, "connecting the only element with itself changes count()"); o->~O(); break; }
        }
        c.did(op.code * 977 + op.a * 31 + op.b);
    }
    if (c.c->ops.size() >= 4) c.nontriv = 1;
}
void define(Property &P) {
    P.id = "C26";
    P.rule = "histories in which containers keep becoming empty (fresh construction in storage pre-filled with four byte patterns, empty ranges, clear, drain, move-from, copy and swap of empty objects), are probed while empty (size, iteration, traversal, lookup, removal of absent values, repeated clear, copy, move, swap, destruction) and refilled, every step compared with the model; non-trivial: an operation on an object that was empty after earlier operations";
    P.assumptions = {"element types are copyable and movable", "allocation succeeds"};
    ADD0(cs<VectorAd<int, Alloc>>("Vector<int>")); ADD1(cs<VectorAd<Str, LifoAlloc>>("Vector<Str,LIFO>"));
    ADD2(cs<ListAd<dstruct::SinglyLinkedList<Str, Alloc>>>("SinglyLinkedList<Str>")); ADD3(cs<ListAd<dstruct::DoublyLinkedList<Str, Alloc>>>("DoublyLinkedList<Str>"));
    ADD0(cs<ListAd<dstruct::DoublyLinkedList<int, LifoAlloc>>>("DoublyLinkedList<int,LIFO>")); ADD1(cs<ListAd<dstruct::SinglyLinkedList<int, LifoAlloc>>>("SinglyLinkedList<int,LIFO>"));
    ADD2((cs<DequeAd<int, 4, Alloc>>("Deque<int,4>"))); ADD3((cs<DequeAd<Str, 32, LifoAlloc>>("Deque<Str,32,LIFO>"))); ADD0((cs<DequeAd<Str, 1, Alloc>>("Deque<Str,1>")));
    ADD1((cs<QueueAd<Str, DQ<Str, 32>, true>>("Queue<Str>"))); ADD2((cs<QueueAd<int, dstruct::DoublyLinkedList<int>, false>>("Queue<int,dlist>"))); ADD3((cs<StackAd<Str, dstruct::Vector<Str>>>("Stack<Str>"))); ADD0((cs<StackAd<int, dstruct::DoublyLinkedList<int>>>("Stack<int,dlist>")));
    ADD1((cs<XStackAd<Str, dstruct::MinStack<Str>, 1>>("MinStack<Str>"))); ADD2((cs<HeapAd<Str, less<Str>, Alloc>>("Heap<Str>"))); ADD3((cs<HeapAd<int, DirCmp<int>, LifoAlloc>>("Heap<int,stateful,LIFO>")));
    ADD0((cs<TreeAd<dstruct::tree::BinarySearchTree<Str, DirCmp<Str>, Alloc>>>("BST<Str,stateful>"))); ADD1((cs<TreeAd<dstruct::tree::BinarySearchTree<int, less<int>, LifoAlloc>>>("BST<int,LIFO>")));
    ADD2((cs<TreeAd<dstruct::AVLTree<Str, DirCmp<Str>, Alloc>, true>>("AVL<Str,stateful>"))); ADD3((cs<TreeAd<dstruct::AVLTree<int, less<int>, LifoAlloc>, true>>("AVL<int,LIFO>")));
    ADD0((cs<MapAd<int, Str, less<int>, Alloc>>("Map<int,Str>"))); ADD1((cs<MapAd<Str, int, greater<Str>, LifoAlloc>>("Map<Str,int,LIFO>")));
    ADD2(cs<StringAd<Alloc>>("String")); ADD3(cs<StringAd<LifoAlloc>>("String<LIFO>"));
    { Suite s; s.name = "degenerate sizes"; s.run = zero_run; s.weights = {1, 1, 3, 1}; s.maxLen = 40; ADD2(s); }
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
