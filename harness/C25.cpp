// PARTS: 4
#include "suts.hpp"
#include <limits>
namespace vp {
using dstruct::less; using dstruct::greater; namespace al = dstruct::algorithm;
// ------------------------------------------------------------------ ranges
template <class It, class T, bool FIND = true, class KeyF> static void range_ops(Ctx &c, const char *what, It b, It e, const std::vector<int> &m, const Op &op, KeyF key) {
    size_t n = m.size(); std::vector<It> pos; { It x = b; for (size_t i = 0; i <= n; i++) { pos.push_back(x); if (i < n) ++x; } VP_CHECK(c, pos[n] == e, "%s: end not reached", what); }
    size_t i = n ? op.a % (n + 1) : 0, j = n ? op.b % (n + 1) : 0; if (op.a % 4 == 0) { i = 0; j = n; } if (i > j) std::swap(i, j);
    std::vector<int> seen; size_t k = i; al::for_each(pos[i], pos[j], [&](const auto &x) { seen.push_back(key(x)); if (k >= j) c.fail("%s: for_each calls the function more than %zu times", what, j - i); if ((const void *)&x != (const void *)&*pos[k]) c.fail("%s: for_each hands out something else than element %zu", what, k); k++; });
    VP_CHECK(c, seen.size() == j - i && std::equal(seen.begin(), seen.end(), m.begin() + i), "%s: for_each over [%zu,%zu) of %zu does not see each element once in order (%zu calls)", what, i, j, n, seen.size());
    if constexpr (FIND) {
        int want = (op.a >> 8) % 3 && n ? m[(op.b >> 8) % n] : (int)(op.b % 7) - 3; want = El<T>::norm(want);
        size_t first = i; while (first < j && m[first] != want) first++;
        It f = al::find(pos[i], pos[j], El<T>::make(want));
        VP_CHECK(c, f == pos[first], "%s: find(%d) in [%zu,%zu) does not return %s", what, want, i, j, first == j ? "the end of the range" : "the first position holding the value");
        if (first < j) { c.label("value found"); for (size_t x = first + 1; x < j; x++) if (m[x] == want) { c.label("several occurrences"); break; } } else { c.label("value absent from the range"); for (size_t x = 0; x < n; x++) if ((x < i || x >= j) && m[x] == want) { c.label("value present outside the range only"); break; } }
    }
}
struct Vals { Ctx &c; std::vector<int> m; explicit Vals(Ctx &cc) : c(cc) {} };
template <class T> static int val(Ctx &c, uint32_t a) { switch (c.hdr(0) % 3) { case 0: return El<T>::norm((int)(a % 4)); case 1: return El<T>::norm((int)(a % 30) - 15); default: return El<T>::norm((int)a); } }
template <class C, class T, bool FRONT> static void seq_run(Ctx &c) {
    C x; std::deque<int> m; size_t calls = 0;
    for (auto &op : c.c->ops) {
        if (op.code == 0 && m.size() < 300) { int v = val<T>(c, op.a); if (FRONT && op.b & 1) { if constexpr (FRONT) x.push_front(El<T>::make(v)); m.push_front(v); } else { x.push_back(El<T>::make(v)); m.push_back(v); } continue; }
        if (op.code == 2) { x.clear(); m.clear(); continue; }
        std::vector<int> v(m.begin(), m.end()); const C &cx = x; auto key = [](const T &t) { return El<T>::key(t); };
        c.log("algorithms over %zu elements a=%u b=%u", v.size(), op.a, op.b);
        if (op.code == 3) { range_ops<decltype(x.begin()), T>(c, "range", x.begin(), x.end(), v, op, key); }
        else range_ops<decltype(cx.begin()), T>(c, "const range", cx.begin(), cx.end(), v, op, key);
        calls++; c.did(op.a * 31 + op.b);
    }
    if (calls >= 3 && m.size() >= 2) c.nontriv = 1;
}
template <class C, class T> static void vec_run(Ctx &c) {          // random-access: distance, writes through for_each
    C x; std::vector<int> m; size_t calls = 0;
    for (auto &op : c.c->ops) {
        size_t n = m.size();
        switch (op.code) {
        case 0: if (n < 300) { int v = val<T>(c, op.a); x.push_back(El<T>::make(v)); m.push_back(v); } break;
        case 1: { size_t i = n ? op.a % (n + 1) : 0, j = n ? op.b % (n + 1) : 0; auto p = x.begin() + (int)i, q = x.begin() + (int)j; const C &cx = x; auto cp = cx.begin() + (int)i, cq = cx.begin() + (int)j; long long d = (long long)j - (long long)i;
            VP_CHECK(c, dstruct::distance(p, q) == d && dstruct::distance(cp, cq) == d && q - p == d, "distance(%zu,%zu) is %lld, expected %lld", i, j, (long long)dstruct::distance(p, q), d); calls++; c.did(op.a * 31 + op.b); if (d < 0) c.label("negative distance"); break; }
        case 2: x.clear(); m.clear(); break;
        case 3: { auto key = [](const T &t) { return El<T>::key(t); }; range_ops<decltype(x.begin()), T>(c, "Vector", x.begin(), x.end(), m, op, key); const C &cx = x; range_ops<decltype(cx.begin()), T>(c, "const Vector", cx.begin(), cx.end(), m, op, key); calls++; c.did(op.a * 31 + op.b); break; }
        case 4: { if (!n) break; size_t i = op.a % n; int add = 1 + op.b % 5; al::for_each(x.begin() + (int)i, x.end(), [&](T &t) { t = El<T>::make(El<T>::norm(El<T>::key(t) / 2 + add)); }); for (size_t k = i; k < n; k++) m[k] = El<T>::norm(m[k] / 2 + add); for (size_t k = 0; k < n; k++) VP_CHECK(c, El<T>::key(x[(int)k]) == m[k], "for_each with a writing function leaves element %zu wrong", k); calls++; c.did(op.a); c.label("writing function"); break; }
        case 5: { if (n < 2) break; size_t i = op.a % n, j = op.b % n; if (i == j) break; dstruct::swap(x[(int)i], x[(int)j]); std::swap(m[i], m[j]); for (size_t k = 0; k < n; k++) VP_CHECK(c, El<T>::key(x[(int)k]) == m[k], "swap leaves element %zu wrong", k); calls++; c.did(op.a * 31 + op.b); c.label("swap of elements"); break; }
        }
    }
    if (calls >= 3 && m.size() >= 2) c.nontriv = 1;
}
template <class C, class T> static void tree_run(Ctx &c) {
    C x; std::set<int> m; size_t calls = 0;
    for (auto &op : c.c->ops) {
        if (op.code == 0) { int v = val<T>(c, op.a); if (m.size() < 200 && m.insert(v).second) x.push(El<T>::make(v)); continue; }
        if (op.code == 2) { int v = val<T>(c, op.a); if (m.erase(v)) x.pop(El<T>::make(v)); continue; }
        std::vector<int> v(m.begin(), m.end()); range_ops<decltype(x.begin()), T>(c, "tree", x.begin(), x.end(), v, op, [](const T &t) { return El<T>::key(t); }); calls++; c.did(op.a * 31 + op.b); c.log("algorithms over a tree of %zu", v.size());
    }
    if (calls >= 2 && m.size() >= 2) c.nontriv = 1;
}
static void map_run(Ctx &c) {
    dstruct::Map<int, int> x; std::map<int, int> m; size_t calls = 0;
    for (auto &op : c.c->ops) {
        if (op.code == 0) { int v = val<int>(c, op.a); if (m.size() < 200) { m[v] = (int)op.b; x[v] = (int)op.b; } continue; }
        if (op.code == 2) { int v = val<int>(c, op.a); if (m.erase(v)) x.pop(v); continue; }
        std::vector<int> ks; for (auto &p : m) ks.push_back(p.first); range_ops<decltype(x.begin()), int, false>(c, "map", x.begin(), x.end(), ks, op, [](const auto &kv) { return kv.key; });
        std::vector<int> vs, got; for (auto &p : m) vs.push_back(p.second); al::for_each(x.begin(), x.end(), [&](const auto &kv) { got.push_back(kv.value); }); VP_CHECK(c, got == vs, "for_each over a map does not see every value in key order"); calls++; c.did(op.a * 31 + op.b);
    }
    if (calls >= 2 && m.size() >= 2) c.nontriv = 1;
}
template <int N> static void array_run(Ctx &c) {
    dstruct::Array<int, N> x(0); std::vector<int> m(N, 0); size_t calls = 0;
    for (auto &op : c.c->ops) {
        if (op.code == 0) { if constexpr (N > 0) { int v = val<int>(c, op.a); x[(int)(op.b % N)] = v; m[op.b % N] = v; } continue; }
        range_ops<decltype(x.begin()), int>(c, "Array", x.begin(), x.end(), m, op, [](const int &t) { return t; }); calls++; c.did(op.a * 31 + op.b);
        size_t i = op.a % (N + 1), j = op.b % (N + 1); VP_CHECK(c, dstruct::distance(x.begin() + (int)i, x.begin() + (int)j) == (long long)j - (long long)i, "distance within an array is wrong");
    }
    if (calls >= 3) c.nontriv = 1;
}
// ranges longer than 16-bit positions: callbacks, first occurrence and distances near and beyond 32767 and 65535
template <class C, bool RANDOM> static void large_run(Ctx &c) {
    C x; size_t n = 32000 + c.hdr(2) % 44000; std::vector<int> m(n); uint32_t md = c.hdr(0) % 3 ? 1000003 : 5; for (size_t i = 0; i < n; i++) { m[i] = (int)(mix64(i * 31 + c.hdr(1)) % md); x.push_back(m[i]); }
    size_t k = 0; for (auto &op : c.c->ops) { if (k++ >= 6) break;
        static const size_t near[] = {0, 1, 255, 256, 32766, 32767, 32768, 65535, 65536, 65537}; size_t i = op.a & 1 ? near[(op.a >> 1) % 10] : (op.a >> 1) % (n + 1), j = op.b & 1 ? n : near[(op.b >> 1) % 10] ; i = std::min(i, n); j = std::min(j, n); if (i > j) std::swap(i, j);
        auto stepTo = [&](size_t q) { auto it = x.begin(); if constexpr (RANDOM) { auto r = it + (int)q; return r; } else { for (size_t s = 0; s < q; s++) ++it; return it; } };
        auto p = stepTo(i), q = stepTo(j); size_t s = i; c.log("large range [%zu,%zu) of %zu", i, j, n);
        al::for_each(p, q, [&](const int &v) { if (s >= j || v != m[s]) c.fail("for_each over [%zu,%zu) of %zu goes wrong at %zu", i, j, n, s); s++; }); VP_CHECK(c, s == j, "for_each over [%zu,%zu) of %zu stops at %zu", i, j, n, s);
        int want = (op.a >> 8) % 4 == 0 ? -1 : m[(op.b >> 8) % n]; size_t first = i; while (first < j && m[first] != want) first++;
        auto f = al::find(p, q, want); VP_CHECK(c, f == stepTo(first), "find in [%zu,%zu) of %zu does not return position %zu", i, j, n, first);
        if constexpr (RANDOM) VP_CHECK(c, dstruct::distance(p, q) == (long long)(j - i) && dstruct::distance(q, p) == -(long long)(j - i), "distance(%zu,%zu) is %lld", i, j, (long long)dstruct::distance(p, q));
        c.did(op.a * 31 + op.b); if (j - i > 32767) c.label("range longer than 32767"); if (j - i > 65535) c.label("range longer than 65535"); }
    if (k >= 2) c.nontriv = 1;
}
// ------------------------------------------------------------------ values
template <class T> static T conv(uint32_t a, uint32_t b, uint32_t how) {
    static const long long ext[] = {0, 1, -1, 2, -2, 127, -128, 255, 32767, -32768, 65535, 2147483647LL, -2147483647LL, 2147483648LL, 4294967295LL, 9223372036854775807LL, -9223372036854775807LL, 1000000007LL};
    switch (how % 4) { case 0: return (T)ext[a % 18]; case 1: return (T)((long long)(a % 7) - 3); case 2: return (T)(int)a; default: return (T)(long long)(((uint64_t)a << 32) | b); }
}
template <class T, bool SIGNED = ((T)-1 < (T)0)> static void num(Ctx &c, const Op &op, const char *name) {
    T a = conv<T>(op.a, op.b, c.hdr(1)), b = conv<T>(op.b, op.a, c.hdr(1) >> 8), d = conv<T>(op.a ^ op.b, op.b * 7, c.hdr(1) >> 16); if (op.a % 5 == 0) b = a; if (a != a || b != b || d != d) return;
    less<T> L; greater<T> G; auto chk = [&](T x, T y) { VP_CHECK(c, L(x, y) == (x < y), "less<%s> disagrees with <", name); VP_CHECK(c, G(x, y) == (x > y), "greater<%s> disagrees with >", name); VP_CHECK(c, L(x, y) == G(y, x) && !(L(x, y) && L(y, x)) && !L(x, x) && !G(x, x), "less/greater<%s> is not a strict order", name); if (!(L(x, y)) && !L(y, x)) VP_CHECK(c, x == y, "less<%s> ties distinct values", name); };
    for (T x : {a, b, d}) for (T y : {a, b, d}) chk(x, y);
    if (L(a, b) && L(b, d)) VP_CHECK(c, L(a, d), "less<%s> is not transitive", name);
    T mx = dstruct::max(a, b); VP_CHECK(c, mx == (a < b ? b : a) && !(mx < a) && !(mx < b), "max<%s> is wrong", name);
    VP_CHECK(c, dstruct::max(b, a) == mx, "max<%s> depends on the order of its arguments", name);
    if constexpr (SIGNED) { if (!(std::numeric_limits<T>::is_integer && a == std::numeric_limits<T>::min())) { T w = a < 0 ? (T)-a : a; VP_CHECK(c, dstruct::abs(a) == w && dstruct::abs((T)-a) == w && !(dstruct::abs(a) < 0), "abs<%s> is wrong", name); } } else VP_CHECK(c, dstruct::abs(a) == a, "abs<%s> is wrong", name);
    T x = a, y = b; dstruct::swap(x, y); VP_CHECK(c, x == b && y == a, "swap<%s> does not exchange", name); dstruct::swap(x, x); VP_CHECK(c, x == b, "swapping a value with itself changes it");
    T z = a; T &&r = dstruct::move(z); VP_CHECK(c, &r == &z && r == a, "move does not denote its argument");
}
template <class T> static void ptrs(Ctx &c, const Op &op, const char *name) {
    static T arr[64]; auto pk = [&](uint32_t a) -> T * { return a % 4 == 0 ? nullptr : &arr[a / 4 % 64]; };
    T *p[3] = {pk(op.a), pk(op.b), pk(op.a ^ op.b >> 3)}; less<T *> L; greater<T *> G; less<const T *> CL; greater<const T *> CG;
    for (T *x : p) for (T *y : p) { bool w = x == nullptr ? y != nullptr : y != nullptr && x < y; VP_CHECK(c, L(x, y) == w && CL(x, y) == w, "less<%s*>(%s,%s) is %d", name, x ? "p" : "null", y ? "q" : "null", (int)L(x, y)); VP_CHECK(c, G(x, y) == L(y, x) && CG(x, y) == L(y, x), "greater<%s*>(%s,%s) is %d", name, x ? "p" : "null", y ? "q" : "null", (int)G(x, y)); VP_CHECK(c, !(L(x, y) && L(y, x)) && (x == y || L(x, y) || L(y, x)), "less<%s*> is not a strict total order", name); if (!x || !y) c.label("null pointer compared"); }
    if (L(p[0], p[1]) && L(p[1], p[2])) VP_CHECK(c, L(p[0], p[2]), "less<%s*> is not transitive", name);
    T *x = p[0], *y = p[1]; dstruct::swap(x, y); VP_CHECK(c, x == p[1] && y == p[0], "swap of pointers does not exchange");
}
template <class T> static void obj(Ctx &c, const Op &op, const char *name) {
    int ka = El<T>::norm(val<T>(c, op.a)), kb = El<T>::norm(val<T>(c, op.b)); T a = El<T>::make(ka), b = El<T>::make(kb); less<T> L; greater<T> G;
    VP_CHECK(c, L(a, b) == (a < b) && G(a, b) == (a > b) && !L(a, a) && !G(a, a), "less/greater<%s> wrong", name); T m = dstruct::max(a, b); VP_CHECK(c, El<T>::key(m) == El<T>::key(a < b ? b : a), "max<%s> wrong", name);
    VP_CHECK(c, El<T>::key(a) == ka && El<T>::key(b) == kb, "comparing %s changes the operands", name); dstruct::swap(a, b); VP_CHECK(c, El<T>::key(a) == kb && El<T>::key(b) == ka, "swap<%s> does not exchange", name);
}
static void values_run(Ctx &c) {
    for (auto &op : c.c->ops) { switch (op.code) {
        case 0: num<int>(c, op, "int"); break; case 1: num<long long>(c, op, "long long"); break; case 2: num<char>(c, op, "char"); break; case 3: num<short>(c, op, "short"); break; case 4: num<unsigned>(c, op, "unsigned"); break; case 5: num<unsigned long long>(c, op, "unsigned long long"); break; case 6: num<unsigned char>(c, op, "unsigned char"); break; case 7: num<double>(c, op, "double"); break; case 8: num<float>(c, op, "float"); break; case 9: num<long>(c, op, "long"); break; case 10: num<signed char>(c, op, "signed char"); break;
        case 11: ptrs<int>(c, op, "int"); break; case 12: ptrs<char>(c, op, "char"); break; case 13: ptrs<Big>(c, op, "Big"); break; case 14: ptrs<double>(c, op, "double"); break;
        case 15: obj<Str>(c, op, "Str"); break; case 16: obj<Wide>(c, op, "Wide"); break; case 17: obj<Big>(c, op, "Big"); break; case 18: { double a = conv<double>(op.a, op.b, c.hdr(1)) + 0.5, w = a < 0 ? -a : a; VP_CHECK(c, dstruct::abs(a) == w && dstruct::abs(-a) == w, "abs<double> is wrong"); VP_CHECK(c, dstruct::max(a, a - 0.25) == a && dstruct::max(a - 0.25, a) == a, "max<double> is wrong"); break; } }
        c.log("helpers, type %d, a=%u b=%u", op.code, op.a, op.b); c.did(op.code * 1000003u + op.a * 31 + op.b); }
    if (c.c->ops.size() >= 6) c.nontriv = 1;
}
template <void (*F)(Ctx &)> static void thin(Ctx &c) { if (c.hdr(3) % 64 == 21) F(c); }
static Suite mkS(const char *n, void (*f)(Ctx &), std::vector<int> w, int share = 1, int len = 80) { Suite s; s.name = n; s.run = f; s.weights = w; s.share = share; s.maxLen = len; return s; }
static const std::vector<int> SW = {12, 4, 1, 4}, VW = {14, 3, 1, 4, 1, 2};
void define(Property &P) {
    P.id = "C25";
    P.rule = "for_each and find over whole ranges and random sub-ranges of every container with iterators against the element list (callback order and addresses, first occurrence, end when absent), distance of random position pairs, and the order and value helpers on boundary and random values of 11 arithmetic, 4 pointer and 3 class types against the built-in operators; non-trivial: at least 2-3 checked calls on a container of at least 2 elements, or at least 6 helper evaluations";
    P.assumptions = {"NaN and values whose negation overflows are outside the domain of the helpers", "pointer orders are checked within one array and null"};
    ADD0((mkS("Vector<int>", vec_run<dstruct::Vector<int>, int>, VW, 2))); ADD0((mkS("Vector<Str>", vec_run<dstruct::Vector<Str>, Str>, VW))); ADD0(mkS("values", values_run, std::vector<int>(19, 1), 5, 200)); ADD0((mkS("Array<int,7>", array_run<7>, {10, 5}))); ADD0((mkS("Array<int,1>", array_run<1>, {3, 5})));
    ADD1((mkS("SinglyLinkedList<int>", seq_run<dstruct::SinglyLinkedList<int>, int, true>, SW))); ADD1((mkS("DoublyLinkedList<Str>", seq_run<dstruct::DoublyLinkedList<Str>, Str, true>, SW))); ADD1((mkS("Deque<int,4>", seq_run<dstruct::DoubleEndedQueue<int, 4>, int, true>, {12, 4, 1, 0}, 2))); ADD1((mkS("String", seq_run<dstruct::String, char, false>, SW)));
    ADD2((mkS("BST<int>", tree_run<dstruct::BSTree<int>, int>, {12, 5, 2}))); ADD2((mkS("AVL<Str>", tree_run<dstruct::AVLTree<Str, less<Str>, Alloc>, Str>, {12, 5, 2}))); ADD2(mkS("Map<int,int>", map_run, {12, 5, 2}));
    // 1 in 64 of their cases run (they are long)
    ADD3((mkS("Vector<int> large", thin<large_run<dstruct::Vector<int>, true>>, {1}))); ADD3((mkS("DoublyLinkedList<int> large", thin<large_run<dstruct::DoublyLinkedList<int>, false>>, {1}))); ADD3((mkS("SinglyLinkedList<int> large", thin<large_run<dstruct::SinglyLinkedList<int>, false>>, {1})));
    P.quickCases = 16000; P.thoroughCases = 600000;
}
}
