// PARTS: 2
#include "suts.hpp"
namespace vp {
// strings of other character types: values beyond a byte, element identity, every operation that can lose bits
template <class CT> static void wide_run(Ctx &c) {
    typedef dstruct::BasicString<CT, Alloc> S; std::vector<CT> m[2]; S s[2]; const char *lit[] = {"", "a", "xyz", "0123456789abcdef", "the quick brown fox jumps over the lazy dog"};
    auto val = [&](uint32_t a) { switch (c.hdr(0) % 4) { case 0: return (CT)('a' + a % 2); case 1: return (CT)(a % 5 * 256 + 97); case 2: return (CT)(a * 2654435761u); default: return (CT)(a % 3 ? 0xE4 + (a & 1) * 0x100 : 0); } };
    auto chk = [&](const S &x, const std::vector<CT> &v, const char *what) { VP_CHECK(c, x.size() == v.size() && x.empty() == v.empty(), "%s: size() is %llu, expected %zu", what, (unsigned long long)x.size(), v.size()); for (size_t i = 0; i < v.size(); i++) VP_CHECK(c, x[(int)i] == v[i] && x.c_str()[i] == v[i], "%s: element %zu is wrong", what, i); VP_CHECK(c, x.c_str()[v.size()] == CT(), "%s: not terminated", what); size_t i = 0; for (auto &e : x) { VP_CHECK(c, i < v.size() && e == v[i], "%s: iteration wrong at %zu", what, i); i++; } VP_CHECK(c, i == v.size(), "%s: iteration stops early", what); if (i) VP_CHECK(c, x.front() == v[0] && x.back() == v[i - 1], "%s: front or back wrong", what); };
    auto app = [](std::vector<CT> &v, const char *l) { for (; *l; l++) v.push_back((CT)*l); };
    size_t peak = 0, ops = 0;
    for (auto &op : c.c->ops) { int k = op.b >> 9 & 1; S &x = s[k]; auto &v = m[k]; const char *l = lit[op.b % 5]; if (v.size() > 3000) { x.clear(); v.clear(); }
        switch (op.code) {
        case 0: x.push_back(val(op.a)); v.push_back(val(op.a)); break;
        case 1: if (!v.empty()) { x[(int)(op.b % v.size())] = val(op.a); v[op.b % v.size()] = val(op.a); } break;
        case 2: x += s[!k]; v.insert(v.end(), m[!k].begin(), m[!k].end()); break;
        case 3: { x += x; auto w = v; v.insert(v.end(), w.begin(), w.end()); break; }
        case 4: x += l; app(v, l); break;
        case 5: x = l; v.clear(); app(v, l); break;
        case 6: x.clear(); v.clear(); break;
        case 7: { auto w = v; w.insert(w.end(), m[!k].begin(), m[!k].end()); chk(x + s[!k], w, "s + t"); w = v; app(w, l); chk(x + l, w, "s + literal"); w.clear(); app(w, l); w.insert(w.end(), v.begin(), v.end()); chk(l + x, w, "literal + s"); break; }
        case 8: { S y(x); chk(y, v, "copy"); VP_CHECK(c, y == x && !(y != x), "a copy compares different"); if (!v.empty()) { size_t i = op.a % v.size(); y[(int)i] = (CT)(v[i] ^ (CT)(op.b & 1 ? 1 : CT(1) << (sizeof(CT) * 8 - 2))); VP_CHECK(c, !(y == x) && y != x && !(x == y) && x != y, "strings that differ in element %zu compare equal", i); chk(x, v, "source of a copy"); c.label("strings that differ in one element"); } break; }
        case 9: { std::vector<CT> w; app(w, l); bool q = w == v; VP_CHECK(c, (x == l) == q && (l == x) == q && (x != l) == !q && (l != x) == !q, "comparison with a literal is wrong"); q = m[0] == m[1]; VP_CHECK(c, (s[0] == s[1]) == q && (s[0] != s[1]) == !q, "comparison is wrong"); break; }
        case 10: { S y(static_cast<S &&>(x)); chk(y, v, "moved-to string"); v.clear(); chk(x, v, "moved-from string"); s[!k] = static_cast<S &&>(y); m[!k] = std::vector<CT>(); for (size_t i = 0; i < s[!k].size(); i++) m[!k].push_back(s[!k][(int)i]); break; }
        case 11: { auto it = x.begin(); if (!v.empty()) { size_t i = op.b % v.size(); it = it + (int)i; *it = val(op.a); v[i] = val(op.a); } break; }
        }
        for (int i = 0; i < 2; i++) chk(s[i], m[i], "string"); ops++; peak = std::max(peak, v.size()); c.did(op.code * 1000003u + op.a * 31 + op.b); c.log("op %d on #%d, size %zu", op.code, k, v.size()); }
    if (ops >= 6 && peak >= 3) c.nontriv = 1;
}
template <class CT> static Suite wide(const char *n) { Suite s; s.name = n; s.run = wide_run<CT>; s.weights = {20, 6, 4, 1, 5, 2, 1, 3, 4, 3, 1, 3}; s.maxLen = 120; return s; }
void define(Property &P) {
    P.id = "C14";
    P.rule = "histories of constructions, assignments, appends (characters, strings, C strings, itself, its own characters), concatenations, comparisons, element writes and clears of strings (also of 2-, 4- and 8-byte characters) over alphabets from two letters to all byte values, lengths 0 to thousands; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 characters held at some point";
    P.assumptions = {"C-string arguments are terminated"};
    ADD0(Machine<StringAd<Alloc>>::suite("String", F_RENEW | F_SOME, R_OPS, 3));
    ADD1(Machine<StringAd<Alloc>>::suite("String,copied", F_RENEW | F_COPY | F_MOVE | F_WATCHALL, R_OPS, 2, Hooks(), 600));
    ADD1(Machine<StringAd<LifoAlloc>>::suite("String<LIFO>", F_RENEW | F_SOME));
    ADD0(wide<wchar_t>("BasicString<wchar_t>")); ADD1(wide<unsigned short>("BasicString<unsigned short>")); ADD1(wide<long long>("BasicString<long long>"));
    P.quickCases = 40000; P.thoroughCases = 1000000;
}
}
