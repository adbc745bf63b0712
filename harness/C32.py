#!/usr/bin/env python3
"""C32: containers work for elements of any type.

A case is a random element type (a class put together from random features, or one of many kinds of
built-in and standard types), a few containers whose documented needs that type meets, a random
build, and random histories; the generated program (driver and model: types.hpp) compares every
observable result with a model made of ints.  A failure is shrunk (containers, features, length of
the history, build) and written as a replay; replay it with
  python3 harness/C32.py --replay FILE
"""
import concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PID = 'C32'
NPROC = max(1, min(8, os.cpu_count() or 1))

# ---------------------------------------------------------------- element types
# name: (includes, definition inside namespace u, domain, assign, default, order, eq, lowest standard)
TAB = 'static int tab[256]; struct Init { Init() { for (int i = 0; i < 256; i++) tab[i] = i; } }; static Init init_; '
PLAIN = {
    'bool': ('', 'typedef bool E; inline E mk(int k) { return k != 0; } inline int key(E e) { return e; }', 2, 1, 1, 1, 1, 11),
    'char': ('', 'typedef char E; inline E mk(int k) { return (char)(k - 60); } inline int key(E e) { return e + 60; }', 120, 1, 1, 1, 1, 11),
    'uchar': ('', 'typedef unsigned char E; inline E mk(int k) { return (unsigned char)k; } inline int key(E e) { return e; }', 256, 1, 1, 1, 1, 11),
    'short': ('', 'typedef short E; inline E mk(int k) { return (short)(k * 31 - 32000); } inline int key(E e) { return (e + 32000) / 31; }', 2000, 1, 1, 1, 1, 11),
    'wchar': ('', 'typedef wchar_t E; inline E mk(int k) { return (wchar_t)(k * 1000003); } inline int key(E e) { return (int)(e / 1000003); }', 2000, 1, 1, 1, 1, 11),
    'char16': ('', 'typedef char16_t E; inline E mk(int k) { return (char16_t)(60000 + k); } inline int key(E e) { return e - 60000; }', 5000, 1, 1, 1, 1, 11),
    'unsigned': ('', 'typedef unsigned E; inline E mk(int k) { return 4294966000u + (unsigned)k; } inline int key(E e) { return (int)(e - 4294966000u); }', 1000, 1, 1, 1, 1, 11),
    'int-extreme': ('', 'typedef int E; inline E mk(int k) { return k < 500 ? -2147483647 - 1 + k : 2147483647 - 999 + k; } inline int key(E e) { return e < 0 ? (int)(e - (-2147483647 - 1)) : e - 2147483647 + 999; }', 1000, 1, 1, 1, 1, 11),
    'long': ('', 'typedef long E; inline E mk(int k) { return (long)k << 40; } inline int key(E e) { return (int)(e >> 40); }', 3000, 1, 1, 1, 1, 11),
    'ulonglong': ('', 'typedef unsigned long long E; inline E mk(int k) { return 0xFFFFFFFFFFFF0000ull + (unsigned)k; } inline int key(E e) { return (int)(e - 0xFFFFFFFFFFFF0000ull); }', 3000, 1, 1, 1, 1, 11),
    'int128': ('', 'typedef __int128 E; inline E mk(int k) { return (__int128)k << 90; } inline int key(E e) { return (int)(e >> 90); }', 3000, 1, 1, 1, 1, 11),
    'float': ('', 'typedef float E; inline E mk(int k) { return (float)k / 8 - 3; } inline int key(E e) { return (int)((e + 3) * 8); }', 200, 1, 1, 1, 1, 11),
    'double': ('', 'typedef double E; inline E mk(int k) { return ((double)k - 50) * 1e300; } inline int key(E e) { return (int)(e / 1e300 + 50.5); }', 100, 1, 1, 1, 1, 11),
    'longdouble': ('', 'typedef long double E; inline E mk(int k) { return (long double)k + 0.5L; } inline int key(E e) { return (int)e; }', 3000, 1, 1, 1, 1, 11),
    'enum': ('', 'enum E { E0, E1, E2, E3, E4, E5, E6, E7 }; inline E mk(int k) { return (E)k; } inline int key(E e) { return e; }', 8, 1, 1, 1, 1, 11),
    'enum class': ('', 'enum class E : unsigned char { A, B = 77, C = 255 }; inline E mk(int k) { return (E)(unsigned char)k; } inline int key(E e) { return (int)e; }', 256, 1, 1, 1, 1, 11),
    'pointer': ('', TAB + 'typedef int *E; inline E mk(int k) { return k ? tab + k : nullptr; } inline int key(E e) { return e ? *e : 0; }', 256, 1, 1, 1, 1, 11),
    'const pointer': ('', TAB + 'typedef const int *E; inline E mk(int k) { return k ? tab + k : nullptr; } inline int key(E e) { return e ? *e : 0; }', 256, 1, 1, 1, 1, 11),
    'void pointer': ('', TAB + 'typedef void *E; inline E mk(int k) { return k ? tab + k : nullptr; } inline int key(E e) { return e ? *(int *)e : 0; }', 256, 1, 1, 1, 1, 11),
    'pointer to pointer': ('', 'static int **row[256]; typedef int ***E; inline E mk(int k) { return row + k; } inline int key(E e) { return e ? (int)(e - row) : 0; }', 256, 1, 1, 1, 1, 11),
    'C string': ('', 'typedef const char *E; static const char text[300] = "x"; inline E mk(int k) { return text + k; } inline int key(E e) { return e ? (int)(e - text) : 0; }', 200, 1, 1, 1, 1, 11),
    'function pointer': ('', 'template <int N> int f() { return N; } typedef int (*E)(); inline E mk(int k) { static const E t[] = { nullptr, f<1>, f<2>, f<3>, f<4>, f<5> }; return t[k]; } inline int key(E e) { return e ? e() : 0; }', 6, 1, 1, 0, 1, 11),
    'member pointer': ('', 'struct S { int a, b, c, d; }; typedef int S::*E; inline E mk(int k) { static const E t[] = { &S::a, &S::b, &S::c, &S::d }; return t[k]; } inline int key(E e) { S s = { 0, 1, 2, 3 }; return s.*e; }', 4, 1, 0, 0, 1, 11),
    'member function pointer': ('', 'struct S { int a() { return 0; } int b() { return 1; } virtual int c() { return 2; } }; typedef int (S::*E)(); inline E mk(int k) { static const E t[] = { &S::a, &S::b, &S::c }; return t[k]; } inline int key(E e) { S s; return (s.*e)(); }', 3, 1, 0, 0, 1, 11),
    'string': ('#include <string>', 'typedef std::string E; inline E mk(int k) { return std::string(k % 3 ? 0 : 40, \' \') + (char)(k / 64 + 33) + (char)(k % 64 + 33); } inline int key(const E &e) { return e.size() < 2 ? 0 : ((unsigned char)e[e.size() - 2] - 33) * 64 + (unsigned char)e[e.size() - 1] - 33; }', 1000, 1, 1, 0, 1, 11),
    'wstring': ('#include <string>', 'typedef std::wstring E; inline E mk(int k) { return std::wstring(3, L\'z\') + (wchar_t)(k + 33); } inline int key(const E &e) { return e.empty() ? 0 : (int)e[3] - 33; }', 1000, 1, 1, 1, 1, 11),
    'std::vector': ('#include <vector>', 'typedef std::vector<int> E; inline E mk(int k) { return k ? E(1 + k % 5, 0) : E(); } inline int key(const E &e) { return (int)e.size(); }', 1, 1, 1, 0, 1, 11),
    'vector of ints': ('#include <vector>', 'typedef std::vector<int> E; inline E mk(int k) { return { k, k, 7 }; } inline int key(const E &e) { return e.empty() ? 0 : e[0]; }', 500, 1, 1, 1, 1, 11),
    'map': ('#include <map>\n#include <string>', 'typedef std::map<int, std::string> E; inline E mk(int k) { E e; e[k] = "x"; e[5000] = "y"; return e; } inline int key(const E &e) { return e.empty() ? 0 : e.begin()->first; }', 500, 1, 1, 1, 1, 11),
    'shared_ptr': ('#include <memory>', 'typedef std::shared_ptr<int> E; inline E mk(int k) { return std::make_shared<int>(k); } inline int key(const E &e) { return e ? *e : 0; }', 500, 1, 1, 0, 0, 11),
    'function': ('#include <functional>', 'typedef std::function<int()> E; inline E mk(int k) { return [k]() { return k; }; } inline int key(const E &e) { return e ? e() : 0; }', 500, 1, 1, 0, 0, 11),
    'pair': ('#include <utility>\n#include <string>', 'typedef std::pair<int, std::string> E; inline E mk(int k) { return E(k / 10, std::string(1, (char)(65 + k % 10))); } inline int key(const E &e) { return e.first * 10 + (e.second.empty() ? 0 : e.second[0] - 65); }', 500, 1, 1, 1, 1, 11),
    'tuple': ('#include <tuple>', 'typedef std::tuple<char, double, int> E; inline E mk(int k) { return E((char)(k / 50), k / 50 * 1.5, k); } inline int key(const E &e) { return std::get<2>(e); }', 500, 1, 1, 1, 1, 11),
    'std::array': ('#include <array>', 'typedef std::array<short, 5> E; inline E mk(int k) { E e = { { (short)k, 1, 2, 3, (short)k } }; return e; } inline int key(const E &e) { return e[4]; }', 500, 1, 1, 1, 1, 11),
    'complex': ('#include <complex>', 'typedef std::complex<double> E; inline E mk(int k) { return E(k, -k); } inline int key(const E &e) { return (int)e.real(); }', 500, 1, 1, 0, 1, 11),
    'bitset': ('#include <bitset>', 'typedef std::bitset<130> E; inline E mk(int k) { E e; e |= (unsigned)k; e[129] = 1; return e; } inline int key(const E &e) { E f = e; f[129] = 0; return (int)f.to_ulong(); }'.replace('e |= (unsigned)k;', 'e = E((unsigned)k);'), 500, 1, 1, 0, 1, 11),
    'reference_wrapper': ('#include <functional>', TAB + 'typedef std::reference_wrapper<int> E; inline E mk(int k) { return std::ref(tab[k]); } inline int key(const E &e) { return e.get(); }', 256, 1, 0, 0, 0, 11),
    'any': ('#include <any>', 'typedef std::any E; inline E mk(int k) { return E(k); } inline int key(const E &e) { return e.has_value() ? std::any_cast<int>(e) : 0; }', 500, 1, 1, 0, 0, 17),
    'optional': ('#include <optional>', 'typedef std::optional<int> E; inline E mk(int k) { return k ? E(k) : E(); } inline int key(const E &e) { return e ? *e : 0; }', 500, 1, 1, 1, 1, 17),
    'variant': ('#include <variant>\n#include <string>', 'typedef std::variant<int, std::string, double> E; inline E mk(int k) { if (k < 100) return E(k); if (k < 200) return E(std::string(1, (char)(k - 100 + 1))); return E((double)k); } inline int key(const E &e) { if (e.index() == 0) return std::get<0>(e); if (e.index() == 1) return std::get<1>(e)[0] + 99; return (int)std::get<2>(e); }', 300, 1, 1, 1, 1, 17),
    'string_view': ('#include <string_view>', 'typedef std::string_view E; static const char text[600] = "y"; inline E mk(int k) { return E(text, k); } inline int key(const E &e) { return (int)e.size(); }', 500, 1, 1, 0, 1, 17),
    'lambda': ('', 'inline auto mk(int k) { return [k]() { return k; }; } typedef decltype(mk(0)) E; inline int key(const E &e) { return e(); }', 500, 0, 0, 0, 0, 14),
    'generic lambda': ('#include <string>', 'inline auto mk(int k) { std::string s(20, (char)65); return [k, s](auto &&...) { return k + (int)s.size() - 20; }; } typedef decltype(mk(0)) E; inline int key(const E &e) { return e(1, "x"); }', 500, 0, 0, 0, 0, 14),
    'aggregate': ('', 'struct E { int v; char c[3]; E *next; }; inline E mk(int k) { E e = { k, { 1, 2, 3 }, nullptr }; return e; } inline int key(const E &e) { return e.v; }', 500, 1, 1, 0, 0, 11),
    'nested aggregate': ('', 'struct In { int a[3]; }; struct E { In i; int v; }; inline E mk(int k) { E e = { { { 9, 9, 9 } }, k }; return e; } inline int key(const E &e) { return e.v; }', 500, 1, 1, 0, 0, 11),
    'one-member aggregate': ('', 'struct In { int v; operator int() const { return 77777; } }; struct E { In i; }; inline E mk(int k) { E e = { { k } }; return e; } inline int key(const E &e) { return e.i.v; }', 500, 1, 1, 0, 0, 11),
    'union': ('', 'union E { int v; double d; char c[24]; }; inline E mk(int k) { E e; for (char &x : e.c) x = 0; e.v = k; return e; } inline int key(const E &e) { return e.v; }', 500, 1, 1, 0, 0, 11),
    'bit field': ('', 'struct E { unsigned a : 3, v : 17, b : 5; signed char c : 2; bool operator<(const E &o) const { return v < o.v; } bool operator>(const E &o) const { return v > o.v; } bool operator==(const E &o) const { return v == o.v; } bool operator!=(const E &o) const { return v != o.v; } }; inline E mk(int k) { E e = { 5, (unsigned)k, 3, -1 }; return e; } inline int key(const E &e) { return e.a == 5 ? e.v : e.v ? -1 : 0; }', 500, 1, 1, 1, 1, 11),
    'empty class': ('', 'struct E { bool operator<(const E &) const { return false; } bool operator>(const E &) const { return false; } bool operator==(const E &) const { return true; } bool operator!=(const E &) const { return false; } }; inline E mk(int) { return E(); } inline int key(const E &) { return 0; }', 1, 1, 1, 1, 1, 11),
    'total-order double': ('', '''struct E { double d; E(double x = 0.0) : d(x) { } long long bits() const { long long b; __builtin_memcpy(&b, &d, 8); return b < 0 ? (long long)(0x8000000000000000ull - (unsigned long long)b) : b + 1; }
      bool operator<(const E &o) const { return bits() < o.bits(); } bool operator>(const E &o) const { return bits() > o.bits(); } bool operator==(const E &o) const { return d == o.d; } bool operator!=(const E &o) const { return d != o.d; } };
    inline E mk(int k) { return E(k < 4 ? k - 5.0 : k == 4 ? -0.0 : k == 5 ? 0.0 : k == 11 ? __builtin_nan("") : k - 5.0); } inline int key(const E &e) { return e.d != e.d ? 11 : e.d == 0 ? (__builtin_signbit(e.d) ? 4 : 5) : (int)(e.d + 5); }''', 12, 1, 1, 1, 0, 11),
}

FEATS = {   # name: values
    'nodef': [1], 'noassign': ['deleted', 'const'], 'explicit': [1], 'greedy': ['ctor', 'both'], 'ilist': ['self', 'int', 'double'], 'conv': ['int', 'bool', 'pointer', 'template'],
    'virtual': ['dtor', 'base', 'virtual base', 'two bases'], 'new': ['deleted', 'counted', 'private'], 'eq': ['absent', 'always', 'never', 'proxy', 'key only'], 'lt': ['proxy', 'int', 'free', 'template'],
    'gt': ['absent'], 'asgvoid': [1], 'own': [1], 'self': [1], 'count': [1], 'moves': [1], 'pad': [1, 3, 7, 13, 40, 100, 400, 5000], 'front': [1, 2, 9, 64], 'align': [1, 2, 8, 16], 'adl': [1], 'final': [1],
    'names': [1], 'tag': [1], 'dtor': ['throwing', 'user'], 'copy': ['arguments', 'throwing'], 'refq': [1], 'ops': [1], 'any eq': [1], 'ne': ['absent'], 'where': ['anonymous', 'nested', 'template'],
}

HOSTILE = ['greedy', 'ilist', 'conv', 'eq', 'lt', 'adl', 'new', 'nodef', 'noassign', 'self']        # more often than the others


def gen_type(r):
    if r.random() < 0.4:
        return {'plain': r.choice(list(PLAIN))}
    f = {}
    for k in r.sample(list(FEATS) + HOSTILE * 2, r.choice([2, 3, 4, 5, 7, 9, 12])):
        f[k] = r.choice(FEATS[k])
    return {'f': normal(f)}


def normal(f):
    f = dict(f)
    if 'noassign' in f: f.pop('asgvoid', None)
    if f.get('noassign') == 'const': f.pop('moves', None)
    if f.get('where') == 'anonymous' and ('adl' in f or f.get('lt') in ('free', 'template')): f['where'] = 'nested'      # these must be in the namespace of the class
    if 'eq' in f: f.pop('ne', None); f.pop('any eq', None)
    if 'noassign' in f and 'moves' in f: f.pop('moves')
    if 'virtual' in f and 'new' in f: f['new'] = 'counted'
    return f


def type_text(t):
    """(includes, text, props)"""
    if 'plain' in t:
        inc, txt, dom, a, d, o, e, std = PLAIN[t['plain']]
        return inc, 'namespace u { ' + txt + ' }', dict(dom=dom, assign=a, default=d, order=o, gt=o, eq=e, eqpresent=1 if e or t['plain'] == 'total-order double' else 0, std=std, align=16 if t['plain'] in ('int128', 'longdouble') else 8, ns='u')
    f = t['f']; L = []; inc = set()
    L.append('namespace u {')
    if 'adl' in f:
        L.append('''template <class A, class B> int swap(A &&, B &&) { return 1; } template <class A> int move(A &&) { return 1; } template <class A> int forward(A &&) { return 1; } template <class A, class B> int distance(const A &, const B &) { return -3; }
template <class A, class B> int max(const A &, const B &) { return 1; } template <class A> int abs(const A &) { return 1; } template <class A, class B> int construct(A, const B &) { return 1; } template <class A> int destroy(A) { return 1; } template <class A, class B, class C> int find(A, B, C) { return 1; }
template <class A, class B, class C> int for_each(A, B, C) { return 1; } template <class A> int _remove_const(A &&) { return 1; } template <class A> int begin(A &&) { return 1; } template <class A> int end(A &&) { return 1; } template <class A> int allocate(A) { return 1; } template <class A> int deallocate(A) { return 1; }''')
    v = f.get('virtual')
    if v == 'base': L.append('struct B1 { int b1; B1() : b1(11) { } virtual int id() const { return b1; } virtual ~B1() { } };'); bases = ' : public B1'
    elif v == 'virtual base': L.append('struct B1 { int b1; B1() : b1(11) { } virtual ~B1() { } }; struct B2 : public virtual B1 { int b2; }; struct B3 : public virtual B1 { int b3; };'); bases = ' : public B2, public B3'
    elif v == 'two bases': L.append('struct B1 { long b1; B1() : b1(11) { } virtual ~B1() { } }; struct B2 { char b2; virtual void f() { } };'); bases = ' : public B1, private B2'
    else: bases = ''
    if f.get('eq') == 'proxy' or f.get('lt') == 'proxy': L.append('struct Truth { bool b; explicit Truth(bool x) : b(x) { } operator bool() const { return b; } };')
    wh = f.get('where'); L.append({'anonymous': 'namespace {', 'nested': 'struct Outer {', 'template': 'template <class T_> struct Outer {', None: ''}[wh])
    L.append('struct %sE%s%s {' % ('alignas(%d) ' % f['align'] if f.get('align', 0) >= 8 else '', ' final' if 'final' in f else '', bases))
    if 'names' in f: L.append('typedef E *Link, *LinkType, *Node_, *ValueType, *IteratorType, *ReferenceType, *Type; E *next, *prev, *link, *left, *right; int data, val, height, value, size, mSize_d; enum { capacity, begin, end };')
    if 'front' in f: L.append('char front_[%d];' % f['front'])
    L.append('%sint v;' % ('const ' if f.get('noassign') == 'const' else ''))
    if 'tag' in f: L.append('mutable short tag;')
    if 'self' in f: L.append('const E *self;')
    if 'own' in f: L.append('int *heap;')
    if 'pad' in f: L.append('char pad[%d];' % f['pad'])
    body = ''
    if 'pad' in f: body += ' for (unsigned i = 0; i < sizeof pad; i++) pad[i] = (char)(v + i);'
    if 'front' in f: body += ' for (unsigned i = 0; i < sizeof front_; i++) front_[i] = (char)(v + i + 1);'
    if 'self' in f: body += ' self = this;'
    if 'own' in f: body += ' heap = new int(v);'
    if 'tag' in f: body += ' tag = 5;'
    counted = any(k in f for k in ('count', 'own', 'self'))
    if counted: body += ' vp_live++;'
    vb = ''
    user = counted or 'tag' in f or 'moves' in f or 'asgvoid' in f or 'noassign' in f or 'virtual' in f or 'copy' in f or 'refq' in f or 'dtor' in f
    L.append('%sE(int k)%s : v(k) {%s }' % ('explicit ' if 'explicit' in f else '', '', body))
    if 'nodef' not in f: L.append('E() : v(0) {%s }' % body)
    check = ''
    if 'self' in f: check += ' if (self != this) vp_trap("an element is not where it was constructed");'
    if 'own' in f: check += ' if (!heap) vp_trap("an element without its memory is used");'
    if user: L.append('E(const E &o%s)%s : v(o.v) {%s%s }' % (', int = 0, double = 1' if f.get('copy') == 'arguments' else '', ' noexcept(false)' if f.get('copy') == 'throwing' else '', body, ' o.check();'))
    if 'moves' in f: L.append('E(E &&o) : v(o.v) {%s o.check(); o.v = -7;%s }' % (body, ' *o.heap = -7;' if 'own' in f else ''))
    asg = 'v = o.v;' + (' *heap = *o.heap;' if 'own' in f else '') + (' for (unsigned i = 0; i < sizeof pad; i++) pad[i] = o.pad[i];' if 'pad' in f else '') + (' for (unsigned i = 0; i < sizeof front_; i++) front_[i] = o.front_[i];' if 'front' in f else '')
    ret, res = ('void', '') if 'asgvoid' in f else ('E &', 'return *this;')
    if 'noassign' in f:
        if f['noassign'] == 'deleted': L.append('E &operator=(const E &) = delete;')
    elif user:
        L.append('%s operator=(const E &o)%s { check(); o.check(); %s %s }' % (ret, ' &' if 'refq' in f else '', asg, res))
        if 'moves' in f: L.append('%s operator=(E &&o) { check(); o.check(); if (this != &o) { %s o.v = -7;%s } %s }' % (ret, asg, ' *o.heap = -7;' if 'own' in f else '', res))
    if counted or v or 'dtor' in f: L.append('%s~E()%s { check();%s%s%s }' % ('virtual ' if v == 'dtor' else '', ' noexcept(false)' if f.get('dtor') == 'throwing' and v not in ('base', 'virtual base', 'two bases') else '', ' delete heap; heap = nullptr;' if 'own' in f else '', ' self = nullptr;' if 'self' in f else '', ' vp_live--;' if counted else ''))
    L.append('void check() const {%s }' % check)
    pchk = (' for (unsigned i = 0; i < sizeof pad; i++) if (pad[i] != (char)(v + i)) return -5;' if 'pad' in f else '') + (' for (unsigned i = 0; i < sizeof front_; i++) if (front_[i] != (char)(v + i + 1)) return -6;' if 'front' in f else '') + (' if (*heap != v) return -4;' if 'own' in f else '') + (' if (b1 != 11) return -3;' if v in ('base', 'virtual base', 'two bases') else '')
    L.append('int get() const { check();%s return v; }' % pchk)
    if 'greedy' in f:
        inc.add('#include <type_traits>')
        g = 'class = typename std::enable_if<!std::is_base_of<E, typename std::decay<U>::type>::value && !std::is_integral<typename std::decay<U>::type>::value>::type'
        L.append('template <class U, %s> E(U &&) : v(-9) {%s vp_trap("an element is made from something else"); }' % (g, body))
        if f['greedy'] == 'both' and 'noassign' not in f: L.append('template <class U, %s> E &operator=(U &&) { vp_trap("an element is assigned something else"); return *this; }' % g)
    if 'ilist' in f:
        inc.add('#include <initializer_list>'); ty = {'self': 'E', 'int': 'int', 'double': 'double'}[f['ilist']]
        L.append('E(std::initializer_list<%s> l) : v(l.size() ? -8 : 0) {%s if (l.size()) vp_trap("an element is made from a list"); }' % (ty, body))
    c = f.get('conv')
    if c == 'int': L.append('operator int() const { return -11; }')
    if c == 'bool': L.append('operator bool() const { return v %% 2; }'.replace('%%', '%'))
    if c == 'pointer': L.append('operator const char *() const { return "x"; }')
    if c == 'template': inc.add('#include <type_traits>'); L.append('template <class U, class = typename std::enable_if<std::is_floating_point<U>::value>::type> operator U() const { vp_trap("an element is converted"); return U(); }')
    n = f.get('new')
    if n == 'deleted': L.append('static void *operator new(decltype(sizeof(0))) = delete; static void operator delete(void *) = delete; static void *operator new[](decltype(sizeof(0))) = delete;')
    if n == 'counted': L.append('static void *operator new(decltype(sizeof(0)) s) { vp_trap("the operator new of the element type is used"); return ::operator new(s); } static void operator delete(void *p) { vp_trap("the operator delete of the element type is used"); ::operator delete(p); }')
    if n == 'private': L.append('private: static void *operator new(decltype(sizeof(0)), void *); static void operator delete(void *); public:')
    e = f.get('eq'); rt = 'Truth' if e == 'proxy' else 'bool'
    if e == 'always': L.append('bool operator==(const E &) const { return true; } bool operator!=(const E &) const { return false; }')
    elif e == 'never': L.append('bool operator==(const E &) const { return false; } bool operator!=(const E &) const { return true; }')
    elif e == 'key only': L.append('bool operator==(const E &o) const { return v / 4 == o.v / 4; } bool operator!=(const E &o) const { return v / 4 != o.v / 4; }')
    elif e != 'absent': L.append('%s operator==(const E &o) const { check(); o.check(); return %s(v == o.v); }' % (rt, rt) + ('' if 'ne' in f else ' %s operator!=(const E &o) const { return %s(v != o.v); }' % (rt, rt)))
    if 'any eq' in f: L.append('template <class U> bool operator==(const U &) const { vp_trap("an element is compared with something else"); return false; } template <class U> bool operator!=(const U &) const { vp_trap("an element is compared with something else"); return true; }')
    if 'ops' in f: L.append(' '.join('%s { vp_trap("%s of an element is used"); return %s; }' % (d, d.replace('"', ''), x) for d, x in (('int operator*() const', '0'), ('E *operator->()', 'this'), ('int operator[](int) const', '0'), ('E &operator++()', '*this'), ('E &operator--()', '*this'), ('int operator()() const', '0'), ('int operator+(int) const', '0'), ('int operator-(const E &) const', '0'), ('int operator-() const', '0'), ('bool operator!() const', 'false'), ('bool operator>=(const E &) const', 'false'), ('bool operator<=(const E &) const', 'false'))))
    l = f.get('lt'); rt = {'proxy': 'Truth', 'int': 'int'}.get(l, 'bool')
    val = lambda op: {'proxy': 'return Truth(v %s o.v);', 'int': 'return v %s o.v ? 6 : 0;'}.get(l, 'return v %s o.v;') % op
    if l not in ('free', 'template'):
        L.append('%s operator<(const E &o) const { check(); o.check(); %s }' % (rt, val('<')))
        if 'gt' not in f: L.append('%s operator>(const E &o) const { check(); o.check(); %s }' % (rt, val('>')))
    L.append('};' + {'anonymous': ' }', 'nested': ' }; typedef Outer::E E;', 'template': ' }; typedef Outer<int>::E E;', None: ''}[wh])
    if l == 'free': L.append('inline bool operator<(const E &a, const E &b) { return a.get() < b.get(); }' + ('' if 'gt' in f else ' inline bool operator>(const E &a, const E &b) { return b.get() < a.get(); }'))
    if l == 'template': inc.add('#include <type_traits>'); L.append('template <class A> typename std::enable_if<std::is_same<A, E>::value, bool>::type operator<(const A &a, const A &b) { return a.get() < b.get(); }' + ('' if 'gt' in f else ' template <class A> typename std::enable_if<std::is_same<A, E>::value, bool>::type operator>(const A &a, const A &b) { return b.get() < a.get(); }'))
    L.append('inline E mk(int k) { return E(k); } inline int key(const E &e) { return e.get(); }\n}')
    return '\n'.join(sorted(inc)), '\n'.join(L), dict(dom=300, assign=int('noassign' not in f), default=int('nodef' not in f), order=1, gt=int('gt' not in f), eq=int(e in (None, 'proxy')), eqpresent=int(e != 'absent'), std=11, align=max(8, f.get('align', 8)))


# ---------------------------------------------------------------- comparisons: name -> (text, type, value, needs, up, default constructible and assignable)
CMPS = {
    'less': ('', 'dstruct::less<E>', None, 'order', 1, 1), 'greater': ('', 'dstruct::greater<E>', None, 'gt', 0, 1),
    'functor': ('struct Cmp { bool operator()(const E &a, const E &b) const { return u::key(a) < u::key(b); } };', 'Cmp', None, '', 1, 1),
    'int result': ('struct Cmp final { int operator()(const E &a, const E &b) const { return u::key(a) > u::key(b) ? 4 : 0; } };', 'Cmp', None, '', 0, 1),
    'by value': ('struct Cmp { bool operator()(E a, E b) const { return u::key(a) < u::key(b); } };', 'Cmp', None, '', 1, 1),
    'template': ('struct Cmp { template <class A, class B> bool operator()(const A &a, const B &b) const { return u::key(a) < u::key(b); } };', 'Cmp', None, '', 1, 1),
    'stateful': ('struct Cmp { int s; Cmp(int x = 0) : s(x) { } bool operator()(const E &a, const E &b) const { return s * u::key(a) < s * u::key(b); } };', 'Cmp', 'Cmp(-3)', '', 0, 2),
    'function pointer': ('static bool cmpf(const E &a, const E &b) { return u::key(a) > u::key(b); }', 'bool (*)(const E &, const E &)', 'cmpf', '', 0, 2),
    'std::function': ('#include <functional>\n', 'std::function<bool(const E &, const E &)>', '[](const E &a, const E &b) { return u::key(a) < u::key(b); }', '', 1, 2),
}
# ---------------------------------------------------------------- containers: needs, call
SEQ = {
    'Vector': ('', 'AVec', '%sVector<E%s>'), 'Deque1': ('', 'ADeq', '%sDeque<E, 1%s>'), 'Deque3': ('', 'ADeq', '%sDeque<E, 3%s>'), 'Deque32': ('', 'ADeq', '%sDeque<E, 32%s>'),
    'DLinkedList': ('default assign', 'ADL', '%sDLinkedList<E%s>'), 'SLinkedList': ('default assign', 'ASL', '%sSLinkedList<E%s>'), 'Queue': ('', 'AQue', 'dstruct::adapter::Queue<E, %sDeque<E, 32%s>>'), 'Stack': ('', 'AStk', 'dstruct::adapter::Stack<E, %sVector<E%s>>'),
    'Queue on list': ('default assign', 'AQue', 'dstruct::adapter::Queue<E, dstruct::DLinkedList<E>>'), 'Queue on slist': ('default assign', 'AQue', 'dstruct::adapter::Queue<E, dstruct::SLinkedList<E>>'), 'Stack on deque': ('', 'AStk', 'dstruct::adapter::Stack<E, dstruct::Deque<E, 2>>'), 'Stack on list': ('default assign', 'AStk', 'dstruct::adapter::Stack<E, dstruct::DLinkedList<E>>'),
}
OTHER = {'Array1': 'default assign', 'Array7': 'default assign', 'Heap': 'default assign', 'PriorityQueue': 'default assign order gt', 'sort': 'default assign', 'MinMax': 'default assign eqpresent', 'BSTree': 'assign', 'AVLTree': '', 'Map value': 'default', 'Map key': '', 'Map both': 'default'}


def needs(kind):
    return (SEQ[kind][0] if kind in SEQ else OTHER[kind]).split()


def gen_case(seed, i):
    r = random.Random('%d/%d' % (seed, i))
    while True:
        t = gen_type(r); p = type_text(t)[2]
        if p['std'] <= 17: break
    ok = [k for k in list(SEQ) + list(OTHER) if all(p[n] for n in needs(k))]
    cs = []
    for k in r.sample(ok, min(len(ok), r.choice([3, 4, 5, 6, 8]))):
        cmps = [c for c, x in CMPS.items() if (not x[3] or p[x[3]]) and not (k == 'sort' and x[5] == 2) and not (k in ('Map key', 'Map both', 'MinMax') and x[5] == 2)]
        cs.append({'kind': k, 'cmp': r.choice(cmps), 'static': int(r.random() < 0.2 and k in SEQ and '%s' in SEQ[k][2] and p['align'] <= 8)})
    std = r.choice([s for s in (11, 14, 17, 20, 23) if s >= p['std']])
    b = {'cc': r.choice(['g++', 'clang++']), 'std': std, 'opt': r.choice(['-O0', '-O0', '-O0', '-O0', '-O1', '-O2']), 'san': int(r.random() < 0.4), 'ndebug': int(r.random() < 0.2)}
    runs = [[r.randrange(1, 1 << 30), r.choice([15, 40, 40, 90, 200, 600])] for _ in range(12)]
    return {'type': t, 'containers': cs, 'build': b, 'runs': runs}


def call(i, c):
    k = c['kind']; ct, cty, cval, _, up, _ = CMPS[c['cmp']]; L = []
    ct = ct.replace('#include <functional>\n', '')
    L.append('namespace k%d { using u::E; using dstruct::Alloc; %s' % (i, ct))
    L.append('typedef %s C0;' % cty if cty != 'bool (*)(const E &, const E &)' else 'typedef bool (*C0)(const E &, const E &);')
    obj = cval or 'C0()'
    if k in SEQ:
        ad, form = SEQ[k][1:]
        ty = form % ('dstruct::', ', dstruct::StaticMemAllocator<(1 << 26)>' if c['static'] else '') if '%s' in form else form
        L.append('static void run(unsigned long long s, int n) { vp::sequence<vp::%s, %s>(s, n); }' % (ad, ty))
    elif k.startswith('Array'):
        L.append('static void run(unsigned long long s, int n) { vp::fixed<dstruct::Array<E, %s>, %s>(s, n); }' % (k[5:], k[5:]))
    elif k == 'Heap': L.append('typedef dstruct::Heap<E, C0> H; static void run(unsigned long long s, int n) { vp::heap<H, %d>(s, n, new H(%s)); }' % (up, obj))
    elif k == 'PriorityQueue': L.append('typedef dstruct::PriorityQueue<E> H; static void run(unsigned long long s, int n) { vp::heap<H, 1>(s, n, new H); }')
    elif k == 'sort': L.append('static void run(unsigned long long s, int n) { vp::sorting<dstruct::Heap<E, C0>, %d>(s, n); }' % up)
    elif k == 'MinMax': L.append('static void run(unsigned long long s, int n) { vp::extreme<dstruct::stack::XValueStack<E, C0>, %d>(s, n); }' % up)
    elif k == 'BSTree': L.append('typedef dstruct::tree::BinarySearchTree<E, C0, Alloc> T; static void run(unsigned long long s, int n) { vp::Ord<T, %d, 0>::run(s, n, new T(%s)); }' % (up, obj))
    elif k == 'AVLTree': L.append('typedef dstruct::AVLTree<E, C0, Alloc> T; static void run(unsigned long long s, int n) { vp::Ord<T, %d, 1>::run(s, n, new T(%s)); }' % (up, obj))
    elif k == 'Map value': L.append('static void run(unsigned long long s, int n) { vp::Dict<dstruct::Map<int, E>, 0, 1>::run(s, n); }')
    elif k == 'Map key': L.append('static void run(unsigned long long s, int n) { vp::Dict<dstruct::Map<E, int, C0>, 1, %d>::run(s, n); }' % up)
    elif k == 'Map both': L.append('static void run(unsigned long long s, int n) { vp::Dict<dstruct::Map<E, E, C0>, 2, %d>::run(s, n); }' % up)
    L.append('}')
    return '\n'.join(L)


def source(case):
    inc, txt, p = type_text(case['type']); inc2 = '#include <functional>\n' if any(c['cmp'] == 'std::function' for c in case['containers']) else ''
    s = ['#include <cstdio>', '#include <cstdlib>', inc, inc2, 'static long vp_live; static const char *vp_why;', 'static void vp_trap(const char *s) { if (!vp_why) vp_why = s; }',
         '#define T_ASSIGN %d\n#define T_EQ %d\n#define T_DOM %d' % (p['assign'], p['eq'], p['dom']), txt, '#include <dstruct.hpp>', '#include <dstruct-static.hpp>' if any(c['static'] for c in case['containers']) else '', '#include "%s/types.hpp"' % H]
    for i, c in enumerate(case['containers']): s.append(call(i, c))
    s.append('int main(int argc, char **argv) {\n  int w = atoi(argv[1]); unsigned long long s = strtoull(argv[2], 0, 10); int n = atoi(argv[3]);\n  switch (w) {')
    for i, c in enumerate(case['containers']): s.append('  case %d: k%d::run(s, %s); break;' % (i, i, 'n < 150 ? n : 150' if c['static'] else 'n'))
    s.append('  }\n  if (vp_why) { printf("FAIL %s\\n", vp_why); return 1; }\n  if (vp_live) { printf("FAIL %ld elements too many are alive in the end\\n", vp_live); return 1; }\n  puts("ok"); return 0;\n}\n')
    return '\n'.join(s)


def command(b, src, exe):
    cmd = [b['cc'], '-std=c++%d' % b['std'] if b['std'] != 23 else '-std=c++2b', b['opt'], '-w', '-I' + REPO]
    if b['ndebug']: cmd.append('-DNDEBUG')
    if b['san']: cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=null']
    return cmd + [src, '-o', exe]


class Runner:
    def __init__(self, work): self.work = work
    def sh(self, cmd, cwd, t):
        env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        for _ in (1, 2):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=cwd, timeout=t, env=env)
            except subprocess.TimeoutExpired:
                rc, out, err = -999, '', 'did not finish within %d s' % t
                continue
            rc, out, err = p.returncode, p.stdout, p.stderr
            if rc != -9: break          # killed from outside: again
        return rc, out, err

    def run(self, case):
        """(histories run, [container, seed, length] or None, what fails or None)"""
        d = tempfile.mkdtemp(dir=self.work); n = 0
        try:
            s = os.path.join(d, 'p.cpp'); open(s, 'w').write(source(case)); exe = os.path.join(d, 'p')
            rc, out, err = self.sh(command(case['build'], s, exe), d, 240)
            if rc != 0: return n, None, 'the program does not compile:\n%s' % ('\n'.join([l for l in err.split('\n') if 'error' in l][:5]) or err[-800:])
            for w in range(len(case['containers'])):
                for seed, length in case['runs']:
                    n += 1
                    why = self.history(d, exe, w, seed, length)
                    if why: return n, [w, seed, length], why
            return n, None, None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def history(self, d, exe, w, seed, length):
        rc, out, err = self.sh([exe, str(w), str(seed), str(length)], d, 60)
        if rc == 0: return None
        if 'FAIL' in out: return out.strip().split('\n')[-1][5:]
        e = [l for l in err.split('\n') if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l]
        return 'the program ends with status %d %s' % (rc, ' | '.join(e[:2])[:400] or err[-300:])

    def shrink(self, case, where, t_end):
        tries = 0
        if where: case = dict(case, containers=[case['containers'][where[0]]], runs=[where[1:]])
        def bad(c):
            nonlocal tries
            if time.time() > t_end: return False
            tries += 1
            return self.run(c)[2] is not None
        if not where:
            for c in case['containers']:
                x = dict(case, containers=[c])
                if bad(x): case = x; break
        for key, v in (('san', 0), ('ndebug', 0), ('opt', '-O0'), ('cc', 'g++'), ('std', max(11, type_text(case['type'])[2]['std']))):
            if case['build'][key] != v:
                x = dict(case, build=dict(case['build'], **{key: v}))
                if bad(x): case = x
        if case['containers'] and case['containers'][0]['static']:
            x = dict(case, containers=[dict(case['containers'][0], static=0)])
            if bad(x): case = x
        if 'f' in case['type']:
            for k in sorted(case['type']['f']):
                f = dict(case['type']['f']); f.pop(k, None); x = dict(case, type={'f': normal(f)}); p = type_text(x['type'])[2]
                if all(p[n] for c in x['containers'] for n in needs(c['kind'])) and bad(x): case = x
        if where:
            seed, n = case['runs'][0]; lo, hi = 0, n        # the smallest failing length
            while hi - lo > 1 and time.time() < t_end:
                mid = (lo + hi) // 2
                if bad(dict(case, runs=[[seed, mid]])): hi = mid
                else: lo = mid
            case = dict(case, runs=[[seed, hi]])
        return case, tries


def describe(case):
    t = case['type']; b = case['build']
    return '%s in %s, %s c++%d %s%s%s' % (t.get('plain') or 'a class with %s' % (t['f'] or 'nothing special'), ', '.join('%s%s (%s)' % (c['kind'], ' on static memory' if c['static'] else '', c['cmp']) for c in case['containers']), b['cc'], b['std'], b['opt'], ' sanitized' if b['san'] else '', ' NDEBUG' if b['ndebug'] else '')


def write_replay(case, why, seed, idx, tries):
    h = hashlib.sha1(json.dumps(case).encode()).hexdigest()[:12]
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', 'C32-%s.json' % h)
    json.dump({'property': PID, 'failure': why, 'seed': seed, 'case_index': idx, 'shrunk_with_runs': tries, 'what': describe(case), 'case': case, 'command': ' '.join(command(case['build'], 'p.cpp', 'p')), 'arguments': [0] + case['runs'][0] if case['runs'] else [], 'program': source(case).split('\n')}, open(path, 'w'), indent=1)
    return path


def library_compiles(work):
    f = os.path.join(work, 't.cpp'); open(f, 'w').write('#include <dstruct.hpp>\nint main() { return 0; }\n')
    return subprocess.run(['g++', '-std=c++11', '-w', '-I' + REPO, f, '-o', f + '.exe'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def main(tier, seed):
    t0 = time.time()
    base = os.path.join(ROOT, 'build'); os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix='C32-', dir=base)
    scale = float(os.environ.get('VP_SCALE', '1'))
    cases, cap = (180, 420) if tier != 'thorough' else (6000, float(os.environ.get('VP_DEADLINE', '5400')))
    cases = max(8, int(cases * scale)); violation = None; notes = []
    try:
        if not library_compiles(work):
            sys.stderr.write('check error: the library does not compile at all\n'); return 2
        run = Runner(work); labels = {}; samples = []; seen = set(); evals = nontriv = progs = 0
        def one(i):
            case = gen_case(seed, i)
            if time.time() - t0 > cap: return i, case, None
            return i, case, run.run(case)
        def lab(k, n=1): labels[k] = labels.get(k, 0) + n
        with cf.ThreadPoolExecutor(NPROC) as ex:
            pend = set(); nxt = 0
            while True:
                while nxt < cases and len(pend) < NPROC * 2 and not violation and time.time() - t0 < cap:
                    pend.add(ex.submit(one, nxt)); nxt += 1
                if not pend: break
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    i, case, res = f.result()
                    if res is None: continue
                    n, where, why = res; progs += 1; evals += n
                    lab('type: ' + (case['type'].get('plain') or 'class'))
                    for k in case['type'].get('f', {}): lab('feature: ' + k)
                    for c in case['containers']:
                        lab('container: ' + c['kind']); 
                        if c['kind'] in OTHER and OTHER[c['kind']].find('order') < 0 and not c['kind'].startswith('Array'): lab('comparison: ' + c['cmp'])
                        if c['static']: lab('static memory')
                    b = case['build']; lab('%s c++%d' % (b['cc'], b['std'])); lab('sanitized', b['san'])
                    if 'plain' in case['type'] or case['type']['f']:
                        for c in case['containers']:
                            for sd, ln in case['runs']:
                                if ln >= 40: nontriv += 1; seen.add(hashlib.sha1(json.dumps([case['type'], c, sd, ln]).encode()).digest())
                    if len(samples) < 8 and progs % 13 == 1: samples.append(describe(case))
                    if why and not violation:
                        again = [run.run(case)[2] for _ in range(2)]
                        if all(again):
                            sys.stderr.write('case %d fails (%s): %s\n' % (i, describe(case), why[:700]))
                            c2, tries = run.shrink(case, where, time.time() + 120)
                            why2 = run.run(c2)[2] or why
                            violation = write_replay(c2, why2, seed, i, tries)
                            sys.stderr.write('# failure: %s\n# shrunk: %s\n' % (why2[:800], describe(c2)))
                        else: notes.append('case %d failed once and not again: %s' % (i, why[:200]))
        ev = {'property': PID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(seen),
                'rule': 'random element types (a class with a random subset of %d features, or one of %d built-in and standard types) x random containers whose needs the type meets x random histories of up to 600 operations; every result must be the one a model made of ints predicts; non-trivial: a history of at least 40 operations on a type that is not a bare wrapper of an int' % (len(FEATS), len(PLAIN)),
                'samples': samples or ['none'], 'programs': progs, 'nontrivial': nontriv, 'labels': labels, 'exhaustive': False},
              'assumptions': ['what a container needs of its elements is what the table in harness/C32.py says (all: copy construction; arrays, lists, heaps, min/max stacks: default construction and assignment; binary search trees: assignment; map values: default construction; an order where one is given by default)', 'unary & and the comma have their built-in meaning for elements', 'elements are aligned to at most 16 bytes on the heap and 8 bytes on static memory'],
              'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
        if notes: ev['coverage']['notes'] = notes
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', PID + '.json'); json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            if l.startswith('open: property=%s ' % PID): print('KNOWN-FINDING: ' + l[6:].strip())
        if violation:
            print('VIOLATION property=%s replay=%s' % (PID, violation), flush=True); return 1
        print('%s %s seed %d: held on %d histories of %d programs (%.1f s)' % (PID, tier, seed, evals, progs, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--replay']:
        d = json.load(open(sys.argv[2])); w = tempfile.mkdtemp()
        try:
            why = Runner(w).run(d['case'])[2]
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(why or 'held'); sys.exit(1 if why else 0)
    if sys.argv[1:2] == ['--survey']:       # every failing case of a range, not shrunk
        w = tempfile.mkdtemp(); R = Runner(w)
        def one(i):
            c = gen_case(int(sys.argv[2]), i); return i, c, R.run(c)
        try:
            with cf.ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else NPROC) as ex:
                for i, c, (n, where, why) in ex.map(one, range(int(sys.argv[3]))):
                    if why: print('---', i, describe(c), where and c['containers'][where[0]], '\n', why[:900], flush=True)
        finally: shutil.rmtree(w, ignore_errors=True)
        sys.exit(0)
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
