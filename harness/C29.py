#!/usr/bin/env python3
"""C29: one program, one behaviour, in every supported build.

A case is a random program over several containers (a list of abstract operations, made concrete by
a model written in Python, which also predicts every observable result) and a few random builds of
it: language standard, compiler, optimisation, assertions, memory port (libc, ENABLE_SMA, the static
data structures, an own port without any standard header), include form, number of translation
units.  Every build must compile, link, run and print what the model predicts.
A failure is shrunk (operations, then build options) and written as a replay; replay it with
  python3 harness/C29.py --replay FILE
"""
import concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PID = 'C29'
NPROC = max(1, min(8, os.cpu_count() or 1))

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" { extern void (*const vp_parts[])(); extern const int vp_nparts; }
static long live, blocks;
extern "C" void vp_sink(long long v) { printf("%lld\n", v); }
extern "C" void vp_live(int d) { live += d; }
static long long pool, whole = -1;
extern "C" void vp_pool(long long v, int entering) { if (whole < 0) whole = pool = v; else if (entering && v != pool) { printf("%lld bytes of static memory were free and now, in another unit, %lld are\n", pool, v); } pool = v; }
extern "C" void *vp_alloc(int n) { if (n <= 0) { printf("bad request of %d bytes\n", n); fflush(stdout); abort(); } char *p = (char *)malloc((size_t)n + 32); memcpy(p, &n, sizeof n); memset(p + 16, 0xA5, (size_t)n + 16); blocks++; return p + 16; }
extern "C" void vp_free(void *q, int n) { if (!q) return; char *p = (char *)q - 16; int m; memcpy(&m, p, sizeof m); if (m != n) { printf("a block of %d bytes is returned as %d bytes\n", m, n); fflush(stdout); abort(); } for (int i = 0; i < 16; i++) if ((unsigned char)p[16 + n + i] != 0xA5) { printf("written past a block of %d bytes\n", n); fflush(stdout); abort(); } free(p); blocks--; }
extern "C" void vp_stop() { printf("an assertion of the library failed\n"); fflush(stdout); abort(); }
int main() { for (int i = 0; i < vp_nparts; i++) { vp_parts[i](); fflush(stdout); } if (pool != whole && whole >= 0) printf("%lld of %lld bytes of static memory are free in the end\n", pool, whole); printf("live %ld blocks %ld\n", live, blocks); return 0; }
'''
OWN_PORT = r'''
#ifndef VP_OWN_PORT
#define VP_OWN_PORT
#include <port/dstruct-port.h>
extern "C" { void *vp_alloc(int); void vp_free(void *, int); void vp_stop(); }
#ifdef VP_OWN_ASSERT
#define DSTRUCT_PORT_ASSERT(expr) ((expr) ? (void)0 : vp_stop())
#endif
namespace dstruct { namespace port {
using size_t = decltype(sizeof(0));
static void *allocate(int bytes) { return vp_alloc(bytes); }
static void deallocate(void *addr, int bytes) { vp_free(addr, bytes); }
} }
#endif
'''
PRELUDE = r'''
extern "C" { void vp_pool(long long, int); void vp_sink(long long); void vp_live(int); }
struct P { int a; P() : a(0) { vp_live(1); } P(int v) : a(v) { vp_live(1); } P(const P &o) : a(o.a) { vp_live(1); } P &operator=(const P &o) { a = o.a; return *this; } ~P() { vp_live(-1); }
  bool operator==(const P &o) const { return a == o.a; } bool operator!=(const P &o) const { return a != o.a; } bool operator<(const P &o) const { return a < o.a; } bool operator>(const P &o) const { return a > o.a; } };
struct Q { short s; double d; Q(int v = 0) : s((short)v), d(v) { } bool operator==(const Q &o) const { return d == o.d; } bool operator<(const Q &o) const { return d < o.d; } bool operator>(const Q &o) const { return d > o.d; } };
inline long long K(int v) { return v; } inline long long K(long long v) { return v; } inline long long K(char v) { return v; } inline long long K(const P &p) { return p.a; } inline long long K(const Q &q) { return (long long)q.d + 0 * q.s; }
template <class C> void dump(const C &c) { int n = 0; for (auto it = c.begin(); it != c.end(); it++) { vp_sink(K(*it)); n++; } vp_sink(-1000 - n); }
struct Sum { long long *s; void operator()(int v) { *s = *s * 31 + v; } };
inline void put(const char *s) { for (; *s; s++) vp_sink((unsigned char)*s); vp_sink(-1); }
'''


# ---------------------------------------------------------------- elements
class El:
    def __init__(self, cpp, norm):
        self.cpp, self.norm = cpp, norm
    def val(self, k):
        return {'int': '%d', 'long long': '(long long)%d', 'char': '(char)%d', 'P': 'P(%d)', 'Q': 'Q(%d)'}[self.cpp] % k


ELS = [El('int', lambda a: a % 2000 - 1000), El('long long', lambda a: a % 100000 - 50000), El('char', lambda a: 33 + a % 90), El('P', lambda a: a % 300), El('Q', lambda a: a % 200)]


# ---------------------------------------------------------------- containers: model and C++ text
class Box:
    """g: C++ name, m: model.  op() returns C++ lines or None; expected results go to out."""
    static = True           # offered on static memory
    def __init__(self, g, el, r):
        self.g, self.e = g, el
        self.setup(r)
    def setup(self, r):
        self.m = []
    def init(self):
        return ''
    def size(self, out):
        out.append(len(self.m)); out.append(int(not self.m))
        return 'vp_sink((long long)%s.size()); vp_sink(%s.empty() ? 1 : 0);' % (self.g, self.g)
    def order(self):
        return list(self.m)
    def dump(self, out):
        o = self.order(); out.extend(o); out.append(-1000 - len(o))
        return 'dump(%s);' % self.g
    def new(self, a):
        return self.e.norm(a)
    def take(self, other):          # model of copy assignment
        self.m = list(other.m)
    def wipe(self):
        self.m = []


class Vec(Box):
    ops = 'push push push pop back at set fill clear loop own resv'.split()
    def type(self, ns): return '%sVector<%s>' % (ns, self.e.cpp)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a); v = self.e.val(k)
        if o == 'push': m.append(k); return '%s.%s(%s);' % (g, ['push_back', 'push'][b % 2], v)
        if o == 'loop': n = 1 + b % 12; m.extend(self.new(a + i) for i in range(n)); return ' '.join('%s.push_back(%s);' % (g, self.e.val(self.new(a + i))) for i in range(n))
        if not m and o in ('pop', 'back', 'at', 'set', 'own'): return None
        if o == 'pop': m.pop(); return '%s.%s();' % (g, ['pop_back', 'pop'][b % 2])
        if o == 'back': out.append(m[-1]); return 'vp_sink(K(%s.back()));' % g
        if o == 'at': i = b % len(m); out.append(m[i]); return 'vp_sink(K(%s[%d]));' % (g, i)
        if o == 'set': i = b % len(m); m[i] = k; return '%s[%d] = %s;' % (g, i, v)
        if o == 'own': i = b % len(m); m.append(m[i]); return '%s.push_back(%s[%d]);' % (g, g, i)
        if o == 'fill': n = b % 12; m[:] = m[:n] + [k] * max(0, n - len(m)); return '%s.resize(%d, %s);' % (g, n, v)
        if o == 'resv': n = len(m) + b % 9; return '%s.resize(%d);' % (g, n) if n else None
        if o == 'clear':
            if b % 3: return None
            m.clear(); return '%s.clear();' % g


class Lst(Box):
    kind = 'DLinkedList'
    ops = 'pf pb pb popf popb front back clear'.split()
    def type(self, ns): return '%s%s<%s>' % (ns, self.kind, self.e.cpp)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a); v = self.e.val(k)
        if o == 'pf': m.insert(0, k); return '%s.%s(%s);' % (g, 'push_front', v)
        if o == 'pb': m.append(k); return '%s.push_back(%s);' % (g, v)
        if o == 'clear':
            if b % 3: return None
            m.clear(); return '%s.clear();' % g
        if not m: return None
        if o == 'popf': m.pop(0); return '%s.pop_front();' % g
        if o == 'popb':
            if self.kind != 'DLinkedList': return None
            m.pop(); return '%s.pop_back();' % g
        if o == 'front': out.append(m[0]); return 'vp_sink(K(%s.front()));' % g
        if o == 'back': out.append(m[-1]); return 'vp_sink(K(%s.back()));' % g


class SLst(Lst):
    kind = 'SLinkedList'


class Deq(Box):
    ops = 'pf pb pf pb popf popb front back at spin clear'.split()
    def setup(self, r): self.m = []; self.bs = r.choice([1, 2, 3, 5, 32])
    def type(self, ns): return '%sDeque<%s, %d>' % (ns, self.e.cpp, self.bs)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a); v = self.e.val(k)
        if o == 'pf': m.insert(0, k); return '%s.push_front(%s);' % (g, v)
        if o == 'pb': m.append(k); return '%s.push_back(%s);' % (g, v)
        if o == 'spin': n = 1 + b % 9; m.extend([k] * n); return 'for (int i = 0; i < %d; i++) %s.push_back(%s);' % (n, g, v)
        if o == 'clear':
            if b % 3: return None
            m.clear(); return '%s.clear();' % g
        if not m: return None
        if o == 'popf': m.pop(0); return '%s.pop_front();' % g
        if o == 'popb': m.pop(); return '%s.pop_back();' % g
        if o == 'front': out.append(m[0]); return 'vp_sink(K(%s.front()));' % g
        if o == 'back': out.append(m[-1]); return 'vp_sink(K(%s.back()));' % g
        if o == 'at': i = b % len(m); out.append(m[i]); return 'vp_sink(K(%s[%d]));' % (g, i)


class Que(Box):
    ops = 'push push pop front'.split()
    def type(self, ns): return '%sQueue<%s>' % (ns, self.e.cpp)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a)
        if o == 'push': m.append(k); return '%s.push(%s);' % (g, self.e.val(k))
        if not m: return None
        if o == 'pop': m.pop(0); return '%s.pop();' % g
        out.append(m[0]); return 'vp_sink(K(%s.front()));' % g


class Stk(Box):
    ops = 'push push pop top'.split()
    def type(self, ns): return '%sStack<%s>' % (ns, self.e.cpp)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a)
        if o == 'push': m.append(k); return '%s.push(%s);' % (g, self.e.val(k))
        if not m: return None
        if o == 'pop': m.pop(); return '%s.pop();' % g
        out.append(m[-1]); return 'vp_sink(K(%s.top()));' % g


class XStk(Stk):
    ops = 'push push pop top ext ext'.split()
    def setup(self, r): self.m = []; self.mx = r.randrange(2)
    def type(self, ns): return '%s%s<%s>' % (ns, ['MinStack', 'MaxStack'][self.mx], self.e.cpp)
    def size(self, out): out.append(int(not self.m)); return 'vp_sink(%s.empty() ? 1 : 0);' % self.g
    def dump(self, out):
        if not self.m: return ''
        out.append(self.m[-1]); return 'vp_sink(K(%s.top()));' % self.g
    def op(self, o, a, b, out):
        if o != 'ext': return Stk.op(self, o, a, b, out)
        if not self.m: return None
        out.append((max if self.mx else min)(self.m)); return 'vp_sink(K(%s.getXValue()));' % self.g


class Hp(Box):
    ops = 'push push push pop top drain sort'.split()
    def setup(self, r): self.m = []; self.mx = r.randrange(2)
    def type(self, ns): return '%s%s<%s>' % (ns, ['MinHeap', 'MaxHeap'][self.mx], self.e.cpp)
    def first(self): return max(self.m) if self.mx else min(self.m)
    def dump(self, out):
        if not self.m: return ''
        out.append(self.first()); return 'vp_sink(K(%s.top()));' % self.g
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a)
        if o == 'push': m.append(k); return '%s.push(%s);' % (g, self.e.val(k))
        if o == 'sort':     # the static sort, on an array
            n = 2 + b % 7; ks = [self.new(a * 7 + i * i * 13) for i in range(n)]; out.extend(sorted(ks, reverse=bool(self.mx)))
            return '{ %s x[] = { %s }; %s::sort(x, x + %d); for (int i = 0; i < %d; i++) vp_sink(K(x[i])); }' % (self.e.cpp, ', '.join(self.e.val(z) for z in ks), 'T_' + g, n, n)
        if not m: return None
        if o == 'pop': m.remove(self.first()); return '%s.pop();' % g
        if o == 'top': out.append(self.first()); return 'vp_sink(K(%s.top()));' % g
        if o == 'drain':
            if b % 4: return None
            out.extend(sorted(m, reverse=bool(self.mx))); m.clear(); return 'while (!%s.empty()) { vp_sink(K(%s.top())); %s.pop(); }' % (g, g, g)


class Tree(Box):
    ops = 'push push push pop find popabs post clear'.split()
    avl = False
    def type(self, ns): return '%sBSTree<%s>' % (ns, self.e.cpp)
    def order(self): return sorted(self.m)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a); v = self.e.val(k)
        if o == 'push':
            if k in m: return None
            m.append(k); return '%s.push(%s);' % (g, v)
        if o == 'find': out.append(int(k in m)); return 'vp_sink(%s.find(%s) != %s.end() ? 1 : 0);' % (g, v, g)
        if o == 'popabs':
            if k in m: m.remove(k)
            return '%s.pop(%s);' % (g, v)
        if o == 'clear':
            if b % 4 or self.avl: return None
            m.clear(); return '%s.clear();' % g
        if not m: return None
        if o == 'pop': k = sorted(m)[b % len(m)]; m.remove(k); return '%s.pop(%s);' % (g, self.e.val(k))
        if o == 'post':
            out.append(sum(m)); return '{ long long s = 0; for (auto it = %s.begin(T_%s::TraversalType::PostOrder); it != %s.end(T_%s::TraversalType::PostOrder); it++) s += K(*it); vp_sink(s); }' % (g, g, g, g)


class Avl(Tree):
    avl = True
    static = False
    def type(self, ns): return 'dstruct::AVLTree<%s, dstruct::%s<%s>, dstruct::Alloc>' % (self.e.cpp, 'less', self.e.cpp)


class Mp(Box):
    ops = 'set set set get pop has erase sum'.split()
    static = False
    def setup(self, r): self.m = {}; self.v = r.choice(ELS)
    def type(self, ns): return 'dstruct::Map<%s, %s>' % (self.e.cpp, self.v.cpp)
    def dump(self, out):
        for k in sorted(self.m): out.append(k); out.append(self.m[k])
        return 'for (auto it = %s.begin(); it != %s.end(); it++) { vp_sink(K(it->key)); vp_sink(K(it->value)); }' % (self.g, self.g)
    def take(self, other): self.m = dict(other.m)
    def wipe(self): self.m = {}
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a % 40); v = self.e.val(k); w = self.v.norm(b)
        if o == 'set': m[k] = w; return '%s[%s] = %s;' % (g, v, self.v.val(w))
        if o == 'has': out.append(int(k in m)); return 'vp_sink(%s.find(%s) != %s.end() ? 1 : 0);' % (g, v, g)
        if not m: return None
        k = sorted(m)[b % len(m)]; v = self.e.val(k)
        if o == 'get': out.append(m[k]); return '{ const T_%s &c = %s; vp_sink(K(c[%s])); }' % (g, g, v)
        if o == 'pop': del m[k]; return '%s.pop(%s);' % (g, v)
        if o == 'erase':
            del m[k]; rest = [x for x in sorted(m) if x > k]; out.append(rest[0] if rest else -7)
            return '{ auto it = %s.find(%s); it = %s.erase(it); if (it != %s.end()) vp_sink(K(it->key)); else vp_sink(-7); }' % (g, v, g, g)
        if o == 'sum': out.append(sum(m.values())); return '{ long long s = 0; for (auto &kv : %s) s += K(kv.value); vp_sink(s); }' % g


class Uf(Box):
    ops = 'con con same count'.split()
    def setup(self, r): self.n = r.choice([2, 5, 9, 20]); self.m = list(range(self.n))
    def type(self, ns): return '%sUFSet' % ns
    def init(self): return '(%d)' % self.n
    def size(self, out): out.append(len(self.m)); return 'vp_sink((long long)%s.size());' % self.g
    def dump(self, out): out.append(len(set(self.m))); return 'vp_sink((long long)%s.count());' % self.g
    def wipe(self): pass
    def op(self, o, a, b, out):
        g, m = self.g, self.m
        if not m: return None
        x, y = a % len(m), b % len(m)
        if o == 'con': p, q = m[x], m[y]; m[:] = [q if z == p else z for z in m]; return '%s.connect(%d, %d);' % (g, x, y)
        if o == 'same': out.append(int(m[x] == m[y])); return 'vp_sink(%s.connected(%d, %d) ? 1 : 0);' % (g, x, y)
        return self.dump(out)


class Str(Box):
    ops = 'ch ch add cstr at cmp cmp near addself plus set clear'.split()
    def setup(self, r): self.m = []
    def type(self, ns): return '%sString' % ns
    def text(self, a, b): return ''.join(chr((97 + (a * 31 + i * i * b) % 26) if a % 3 else 1 + (a * 31 + i * i * b) % 255) for i in range(b % 20))
    @staticmethod
    def lit(t): return '"%s"' % ''.join(c if 'a' <= c <= 'z' else '\\%03o' % ord(c) for c in t)
    def dump(self, out): out.extend(map(ord, self.m)); out.append(-1); return 'put(%s.c_str());' % self.g
    def op(self, o, a, b, out):
        g, m = self.g, self.m; t = self.text(a, b)
        if o == 'ch': m.append(chr(97 + a % 26)); return "%s.push_back('%s');" % (g, m[-1])
        if o == 'add':
            if len(m) > 120: return None
            m.extend(t); return '%s += %s;' % (g, self.lit(t))
        if o == 'cstr': m[:] = list(t); return '%s = %s;' % (g, self.lit(t))
        if o == 'cmp':
            u = ''.join(m) if a % 2 else t
            return self.compare(u, b, out)
        if o == 'plus':
            w = ''.join(m); res = [w + t, t + w, w + w][a % 3]; out.extend(map(ord, res)); out.append(-1)
            return 'put((%s).c_str());' % ['%s + %s' % (g, self.lit(t)), '%s + %s' % (self.lit(t), g), '%s + %s' % (g, g)][a % 3]
        if o == 'clear':
            if b % 3: return None
            m.clear(); return '%s.clear();' % g
        if not m: return None
        i = b % len(m)
        if o == 'at': out.append(ord(m[i])); return 'vp_sink((unsigned char)%s[%d]);' % (g, i)
        if o == 'near':         # differs in a single bit of one character
            c = ord(m[i]) ^ (1 << a % 8); u = ''.join(m[:i] + [chr(c or 1)] + m[i + 1:]); return self.compare(u, b, out)
        if o == 'set': m[i] = chr(65 + a % 26); return "%s[%d] = '%s';" % (g, i, m[i])
        if o == 'addself':
            if len(m) > 60: return None
            m.extend(list(m)); return '%s += %s;' % (g, g)


    def compare(self, u, b, out):
        eq = u == ''.join(self.m); g, x = self.g, self.lit(u); k = b % 6
        out.append(int(eq if k < 3 else not eq))
        return 'vp_sink(%s ? 1 : 0);' % ['%s == %s' % (g, x), '%s == %s' % (x, g), '%s == T_%s(%s)' % (g, g, x), '%s != %s' % (g, x), '%s != %s' % (x, g), 'T_%s(%s) != %s' % (g, x, g)][k]


class Arr(Box):
    ops = 'set set neg at ends find each'.split()
    def setup(self, r): self.n = r.choice([1, 3, 8, 17]); self.m = [self.e.norm(5)] * self.n
    def type(self, ns): return '%sArray<%s, %d>' % (ns, self.e.cpp, self.n)
    def init(self): return '(%s)' % self.e.val(self.e.norm(5))
    def wipe(self): pass
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a); v = self.e.val(k); i = b % self.n
        if o == 'set': m[i] = k; return '%s[%d] = %s;' % (g, i, v)
        if o == 'neg': m[-1 - i] = k; return '%s[%d] = %s;' % (g, -1 - i, v)
        if o == 'at': out.append(m[i]); return 'vp_sink(K(%s[%d]));' % (g, i)
        if o == 'ends': out += [m[0], m[-1]]; return 'vp_sink(K(%s.front())); vp_sink(K(%s.back()));' % (g, g)
        if o == 'find': out.append(m.index(k) if k in m else -5); return '{ auto it = dstruct::algorithm::find(%s.begin(), %s.end(), %s); vp_sink(it != %s.end() ? (long long)(&*it - &*%s.begin()) : -5); }' % (g, g, v, g, g)
        if o == 'each':
            s = 0
            for x in m: s = (s * 31 + x)
            s = (s + 2**63) % 2**64 - 2**63
            if abs(s) > 2**60 or self.n > 8 or self.e.cpp != 'int': return None
            out.append(s); return '{ long long s = 0; Sum f = { &s }; dstruct::algorithm::for_each(%s.begin(), %s.end(), f); vp_sink(s); }' % (g, g)


class Emb(Box):
    """an intrusive list: circular, nodes in an array"""
    ops = 'add add add del walk'.split()
    N = 12
    def setup(self, r): self.m = []; self.link = r.choice(['DoublyLink_', 'SinglyLink_'])
    def type(self, ns): return 'dstruct::EmbeddedListNode_<%s, dstruct::%s>' % (self.e.cpp, self.link)
    def size(self, out): out.append(int(not self.m)); return 'vp_sink(T_%s::empty(%s) ? 1 : 0);' % (self.g, self.g)
    def dump(self, out):
        out.extend(v for _, v in self.m); out.append(-9)
        return 'for (auto *l = %s->link.next; l != &%s->link; l = l->next) vp_sink(K(T_%s::to_node(l)->data)); vp_sink(-9);' % (self.g, self.g, self.g)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; k = self.new(a)
        if o == 'add':
            used = {i for i, _ in m}; free = [i for i in range(1, self.N) if i not in used]
            if not free: return None
            i = free[a % len(free)]; p = b % (len(m) + 1); prev = 0 if p == 0 else m[p - 1][0]; m.insert(p, (i, k))
            return '%s[%d].data = %s; T_%s::add(%s + %d, %s + %d);' % (g, i, self.e.val(k), g, g, prev, g, i)
        if o == 'del':
            if not m: return None
            p = b % len(m); prev = 0 if p == 0 else m[p - 1][0]; i = m[p][0]; del m[p]; return 'T_%s::del(%s + %d, %s + %d);' % (g, g, prev, g, i)
        return self.dump(out)


class Pool(Box):
    """static memory used directly: one pool per size and program, whichever unit asks"""
    ops = 'get get get give see fill sum'.split()
    N, SIZES = 8, [16, 32, 64, 128, 256]
    def setup(self, r): self.bytes = 4096 + 64 * int(self.g[1:]) + 1024 * r.randrange(3); self.m = {}
    def type(self, ns): return 'dstruct::StaticMemAllocator<%d>' % self.bytes
    def size(self, out): out.append(self.bytes - sum(n for n, _ in self.m.values())); return 'vp_sink(T_%s::free_mem_size());' % self.g
    def dump(self, out): return self.size(out)
    def op(self, o, a, b, out):
        g, m = self.g, self.m; i = a % self.N
        if o == 'get':
            if i in m: return None
            n = self.SIZES[b % 5]; c = b % 100; m[i] = (n, c)
            return '%s[%d] = T_%s::allocate(%d); if (!%s[%d]) vp_sink(-8); for (int i = 0; i < %d; i++) ((char *)%s[%d])[i] = %d;' % (g, i, g, n, g, i, n, g, i, c)
        if o == 'see': return self.size(out)
        if i not in m: return None
        n, c = m[i]
        if o == 'give': del m[i]; return 'T_%s::deallocate(%s[%d], %d);' % (g, g, i, n)
        if o == 'fill': m[i] = (n, b % 100); return 'for (int i = 0; i < %d; i++) ((char *)%s[%d])[i] = %d;' % (n, g, i, b % 100)
        out.append(n * c); return '{ long long s = 0; for (int i = 0; i < %d; i++) s += ((char *)%s[%d])[i]; vp_sink(s); }' % (n, g, i)
    def fini(self): return ' '.join('T_%s::deallocate(%s[%d], %d);' % (self.g, self.g, i, n) for i, (n, _) in self.m.items())


KINDS = {c.__name__: c for c in (Vec, Lst, SLst, Deq, Que, Stk, XStk, Hp, Tree, Avl, Mp, Uf, Str, Arr, Emb, Pool)}


# ---------------------------------------------------------------- a case
def gen_case(seed, i):
    r = random.Random('%d/%d' % (seed, i))
    kinds = list(KINDS)
    boxes = []
    for _ in range(r.choice([2, 2, 3, 3, 4, 5])):
        k = r.choice(kinds); boxes.append([k, r.randrange(len(ELS)), r.randrange(1 << 30)])
        if r.random() < 0.45 and k not in ('Emb', 'Pool'):
            boxes.append(list(boxes[-1]))                 # two of a kind: copies and moves
    n = r.choice([12, 25, 40, 60, 90])
    ops = [[r.randrange(len(boxes)), r.randrange(1 << 16), r.randrange(1 << 20), r.randrange(1 << 20)] for _ in range(n)]
    return {'boxes': boxes, 'ops': ops}


STD_HEADERS = ['cstdio', 'cstdlib', 'cstring', 'vector', 'string', 'algorithm', 'memory', 'new', 'map', 'cstddef', 'utility', 'functional']
FLAGS = ['-fno-exceptions', '-fno-rtti', '-funsigned-char', '-fno-strict-aliasing', '-fno-inline', '-fno-threadsafe-statics', '-fPIC', '-fvisibility=hidden', '-fwrapv', '-fno-builtin', '-fno-elide-constructors', '-fstack-protector-all']
DEFAULT = {'port': 'libc', 'ndebug': 0, 'entry': 'one', 'before': [], 'after': [], 'own_assert': 1, 'tus': [{'cc': 'g++', 'std': '11', 'opt': '-O0', 'flags': []}], 'deal': 0}


def gen_build(r, case):
    static = all(KINDS[b[0]].static for b in case['boxes'])
    ports = ['libc', 'libc', 'sma', 'own', 'own', 'sma-bare'] + (['static', 'static', 'static-only'] if static else [])
    c = {'port': r.choice(ports), 'ndebug': r.randrange(2), 'entry': r.choice(['one', 'one', 'twice', 'both']), 'own_assert': r.randrange(2), 'deal': r.randrange(1 << 16)}
    bare = c['port'] in ('own', 'sma-bare')
    c['before'] = [] if bare else r.sample(STD_HEADERS, r.choice([0, 0, 1, 3]))
    c['after'] = [] if bare else r.sample(STD_HEADERS, r.choice([0, 0, 1, 3]))
    c['tus'] = []
    std = r.choice(['11', '11', '14', '17', '20', '23']); mixed = r.random() < 0.3
    common = r.sample(FLAGS, r.choice([0, 0, 1, 2]))
    for _ in range(r.choice([1, 2, 2, 3])):
        # flags that change what a type or a character is are the same everywhere in one program
        tu = {'cc': r.choice(['g++', 'clang++']), 'std': r.choice(['11', '14', '17', '20', '23']) if mixed else std, 'opt': r.choice(['-O0', '-O1', '-O2', '-O3', '-Os']), 'flags': list(common)}
        c['tus'].append(tu)
    return c


class Program:
    """the concrete program of a case: parts of C++ text and the expected output"""
    def __init__(self, case, static_names, own):
        self.boxes, self.out, self.parts, self.kinds, self.done = [], [], [], set(), 0
        ns = 'dstruct::smemory::' if static_names else 'dstruct::'
        for i, (k, e, s) in enumerate(case['boxes']):
            el = ELS[e]
            self.boxes.append(KINDS[k]('g%d' % i, el, random.Random(s)))
        decl, defs, init, fini = [], [], [], []
        for b in self.boxes:
            t = b.type(ns); g = b.g
            decl.append('typedef %s T_%s; extern T_%s *p_%s;' % (t, g, g, g))
            if isinstance(b, Emb):
                decl.append('#define %s p_%s' % (g, g))
                defs.append('static T_%s m_%s[%d]; T_%s *p_%s = m_%s;' % (g, g, Emb.N, g, g, g)); init.append('T_%s::init(%s);' % (g, g))
            elif isinstance(b, Pool):
                decl[-1] = 'typedef %s T_%s; extern void *p_%s[%d];' % (t, g, g, Pool.N); decl.append('#define %s p_%s' % (g, g))
                defs.append('void *p_%s[%d];' % (g, Pool.N))
            else:
                decl.append('#define %s (*p_%s)' % (g, g))
                defs.append('alignas(16) static char m_%s[sizeof(T_%s)]; T_%s *p_%s;' % (g, g, g, g))
                init.append('p_%s = new (m_%s, (DStructPlacementNewFlag *)0) T_%s%s;' % (g, g, g, b.init() or '()')); fini.append('%s.~T_%s();' % (g, g))
        self.decl, self.defs = decl, defs
        lines = [init]
        for i, code, a, bb in case['ops']:
            if i >= len(self.boxes): continue
            b = self.boxes[i]; o = b.ops[code % len(b.ops)]; l = None; mark = len(self.out)
            twin = [x for x in self.boxes if x is not b and x.type('') == b.type('') and type(x) is type(b)]
            if twin and (code >> 8) % 8 == 0 and not isinstance(b, Emb):
                x = twin[0]
                if getattr(x, 'n', 0) != getattr(b, 'n', 0): continue
                if (code >> 11) % 2: l = '%s = %s;' % (b.g, x.g); b.take(x)
                elif isinstance(b, (Arr, Uf)): continue
                else: l = '%s = dstruct::move(%s);' % (b.g, x.g); b.take(x); x.wipe(); l += ' ' + x.size(self.out)
                l += ' ' + b.dump(self.out)
            else:
                l = b.op(o, a, bb, self.out)
                if l is None: del self.out[mark:]; continue
                if bb % 3 == 0: l += ' ' + b.size(self.out)
            self.done += 1; self.kinds.add((type(b).__name__, o))
            if len(lines[-1]) >= 7: lines.append([])
            lines[-1].append(l)
        end = []
        for b in self.boxes: end.append(b.size(self.out)); end.append(b.dump(self.out))
        lines.append(end); lines.append(fini + [b.fini() for b in self.boxes if isinstance(b, Pool)])
        self.parts = lines
        live = 0
        for b in self.boxes:
            if isinstance(b, Emb) and b.e.cpp == 'P': live += Emb.N        # static nodes outlive main's last line
        self.expect = [str(x) for x in self.out] + ['live %d blocks 0' % live]


def sources(case, build):
    pr = Program(case, build['port'].startswith('static'), build['port'] == 'own')
    entry = 'dstruct-static.hpp' if build['port'] == 'static-only' else 'dstruct.hpp'
    inc = ['#include <%s>' % h for h in build['before']]
    if build['port'] in ('sma', 'sma-bare'): inc.append('#define ENABLE_SMA')
    if build['port'] == 'own' and build['own_assert']: inc.append('#define VP_OWN_ASSERT')
    if build['entry'] == 'both' and build['port'] != 'static-only': inc.append('#include <dstruct-static.hpp>')
    inc.append('#include <%s>' % entry)
    if build['entry'] == 'twice': inc.append('#include <%s>' % entry)
    inc += ['#include <%s>' % h for h in build['after']]
    hdr = '\n'.join(inc) + PRELUDE + '\n'.join(pr.decl) + '\n'
    see = 'vp_pool(dstruct::smemory::SMA::free_mem_size(), %d);' if build['port'].startswith('static') else ''
    k = len(build['tus']); r = random.Random(build['deal']); files = [[] for _ in range(k)]
    for i, ls in enumerate(pr.parts):
        files[0 if i == 0 else r.randrange(k)].append('extern "C" void part_%d() {\n  %s\n}\n' % (i, '\n  '.join([see and see % 1] + ls + [see and see % 0])))
    n = len(pr.parts)
    first = '\n'.join(pr.defs) + '\nextern "C" {\n' + ''.join('void part_%d(); ' % i for i in range(n)) + '\nextern void (*const vp_parts[])() = { ' + ', '.join('part_%d' % i for i in range(n)) + ' };\nextern const int vp_nparts = %d;\n}\n' % n
    texts = ['#include "prog.hpp"\n' + (first if j == 0 else '') + ''.join(f) for j, f in enumerate(files)]
    return pr, hdr, texts


_builtin = {}
def builtin_headers(cc):
    # the headers of C that a compiler has without any library (stddef.h, stdint.h, limits.h ...)
    if cc not in _builtin:
        d = subprocess.run([cc, '-print-file-name=include'], stdout=subprocess.PIPE, text=True).stdout.strip()
        _builtin[cc] = d if os.path.isdir(d) else '/nonexistent'
    return _builtin[cc]


def command(tu, build, work, src, obj):
    cmd = [tu['cc'], '-std=c++' + {'20': '20', '23': '23'}.get(tu['std'], tu['std']), tu['opt'], '-w', '-c'] + tu['flags']
    if build['ndebug']: cmd.append('-DNDEBUG')
    if build['port'] in ('own', 'sma-bare'): cmd += ['-nostdinc', '-nostdinc++', '-ffreestanding', '-isystem', builtin_headers(tu['cc'])]
    if build['port'] == 'own': cmd.append('-I' + os.path.join(work, 'ownport'))
    return cmd + ['-I' + REPO, src, '-o', obj]


class Runner:
    def __init__(self, work):
        self.work = work
        os.makedirs(os.path.join(work, 'ownport', 'port', 'libc'), exist_ok=True)
        open(os.path.join(work, 'ownport', 'port', 'libc', 'libc-dstruct-port.hpp'), 'w').write(OWN_PORT)
        d = os.path.join(work, 'driver.cpp'); open(d, 'w').write(DRIVER)
        subprocess.run(['g++', '-O1', '-w', '-c', d, '-o', os.path.join(work, 'driver.o')], check=True)

    def sh(self, cmd, cwd, t):
        env = dict(os.environ, LC_ALL='C')
        for _ in (1, 2):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=cwd, timeout=t, env=env)
            except subprocess.TimeoutExpired:
                rc, out, err = -999, '', 'did not finish within %d s' % t
                continue
            rc, out, err = p.returncode, p.stdout, p.stderr
            if rc != -9: break          # killed from outside: again
        return rc, out, err

    def build_run(self, case, build):
        """None when the build behaves as predicted, else what differs"""
        pr, hdr, texts = sources(case, build)
        d = tempfile.mkdtemp(dir=self.work)
        try:
            open(os.path.join(d, 'prog.hpp'), 'w').write(hdr)
            objs = []
            for j, (t, tu) in enumerate(zip(texts, build['tus'])):
                s = os.path.join(d, 'tu%d.cpp' % j); open(s, 'w').write(t); o = os.path.join(d, 'tu%d.o' % j)
                rc, out, err = self.sh(command(tu, build, self.work, s, o), d, 120)
                if rc != 0: return pr, 'translation unit %d does not compile:\n%s' % (j, '\n'.join([l for l in err.split('\n') if 'error' in l][:6]) or err[-800:])
                objs.append(o)
            exe = os.path.join(d, 'prog')
            rc, out, err = self.sh(['g++', '-no-pie' if not any('-fPIC' in t['flags'] for t in build['tus']) else '-pie'][:1] + objs + [os.path.join(self.work, 'driver.o'), '-o', exe], d, 120)
            if rc != 0: return pr, 'the program does not link:\n' + err[-1500:]
            rc, out, err = self.sh([exe], d, 30)
            got = out.split()
            got = out.strip().split('\n') if out.strip() else []
            if rc != 0: return pr, 'the program ends with status %d after %d of %d results %s %s' % (rc, len(got), len(pr.expect), got[-1:], err[-300:])
            if got != pr.expect:
                i = next((i for i, (x, y) in enumerate(zip(got, pr.expect)) if x != y), min(len(got), len(pr.expect)))
                return pr, 'result %d is %s, the model says %s' % (i, got[i:i + 1], pr.expect[i:i + 1])
            return pr, None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def shrink(self, case, build, t_end):
        tries = [0]
        def bad(c, b):
            if time.time() > t_end: return False
            tries[0] += 1
            return self.build_run(c, b)[1] is not None
        for key in ('ndebug', 'entry', 'before', 'after', 'own_assert', 'port'):
            if build[key] != DEFAULT[key]:
                b = dict(build); b[key] = DEFAULT[key]
                if bad(case, b): build = b
        if len(build['tus']) > 1:
            for tu in build['tus']:
                b = dict(build, tus=[tu])
                if bad(case, b): build = b; break
        for j in range(len(build['tus'])):
            for key in ('flags', 'std', 'opt', 'cc'):
                b = json.loads(json.dumps(build)); b['tus'][j][key] = DEFAULT['tus'][0][key]
                if b != build and bad(case, b): build = b
        n = 2; ops = case['ops']
        while ops and n <= 2 * len(ops):
            size = max(1, len(ops) // n); hit = False
            for i in range(0, len(ops), size):
                c = dict(case, ops=ops[:i] + ops[i + size:])
                if bad(c, build): ops = c['ops']; case = c; hit = True; break
            if time.time() > t_end: break
            if not hit:
                if size == 1: break
                n *= 2
        i = len(case['boxes']) - 1
        while i >= 0 and len(case['boxes']) > 1:
            c = {'boxes': case['boxes'][:i] + case['boxes'][i + 1:], 'ops': [[o[0] - (o[0] > i)] + o[1:] for o in case['ops'] if o[0] != i]}
            if bad(c, build): case = c
            i -= 1
        return case, build, tries[0]


def write_replay(case, build, why, seed, idx, tries):
    pr, hdr, texts = sources(case, build)
    h = hashlib.sha1(json.dumps([case, build]).encode()).hexdigest()[:12]
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', 'C29-%s.json' % h)
    json.dump({'property': PID, 'failure': why, 'seed': seed, 'case_index': idx, 'shrunk_with_runs': tries, 'case': case, 'build': build,
               'commands': [' '.join(command(tu, build, '.', 'tu%d.cpp' % j, 'tu%d.o' % j)) for j, tu in enumerate(build['tus'])],
               'expected': pr.expect, 'prog.hpp': hdr.split('\n'), 'units': [t.split('\n') for t in texts]}, open(path, 'w'), indent=1)
    return path


def library_compiles(work):
    f = os.path.join(work, 't.cpp'); open(f, 'w').write('#include <dstruct.hpp>\nint main() { return 0; }\n')
    return subprocess.run(['g++', '-std=c++11', '-w', '-I' + REPO, f, '-o', f + '.exe'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def describe(build):
    return '%s%s, %s, %s' % (build['port'], ' NDEBUG' if build['ndebug'] else '', build['entry'], ' + '.join('%s c++%s %s %s' % (t['cc'], t['std'], t['opt'], ' '.join(t['flags'])) for t in build['tus']))


def main(tier, seed):
    t0 = time.time()
    base = os.path.join(ROOT, 'build'); os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix='C29-', dir=base)
    scale = float(os.environ.get('VP_SCALE', '1'))
    cases, per, cap = (260, 3, 420) if tier != 'thorough' else (6000, 5, float(os.environ.get('VP_DEADLINE', '5400')))
    cases = max(8, int(cases * scale)); violation = None; notes = []; code = 0
    try:
        if not library_compiles(work):
            sys.stderr.write('check error: the library does not compile at all\n'); code = 2; return 2
        run = Runner(work); labels = {}; samples = []; seen = set(); evals = nontriv = nops = 0
        def one(i):
            case = gen_case(seed, i); r = random.Random('%d/%d/b' % (seed, i)); res = []
            for _ in range(per):
                b = gen_build(r, case)
                if time.time() - t0 > cap: break
                pr, why = run.build_run(case, b); res.append((b, pr, why))
                if why: break
            return i, case, res
        def lab(k): labels[k] = labels.get(k, 0) + 1
        with cf.ThreadPoolExecutor(NPROC) as ex:
            pend = set(); nxt = 0
            while True:
                while nxt < cases and len(pend) < NPROC * 2 and not violation and time.time() - t0 < cap:
                    pend.add(ex.submit(one, nxt)); nxt += 1
                if not pend: break
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    i, case, res = f.result()
                    for b, pr, why in res:
                        evals += 1; nops += pr.done; h = hashlib.sha1(json.dumps([case, b]).encode()).digest()
                        lab('port ' + b['port']); lab('%d translation units' % len(b['tus'])); lab('entry ' + b['entry'])
                        if b['ndebug']: lab('NDEBUG')
                        for t in b['tus']: lab(t['cc'] + ' c++' + t['std']); lab(t['opt'])
                        for k in {k for k, _ in pr.kinds}: lab('program with ' + k)
                        if pr.done >= 8 and len({k for k, _ in pr.kinds}) >= 2:
                            nontriv += 1; seen.add(h)
                            if len(samples) < 6 and evals % 17 == 1: samples.append({'build': describe(b), 'containers': [x.type('') for x in pr.boxes], 'operations': pr.done, 'results': len(pr.expect), 'statements': [l for p in pr.parts[1:3] for l in p][:8]})
                        if why and not violation:
                            # the same again, before it is believed
                            again = [run.build_run(case, b)[1] for _ in range(2)]
                            if all(again):
                                sys.stderr.write('case %d fails (%s): %s\n' % (i, describe(b), why[:600]))
                                c2, b2, tries = run.shrink(case, b, time.time() + 100)
                                why2 = run.build_run(c2, b2)[1] or why
                                violation = write_replay(c2, b2, why2, seed, i, tries)
                                sys.stderr.write('# failure: %s\n# shrunk: %d operations, %s\n' % (why2[:800], len(c2['ops']), describe(b2)))
                            else: notes.append('case %d failed once and not again: %s' % (i, why[:200]))
        ev = {'property': PID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(seen),
                'rule': 'random programs over 2 to 9 containers of 16 kinds, each compiled in several random builds (standard C++11..23, g++/clang++, optimisation, NDEBUG, libc / static / own memory port without standard headers, include form, 1-3 translation units possibly of different compilers and standards); every result printed must be the one the model predicts, and nothing may stay allocated; non-trivial: at least 8 effective operations on at least 2 kinds of container',
                'samples': samples or ['none'], 'operations_executed': nops, 'nontrivial': nontriv, 'programs': nxt, 'labels': labels, 'exhaustive': False},
              'assumptions': ['the public entry headers are dstruct.hpp and dstruct-static.hpp', 'language standards from C++11 on (the language of xmake.lua)', 'flags that change the ABI are the same in all translation units of a program'],
              'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
        if notes: ev['coverage']['notes'] = notes
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', PID + '.json'); json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            if l.startswith('open: property=%s ' % PID): print('KNOWN-FINDING: ' + l[6:].strip())
        if violation:
            print('VIOLATION property=%s replay=%s' % (PID, violation), flush=True); return 1
        print('%s %s seed %d: held on %d builds of %d programs (%.1f s)' % (PID, tier, seed, evals, nxt, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--replay']:
        d = json.load(open(sys.argv[2])); w = tempfile.mkdtemp()
        try:
            why = Runner(w).build_run(d['case'], d['build'])[1]
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(why or 'held'); sys.exit(1 if why else 0)
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
