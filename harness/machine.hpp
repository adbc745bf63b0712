// Generic stateful machine: up to three objects of one container type, each
// with a model; container operations, creation/destruction, copy, move, swap.
#pragma once
#include "allocs.hpp"
#include <deque>
#include <new>

#include <dstruct.hpp>

namespace vp {

enum : unsigned { F_COPY = 1, F_MOVE = 2, F_LIFE = 4, F_WATCHALL = 8, F_RENEW = 16, F_SELF = 32, F_EMPTYOPS = 64,
    F_FEW = 128,                       // copies and moves in every fourth history only
    F_SOME = F_COPY | F_MOVE | F_FEW };
enum : unsigned { R_OPS = 0, R_COPY = 1, R_MOVE = 2, R_EMPTY = 4, R_LIFE = 8 };

struct OpDef { const char *name; int w; };
#ifndef VP_HUGE
#define VP_HUGE 1152               // one history in so many
#endif
static size_t g_big = 1;               // giant histories: bulk operations are this many times larger

struct Hooks {                         // extra oracles a property adds
    std::function<void(Ctx &)> begin, end;
    std::function<void(Ctx &, size_t totalModel, size_t slack)> after;
};

template <class Ad> struct Machine {
    using Obj = typename Ad::Obj; using Model = typename Ad::Model;
    static const int N = 3;
    struct Slot { void *mem = nullptr; Obj *o = nullptr; Model m; bool fromMove = false, fromCopy = false, cleared = false; };
    enum { S_NEW, S_DEL, S_COPYC, S_COPYA, S_MOVEC, S_MOVEA, S_SELFA, S_SELFM, S_SWAP, S_COUNT };

    static std::vector<int> weights(unsigned f) {
        std::vector<int> w; for (auto &o : Ad::ops()) w.push_back(o.w);
        int t = 0; for (int x : w) t += x; int u = std::max(1, t / 40);
        w.push_back(f & F_RENEW ? u : 0); w.push_back(f & F_RENEW ? u : 0);
        int v = f & F_FEW ? 1 : 2;
        w.push_back(f & F_COPY ? u * v : 0); w.push_back(f & F_COPY ? u * v * 2 : 0);
        w.push_back(f & F_MOVE ? u * v : 0); w.push_back(f & F_MOVE ? u * v * 2 : 0);
        w.push_back(f & F_COPY ? u : 0); w.push_back(f & F_MOVE && f & F_SELF ? u : 0);
        w.push_back(f & F_MOVE ? u * 2 : 0);
        return w;
    }
    static Suite suite(const std::string &name, unsigned f, unsigned rule = R_OPS, int share = 1, Hooks h = Hooks(), int maxLen = 1200) {
        Suite s; s.name = name; s.weights = weights(f); s.share = share; s.maxLen = maxLen;
        s.run = [=](Ctx &c) { run(c, f, rule, h); };
        return s;
    }
    static void alloc(Slot &s, Ctx &c) {
        static const unsigned char pat[4] = {0xFF, 0x00, 0xA5, 0x01};
        size_t al = std::max<size_t>(16, alignof(Obj)), sz = (sizeof(Obj) + al - 1) / al * al;
        s.mem = aligned_alloc(al, sz); memset(s.mem, pat[c.hdr(1) % 4], sz);
    }
    static void kill(Slot &s) { if (s.o) { s.o->~Obj(); s.o = nullptr; } if (s.mem) free(s.mem); s.mem = nullptr; s.m = Model(); s.fromMove = s.fromCopy = s.cleared = false; }
    static void renew(Env &e, Slot &s, uint32_t a) { kill(s); alloc(s, e.ctx); s.o = Ad::construct(e, s.mem, s.m, a); }

    static void run(Ctx &c, unsigned f, unsigned rule, const Hooks &h) {
        reset_allocs(); g_life.reset(); Ad::reset();
        if (h.begin) h.begin(c);
        {
            Env e(c); Slot s[N];
            
#ifdef VP_NO_GIANT
            g_big = 1;
#else
            { uint32_t z = c.hdr(3) >> 4; g_big = z % 192 == 5 ? Ad::giant : Ad::giant > 1 && z % VP_HUGE == 69 % VP_HUGE ? 128 : 1; }
#endif
             size_t total = c.c->ops.size(); if (g_big > 1) { total = std::min<size_t>(total, g_big > 16 ? 16 : 70); }
            bool multi = (f & (F_COPY | F_MOVE)) && (!(f & F_FEW) || c.hdr(3) % 4 == 3);
            renew(e, s[0], c.hdr(2)); if (multi) renew(e, s[1], c.hdr(2) >> 8);
            Ad::check(e, *s[0].o, s[0].m, 2);
            int nops = (int)Ad::ops().size(); unsigned kinds = 0, done = 0; size_t peak = 0;
            bool copyUsed = false, moveUsed = false, emptyUsed = false;
            for (size_t i = 0; i < total; i++) {
                Op op = c.c->ops[i]; if (g_big > 1 && i % 4 == 1 && Ad::growOp >= 0) { op.code = Ad::growOp; if (g_big > 16 && i % 8 == 1) op.b = (op.b & ~0xffu) | 14 | (op.b >> 30); }
                int k = multi ? (op.b >> 20) % N : 0, j = (op.b >> 24) % N;
                Slot &t = s[k]; Slot &u = s[j == k ? (k + 1) % N : j];
                bool ok = true;
                if (op.code < nops) {
                    if (!t.o) renew(e, t, op.a);
                    if (c.trace) c.log("[%zu] #%d.%s a=%u b=%u size=%zu", i, k, Ad::ops()[op.code].name, op.a, op.b & 0xfffff, (size_t)Ad::msize(t.m));
                    bool wasEmpty = Ad::msize(t.m) == 0;
                    ok = Ad::apply(e, *t.o, t.m, op.code, op.a, op.b & 0xfffff);
                    if (ok) {
                        if (t.fromCopy) { copyUsed = true; }
                        if (t.fromMove && Ad::msize(t.m)) { moveUsed = true; }
                        if (wasEmpty && done > 2) { emptyUsed = true; if (Ad::msize(t.m)) c.label("refilled after being empty"); }
                        kinds |= 1u << (op.code % 32);
                    }
                } else if (!multi && op.code - nops >= S_COPYC) ok = false;
                else switch (op.code - nops) {
                case S_NEW: c.log("[%zu] #%d = new object", i, k); renew(e, t, op.a); break;
                case S_DEL: c.log("[%zu] destroy #%d", i, k); kill(t); break;
                case S_COPYC: if constexpr (Ad::copyable) { if (!u.o) { ok = false; break; }
                    c.log("[%zu] #%d = copy-construct from #%d (size %zu)", i, k, (int)(&u - s), (size_t)Ad::msize(u.m));
                    kill(t); alloc(t, c); t.o = new (t.mem) Obj(*(const Obj *)u.o); t.m = u.m; t.fromCopy = u.fromCopy = Ad::msize(u.m) > 0; if (t.fromCopy) c.label("copy of non-empty"); } else ok = false; break;
                case S_COPYA: if constexpr (Ad::copyable) { if (!u.o) { ok = false; break; } if (!t.o) renew(e, t, op.a);
                    c.log("[%zu] #%d (size %zu) = copy of #%d (size %zu)", i, k, (size_t)Ad::msize(t.m), (int)(&u - s), (size_t)Ad::msize(u.m));
                    if (Ad::msize(t.m) && Ad::msize(u.m)) c.label("copy assignment over non-empty");
                    Obj &r = (*t.o = *(const Obj *)u.o); VP_CHECK(c, &r == t.o, "copy assignment did not return its target"); t.m = u.m; t.fromCopy = u.fromCopy = Ad::msize(u.m) > 0; } else ok = false; break;
                case S_MOVEC: if (!u.o) { ok = false; break; }
                    c.log("[%zu] #%d = move-construct from #%d (size %zu)", i, k, (int)(&u - s), (size_t)Ad::msize(u.m));
                    kill(t); alloc(t, c); t.o = new (t.mem) Obj(static_cast<Obj &&>(*u.o)); t.m = u.m; Ad::moved(u.m); t.fromMove = u.fromMove = true; if (Ad::msize(t.m)) c.label("move of non-empty"); else c.label("move of empty");
                    if (!Ad::reusable) { kill(u); } break;
                case S_MOVEA: if (!u.o) { ok = false; break; } if (!t.o) renew(e, t, op.a);
                    c.log("[%zu] #%d (size %zu) = move of #%d (size %zu)", i, k, (size_t)Ad::msize(t.m), (int)(&u - s), (size_t)Ad::msize(u.m));
                    if (Ad::msize(t.m) && Ad::msize(u.m)) c.label("move assignment over non-empty"); if (!Ad::msize(u.m)) c.label("move of empty");
                    { Obj &r = (*t.o = static_cast<Obj &&>(*u.o)); VP_CHECK(c, &r == t.o, "move assignment did not return its target"); } t.m = u.m; Ad::moved(u.m); t.fromMove = u.fromMove = true;
                    if (!Ad::reusable) { kill(u); } break;
                case S_SELFA: if constexpr (Ad::copyable) { if (!t.o) { ok = false; break; } c.log("[%zu] #%d = itself (copy)", i, k); { const Obj &r = *t.o; *t.o = r; } c.label("self copy-assignment"); } else ok = false; break;
                case S_SELFM: if (!t.o) { ok = false; break; } c.log("[%zu] #%d = itself (move)", i, k); { Obj *r = t.o; *t.o = static_cast<Obj &&>(*r); } c.label("self move-assignment"); break;
                case S_SWAP: if (!t.o || !u.o || !Ad::reusable) { ok = false; break; } c.log("[%zu] swap #%d #%d", i, k, (int)(&u - s)); dstruct::swap(*t.o, *u.o); std::swap(t.m, u.m); t.fromMove = u.fromMove = true; c.label("swap"); break;
                default: ok = false;
                }
                if (!ok) { if (c.sh) c.sh->skippedOps++; continue; }
                done++; c.did((uint64_t)op.code << 40 ^ op.a ^ (uint64_t)k << 60);
                size_t tot = 0, slack = 0, live = 0;
                for (auto &x : s) if (x.o) { size_t z = Ad::msize(x.m); tot += z; slack += Ad::slack(x.m); live++; if (z > peak) peak = z; }
                // the objects named by the operation always, the others when small or now and then
                bool all = (f & F_WATCHALL) || op.code >= nops;
                for (auto &x : s) if (x.o) {
                    bool touched = &x == &t || (op.code >= nops && &x == &u);
                    if (!touched && !all) continue;
                    size_t z = Ad::msize(x.m);
                    int lvl = z <= 40 || (z <= 400 && (done & 3) == 0) || (done & 31) == 0 || op.code >= nops ? 2 : 1;
                    if (!touched && z > 100 && (done & 7)) lvl = 1;
                    if (z > 4000 && lvl == 2 && op.code < nops && (done & 31) && done > 3) lvl = 1;
                    Ad::check(e, *x.o, x.m, lvl);
                }
                if (h.after) h.after(c, tot, slack);
            }
            for (auto &x : s) if (x.o) Ad::check(e, *x.o, x.m, 2);
            if (c.sh && peak > c.sh->maxSize) c.sh->maxSize = peak;
            if (peak >= 33) c.label("peak size >= 33"); if (peak >= 200) c.label("peak size >= 200"); if (peak >= 1000) c.label("peak size >= 1000"); if (peak >= 5000) c.label("peak size >= 5000"); if (peak >= 20000) c.label("peak size >= 20000"); if (peak >= 66000) c.label("peak size >= 66000");
            int nk = __builtin_popcount(kinds);
            bool ok = done >= 6 && nk >= 3 && peak >= 3;
            if (rule & R_COPY) ok = ok && copyUsed;
            if (rule & R_MOVE) ok = ok && moveUsed;
            if (rule & R_EMPTY) ok = done >= 2 && emptyUsed;
            if (ok) c.nontriv = 1;
            c.log("end: destroy all");
            for (auto &x : s) kill(x);
            if (h.after) h.after(c, 0, 0);
        }
        if (h.end) h.end(c);
    }
};

// lifetime oracle: nothing alive beyond the content, nothing alive at the end
static inline Hooks life_hooks() {
    Hooks h;
    h.after = [](Ctx &c, size_t tot, size_t slack) {
        size_t live = g_life.live.size();
        if (live > tot + slack) c.fail("%zu elements are alive while the containers hold %zu (allowance %zu): removed elements were not destroyed", live, tot, slack);
        if (live < tot) c.fail("%zu elements are alive while the containers hold %zu", live, tot);
    };
    h.end = [](Ctx &c) { if (!g_life.live.empty()) c.fail("%zu elements were never destroyed (%llu constructed, %llu destroyed)", g_life.live.size(), (unsigned long long)g_life.ctor, (unsigned long long)g_life.dtor); };
    return h;
}
template <int TAG> static inline Hooks track_hooks() {
    Hooks h;
    h.end = [](Ctx &c) { auto &s = TrackAlloc<TAG>::st(); if (!s.blk.empty()) c.fail("%zu blocks (%ld bytes) were never returned to the allocator (%llu handed out)", s.blk.size(), s.bytes, (unsigned long long)s.allocs); };
    return h;
}
} // namespace vp
