// PARTS: 1
// FUZZ: no
#include "sma.hpp"
namespace vp {
// three allocators at once
static Suite mixed(int share) {
    typedef Sma<4096, 128> A; typedef Sma<4096, 64> B; typedef Sma<10240, 128> C;
    Suite s; s.name = "three pools"; s.weights = A::w(); s.share = share; s.isolated = true; s.maxLen = 400; pool_base<A::A, 4096>(); pool_base<B::A, 4096>(); pool_base<C::A, 10240>();
    s.run = [](Ctx &c) {
        A a(c, false, " A "); B b(c, false, " B "); C d(c, false, " C ");
        for (auto &o : c.c->ops) { int k = (o.b >> 20) % 3; if (k == 0) a.op(o); else if (k == 1) b.op(o); else d.op(o); if ((c.eff & 7) == 0) { a.verifyAll(); b.verifyAll(); d.verifyAll(); } }
        struct R { char *lo, *hi; } r[3] = {{a.base, a.base + 4096}, {b.base, b.base + 4096}, {d.base, d.base + 10240}};
        for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (r[i].lo < r[j].hi && r[j].lo < r[i].hi) c.fail("static allocators: the pools %d and %d overlap", i, j);
        a.finish(); b.verifyAll(); d.verifyAll(); b.finish(); d.verifyAll(); d.finish();
        if (a.allocs + b.allocs + d.allocs >= 12 && a.frees + b.frees + d.frees >= 6) c.interesting("three pools in use together");
    };
    return s;
}
void define(Property &P) {
    P.id = "C20";
    P.rule = "histories of requests (tiny to the whole pool, exact multiples of 8, around the quick-list limit, invalid), returns in every order, fills to exhaustion, churn and merges on pools of 256 bytes to 64 KB with three quick-list limits, and on three pools at once; every block is filled with its own pattern and verified until it is returned; each case runs in its own process on a pristine pool; non-trivial: eight requests, three returns and two requests served after a return";
    P.assumptions = {"blocks are returned once with the size requested", "the pool size is a positive multiple of 8 of at least 16 bytes and the quick-list limit at least 8"};
    P.suites.push_back(Sma<1024, 128>::suite("pool 1024", false, 3)); P.suites.push_back(Sma<10240, 128>::suite("pool 10240", false, 2)); P.suites.push_back(Sma<256, 64>::suite("pool 256 quick 64", false, 2)); P.suites.push_back(Sma<512, 8>::suite("pool 512 quick 8", false, 1)); P.suites.push_back(Sma<2048, 32>::suite("pool 2048 quick 32", false, 1)); P.suites.push_back(Sma<65536, 256>::suite("pool 65536 quick 256", false, 1)); P.suites.push_back(mixed(2));
    P.suites.push_back(Sma<3145728, 128>::suite("pool 3 MB (1 case in 32)", false, 1));
    P.quickCases = 20000; P.thoroughCases = 400000;
}
}
