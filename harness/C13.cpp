// PARTS: 1
#include "suts.hpp"
namespace vp {
void define(Property &P) {
    P.id = "C13";
    P.rule = "histories of connections (random, repeated, between representatives, long chains in either direction, bulk) and queries on disjoint sets of 1 to 1500 elements against a naive partition; non-trivial: at least 6 effective operations of at least 3 kinds on at least 3 elements";
    P.assumptions = {"indices are within [0, size)", "union_set is only given representatives of different sets"};
    ADD0(Machine<UFAd<Alloc>>::suite("DisjointSet", F_RENEW | F_SOME, R_OPS, 3, Hooks(), 300));
    ADD0(Machine<UFAd<LifoAlloc>>::suite("DisjointSet<LIFO>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 300));
    ADD0(Machine<UFAd<Alloc>>::suite("DisjointSet,copied", F_RENEW | F_COPY | F_MOVE | F_WATCHALL, R_OPS, 1, Hooks(), 200));
    P.quickCases = 18000; P.thoroughCases = 800000;
}
}
