// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
void define(Property &P) {
    P.id = "C12";
    P.rule = "histories of keyed writes, insertions, default creations, removals by key and through iterators, look-ups, constant reads, bulk runs, drains and clears of maps over five key/value type combinations and three orders; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 entries held at some point";
    P.assumptions = {"the comparison is a strict weak order", "push is only used for absent keys, constant subscript only for present ones", "iterators passed to erase denote an entry"};
    ADD0(Machine<MapAd<int, int, less<int>, Alloc>>::suite("Map<int,int>", F_RENEW | F_SOME, R_OPS, 3, Hooks(), 400));
    ADD1(Machine<MapAd<Str, int, less<Str>, Alloc>>::suite("Map<Str,int>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 400));
    ADD2(Machine<MapAd<int, Str, greater<int>, Alloc>>::suite("Map<int,Str,greater>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 400));
    ADD3(Machine<MapAd<Str, Str, less<Str>, Alloc>>::suite("Map<Str,Str>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD3(Machine<MapAd<char, double, less<char>, Alloc>>::suite("Map<char,double>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD0(Machine<MapAd<int, Wide, less<int>, LifoAlloc>>::suite("Map<int,Wide,LIFO>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
