// PARTS: 4
#include "suts.hpp"
namespace vp {
void define(Property &P) {
    P.id = "C04";
    P.rule = "histories of pushes/pops at both ends (single, bulk, spinning, draining, self-element pushes), clears and re-fills of double-ended queues with block sizes 1,2,3,4,5,7,8,16,32 over malloc, a recycling allocator and two arenas that place successive blocks adjacently (ascending/descending); non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"element types are copyable and default-constructible", "allocation succeeds", "nothing is removed from an empty deque"};
    ADD0(Machine<DequeAd<int, 1, Alloc>>::suite("Deque<int,1>", F_RENEW | F_SOME));
    ADD1(Machine<DequeAd<int, 2, Alloc>>::suite("Deque<int,2>", F_RENEW | F_SOME));
    ADD2(Machine<DequeAd<int, 3, Alloc>>::suite("Deque<int,3>", F_RENEW | F_SOME));
    ADD3(Machine<DequeAd<int, 4, Alloc>>::suite("Deque<int,4>", F_RENEW | F_SOME));
    ADD0(Machine<DequeAd<int, 5, ArenaAlloc<1>>>::suite("Deque<int,5,ascending>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD1(Machine<DequeAd<int, 2, ArenaAlloc<1>>>::suite("Deque<int,2,ascending>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD2(Machine<DequeAd<int, 4, ArenaAlloc<-1>>>::suite("Deque<int,4,descending>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD3(Machine<DequeAd<int, 8, ArenaAlloc<1>>>::suite("Deque<int,8,ascending>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 400));
    ADD0(Machine<DequeAd<int, 7, LifoAlloc>>::suite("Deque<int,7,LIFO>", F_RENEW | F_SOME));
    ADD1(Machine<DequeAd<int, 32, Alloc>>::suite("Deque<int,32>", F_RENEW | F_SOME));
    ADD2(Machine<DequeAd<Str, 3, Alloc>>::suite("Deque<Str,3>", F_RENEW | F_SOME));
    ADD3(Machine<DequeAd<Str, 32, Alloc>>::suite("Deque<Str,32>", F_RENEW | F_SOME));
    ADD0(Machine<DequeAd<Wide, 4, Alloc>>::suite("Deque<Wide,4>", F_RENEW | F_SOME));
    ADD1(Machine<DequeAd<double, 16, Alloc>>::suite("Deque<double,16>", F_RENEW | F_SOME));
    ADD2(Machine<DequeAd<char, 8, Alloc>>::suite("Deque<char,8>", F_RENEW | F_SOME));
    P.quickCases = 22000; P.thoroughCases = 800000;
}
}
