// PARTS: 3
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
void define(Property &P) {
    P.id = "C07";
    P.rule = "histories of range construction, pushes, pops, replace-top, bulk runs and drains of heaps/priority queues under less, greater and a comparison object with run-time state, values from tiny alphabets (duplicates) to extremes and sorted runs; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"the comparison is a strict weak order", "nothing is read or removed from an empty heap"};
    ADD0(Machine<HeapAd<int, less<int>, Alloc>>::suite("MinHeap<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD1(Machine<HeapAd<int, greater<int>, Alloc>>::suite("MaxHeap<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD2(Machine<HeapAd<int, DirCmp<int>, Alloc>>::suite("Heap<int,stateful>", F_RENEW | F_SOME, R_OPS, 2));
    ADD0(Machine<HeapAd<Str, less<Str>, Alloc>>::suite("MinHeap<Str>", F_RENEW | F_SOME));
    ADD1(Machine<HeapAd<Str, greater<Str>, Alloc>>::suite("MaxHeap<Str>", F_RENEW | F_SOME));
    ADD2(Machine<HeapAd<char, less<char>, Alloc>>::suite("MinHeap<char>", F_RENEW | F_SOME));
    ADD0(Machine<HeapAd<double, greater<double>, Alloc>>::suite("MaxHeap<double>", F_RENEW | F_SOME));
    ADD1(Machine<HeapAd<Wide, less<Wide>, Alloc>>::suite("MinHeap<Wide>", F_RENEW | F_SOME));
    ADD2(Machine<HeapAd<Str, DirCmp<Str>, LifoAlloc>>::suite("Heap<Str,stateful,LIFO>", F_RENEW | F_SOME));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
