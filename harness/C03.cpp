// PARTS: 4
#include "suts.hpp"
namespace vp {
template <class T, class A = Alloc> using SL = ListAd<dstruct::SinglyLinkedList<T, A>>;
template <class T, class A = Alloc> using DL = ListAd<dstruct::DoublyLinkedList<T, A>>;
void define(Property &P) {
    P.id = "C03";
    P.rule = "histories of insertions and removals at both ends through every operation offered, element writes through iterators, clears, drains and re-fills of singly and doubly linked lists over five element types; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"element types are copyable and default-constructible", "allocation succeeds", "nothing is removed from an empty list"};
    ADD0(Machine<SL<int>>::suite("SinglyLinkedList<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD1(Machine<DL<int>>::suite("DoublyLinkedList<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD2(Machine<SL<Str>>::suite("SinglyLinkedList<Str>", F_RENEW | F_SOME));
    ADD3(Machine<DL<Str>>::suite("DoublyLinkedList<Str>", F_RENEW | F_SOME));
    ADD0(Machine<SL<char>>::suite("SinglyLinkedList<char>", F_RENEW | F_SOME));
    ADD1(Machine<DL<double>>::suite("DoublyLinkedList<double>", F_RENEW | F_SOME));
    ADD2(Machine<SL<Wide>>::suite("SinglyLinkedList<Wide>", F_RENEW | F_SOME));
    ADD3(Machine<DL<Wide>>::suite("DoublyLinkedList<Wide>", F_RENEW | F_SOME));
    ADD0(Machine<SL<int, LifoAlloc>>::suite("SinglyLinkedList<int,LIFO>", F_RENEW | F_SOME));
    ADD1(Machine<DL<int, LifoAlloc>>::suite("DoublyLinkedList<int,LIFO>", F_RENEW | F_SOME));
    P.quickCases = 40000; P.thoroughCases = 1000000;
}
}
