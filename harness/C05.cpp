// PARTS: 4
#include "suts.hpp"
namespace vp {
template <class T, int B> using DQ = dstruct::DoubleEndedQueue<T, B>;
void define(Property &P) {
    P.id = "C05";
    P.rule = "interleavings of pushes, pops, bulk runs, rotations and drains on Queue over deque (several block sizes), singly and doubly linked list, and Stack over vector, deque and doubly linked list; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"element types are copyable and default-constructible", "allocation succeeds", "nothing is removed from an empty adapter"};
    ADD0(Machine<QueueAd<int, DQ<int, 32>, true>>::suite("Queue<int,deque32>", F_RENEW | F_SOME, R_OPS, 2));
    ADD1(Machine<QueueAd<int, DQ<int, 4>, true>>::suite("Queue<int,deque4>", F_RENEW | F_SOME));
    ADD2(Machine<QueueAd<Str, DQ<Str, 32>, true>>::suite("Queue<Str,deque32>", F_RENEW | F_SOME));
    ADD3(Machine<QueueAd<int, dstruct::SinglyLinkedList<int>, false>>::suite("Queue<int,slist>", F_RENEW | F_SOME));
    ADD0(Machine<QueueAd<Str, dstruct::SinglyLinkedList<Str>, false>>::suite("Queue<Str,slist>", F_RENEW | F_SOME));
    ADD1(Machine<QueueAd<int, dstruct::DoublyLinkedList<int>, false>>::suite("Queue<int,dlist>", F_RENEW | F_SOME));
    ADD2(Machine<QueueAd<Wide, dstruct::DoublyLinkedList<Wide>, false>>::suite("Queue<Wide,dlist>", F_RENEW | F_SOME));
    ADD3(Machine<StackAd<int, dstruct::Vector<int>>>::suite("Stack<int,vector>", F_RENEW | F_SOME, R_OPS, 2));
    ADD0(Machine<StackAd<Str, dstruct::Vector<Str>>>::suite("Stack<Str,vector>", F_RENEW | F_SOME));
    ADD1(Machine<StackAd<Big, dstruct::Vector<Big>>>::suite("Stack<Big,vector>", F_RENEW | F_SOME));
    ADD2(Machine<StackAd<int, DQ<int, 8>>>::suite("Stack<int,deque8>", F_RENEW | F_SOME));
    ADD3(Machine<StackAd<Str, DQ<Str, 32>>>::suite("Stack<Str,deque32>", F_RENEW | F_SOME));
    ADD0(Machine<StackAd<int, dstruct::DoublyLinkedList<int>>>::suite("Stack<int,dlist>", F_RENEW | F_SOME));
    ADD1(Machine<StackAd<double, dstruct::DoublyLinkedList<double>>>::suite("Stack<double,dlist>", F_RENEW | F_SOME));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
