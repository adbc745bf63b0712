// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, int B> using DQ = dstruct::DoubleEndedQueue<T, B>;
static const unsigned F = F_COPY | F_RENEW | F_WATCHALL;
template <class Ad> static Suite cs(const char *n, int share = 1) { return Machine<Ad>::suite(n, F, R_COPY, share, Hooks(), 300); }
void define(Property &P) {
    P.id = "C16";
    P.rule = "histories over up to three objects of one container type mixing its operations with copy construction, copy assignment onto objects in any state, self-assignment and destruction; after every step every object is compared with its own model; non-trivial: at least 6 effective operations of at least 3 kinds, at least 3 elements held, and an operation on a copy (or its source) of a non-empty object";
    P.assumptions = {"element types are copyable", "allocation succeeds", "disjoint sets and arrays have no empty state and are not moved from"};
    ADD0(cs<VectorAd<int, Alloc>>("Vector<int>"));
    ADD1(cs<VectorAd<Str, Alloc>>("Vector<Str>"));
    ADD2((cs<ArrayAd<int, 5>>("Array<int,5>")));
    ADD2((cs<ArrayAd<Str, 3>>("Array<Str,3>")));
    ADD2((cs<ArrayAd<int, 1>>("Array<int,1>")));
    ADD3(cs<ListAd<dstruct::SinglyLinkedList<Str, Alloc>>>("SinglyLinkedList<Str>"));
    ADD0(cs<ListAd<dstruct::SinglyLinkedList<int, LifoAlloc>>>("SinglyLinkedList<int,LIFO>"));
    ADD1(cs<ListAd<dstruct::DoublyLinkedList<Str, Alloc>>>("DoublyLinkedList<Str>"));
    ADD2(cs<ListAd<dstruct::DoublyLinkedList<int, LifoAlloc>>>("DoublyLinkedList<int,LIFO>"));
    ADD3((cs<DequeAd<int, 4, Alloc>>("Deque<int,4>")));
    ADD0((cs<DequeAd<Str, 32, LifoAlloc>>("Deque<Str,32,LIFO>")));
    ADD1((cs<DequeAd<int, 1, Alloc>>("Deque<int,1>")));
    ADD2((cs<QueueAd<Str, DQ<Str, 32>, true>>("Queue<Str>")));
    ADD3((cs<StackAd<Str, dstruct::Vector<Str>>>("Stack<Str>")));
    ADD0((cs<XStackAd<Str, dstruct::MinStack<Str>, 1>>("MinStack<Str>")));
    ADD1((cs<HeapAd<Str, DirCmp<Str>, Alloc>>("Heap<Str,stateful>")));
    ADD2((cs<HeapAd<int, less<int>, LifoAlloc>>("Heap<int,LIFO>")));
    ADD3((cs<TreeAd<dstruct::tree::BinarySearchTree<Str, DirCmp<Str>, Alloc>>>("BST<Str,stateful>")));
    ADD0((cs<TreeAd<dstruct::tree::BinarySearchTree<int, less<int>, LifoAlloc>>>("BST<int,LIFO>")));
    ADD1((cs<TreeAd<dstruct::AVLTree<Str, DirCmp<Str>, Alloc>, true>>("AVL<Str,stateful>")));
    ADD2((cs<TreeAd<dstruct::AVLTree<int, less<int>, LifoAlloc>, true>>("AVL<int,LIFO>")));
    ADD3((cs<MapAd<int, Str, less<int>, Alloc>>("Map<int,Str>")));
    ADD0((cs<MapAd<Str, int, greater<Str>, LifoAlloc>>("Map<Str,int,LIFO>")));
    ADD1(cs<UFAd<Alloc>>("DisjointSet"));
    ADD2(cs<StringAd<Alloc>>("String"));
    ADD3(cs<StringAd<LifoAlloc>>("String<LIFO>"));
    P.quickCases = 22000; P.thoroughCases = 800000;
}
}
