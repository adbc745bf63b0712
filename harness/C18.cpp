// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, int B> using DQ = dstruct::DoubleEndedQueue<T, B>;
static const unsigned F = F_COPY | F_MOVE | F_RENEW;
template <class Ad> static Suite cs(const char *n, int share = 1, unsigned f = F | F_SELF) { return Machine<Ad>::suite(n, f, R_LIFE, share, life_hooks(), 200); }
void define(Property &P) {
    P.id = "C18";
    P.rule = "the container histories of the other properties (operations, copies, moves, swaps, destruction) over an element type that registers every construction, copy, comparison, assignment and destruction by address and detects byte-wise relocation; after every step the number of live elements must equal the content plus a fixed allowance for sentinels; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"allocation succeeds", "a linked list, heap, queue or stack may keep one default-constructed sentinel, an extreme-value stack up to one duplicate per element"};
    ADD0(cs<VectorAd<Trk, Alloc>>("Vector", 3));
    ADD1(cs<VectorAd<Trk, LifoAlloc>>("Vector,LIFO", 1));
    ADD2((cs<ArrayAd<Trk, 5>>("Array<5>", 1, F)));
    ADD2((cs<ArrayAd<Trk, 0>>("Array<0>", 1, F)));
    ADD3(cs<ListAd<dstruct::SinglyLinkedList<Trk, Alloc>>>("SinglyLinkedList", 2));
    ADD1(cs<ListAd<dstruct::DoublyLinkedList<Trk, Alloc>>>("DoublyLinkedList", 2));
    ADD3((cs<DequeAd<Trk, 4, Alloc>>("Deque<4>", 2)));
    ADD0((cs<DequeAd<Trk, 1, LifoAlloc>>("Deque<1>,LIFO")));
    ADD2((cs<DequeAd<Trk, 32, Alloc>>("Deque<32>")));
    ADD2((cs<QueueAd<Trk, DQ<Trk, 32>, true>>("Queue,deque")));
    ADD1((cs<QueueAd<Trk, dstruct::SinglyLinkedList<Trk>, false>>("Queue,slist")));
    ADD3((cs<StackAd<Trk, dstruct::Vector<Trk>>>("Stack,vector")));
    ADD0((cs<StackAd<Trk, dstruct::DoublyLinkedList<Trk>>>("Stack,dlist")));
    ADD0((cs<XStackAd<Trk, dstruct::MinStack<Trk>, 1>>("MinStack")));
    ADD1((cs<HeapAd<Trk, DirCmp<Trk>, Alloc>>("Heap,stateful", 2)));
    ADD3((cs<TreeAd<dstruct::tree::BinarySearchTree<Trk, DirCmp<Trk>, Alloc>>>("BST,stateful", 2)));
    ADD0((cs<TreeAd<dstruct::AVLTree<Trk, DirCmp<Trk>, Alloc>>>("AVL,stateful", 2)));
    ADD1((cs<TreeAd<dstruct::AVLTree<Trk, less<Trk>, LifoAlloc>>>("AVL,LIFO")));
    ADD2((cs<MapAd<int, Trk, less<int>, Alloc>>("Map<int,Trk>")));
    ADD3((cs<MapAd<Trk, int, less<Trk>, LifoAlloc>>("Map<Trk,int>,LIFO")));
    ADD0(cs<VectorAd<TrkB, Alloc>>("Vector,large")); ADD1(cs<VectorAd<Trk1, Alloc>>("Vector,byte"));
    ADD1((cs<ArrayAd<TrkB, 4>>("Array<4>,large", 1, F))); ADD2((cs<ArrayAd<Trk1, 7>>("Array<7>,byte", 1, F)));
    ADD2(cs<ListAd<dstruct::DoublyLinkedList<TrkB, Alloc>>>("DoublyLinkedList,large")); ADD3(cs<ListAd<dstruct::SinglyLinkedList<Trk1, Alloc>>>("SinglyLinkedList,byte"));
    ADD3((cs<DequeAd<TrkB, 3, Alloc>>("Deque<3>,large"))); ADD0((cs<DequeAd<Trk1, 5, Alloc>>("Deque<5>,byte")));
    ADD1((cs<HeapAd<TrkB, DirCmp<TrkB>, Alloc>>("Heap,large"))); ADD2((cs<HeapAd<Trk1, DirCmp<Trk1>, Alloc>>("Heap,byte")));
    ADD3((cs<TreeAd<dstruct::tree::BinarySearchTree<TrkB, DirCmp<TrkB>, Alloc>>>("BST,large"))); ADD0((cs<TreeAd<dstruct::AVLTree<Trk1, DirCmp<Trk1>, Alloc>>>("AVL,byte")));
    ADD1((cs<MapAd<int, TrkB, less<int>, Alloc>>("Map<int,large>")));
    P.quickCases = 36000; P.thoroughCases = 800000;
}
}
