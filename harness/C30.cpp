// PARTS: 4
#include "nest.hpp"
namespace vp {
template <class E> using Vec = dstruct::Vector<E, NA>;
template <class E> using SL = dstruct::SinglyLinkedList<E, NA>;
template <class E> using DL = dstruct::DoublyLinkedList<E, NA>;
template <class E, int B = 3> using Deq = dstruct::DoubleEndedQueue<E, B, NA>;
template <class E> using Que = dstruct::adapter::Queue<E, Deq<E, 2>>;
template <class E> using QueL = dstruct::adapter::Queue<E, SL<E>>;
template <class E> using Stk = dstruct::adapter::Stack<E, Vec<E>>;
template <class E> using Hp = dstruct::Heap<E, ByText<E>, NA>;
template <class E> using Bst = dstruct::tree::BinarySearchTree<E, ByText<E>, NA>;
template <class E> using Avl = dstruct::AVLTree<E, ByText<E>, NA>;
template <class E> using Mp = NMap<E>;
template <class E, int N> using Arr = dstruct::Array<E, N>;
#define NEST(...) Nest<__VA_ARGS__>::suite(#__VA_ARGS__)
void define(Property &P) {
    P.id = "C30";
    P.rule = "histories over up to three values each made of containers of containers (two to four levels, 34 combinations of all container kinds, and records that hold containers of records): operations at random depths, own elements as arguments, copies, moves and swaps of elements and of whole values, against a tree of plain values, with every block and every element registered; non-trivial: at least 6 effective operations of at least 2 kinds, with at least 12 values held at some point";
    P.assumptions = {"allocation succeeds", "an element is not assigned from a part of itself (a copy of the part is)"};
    ADD0(NEST(Vec<Vec<Trk>>)); ADD0(NEST(Vec<NStr>)); ADD0(NEST(Vec<Vec<Vec<Vec<Trk>>>>)); ADD0(NEST(DL<Vec<NStr>>)); ADD0(NEST(Deq<SL<Trk>>)); ADD0(NEST(Rec<Vec>)); ADD0(NEST(SL<DL<SL<Trk>>>));
    ADD1(NEST(Mp<Vec<Deq<Trk>>>)); ADD1(NEST(Que<Stk<Vec<Trk>>>)); ADD1(NEST(Arr<Mp<NStr>, 3>)); ADD1(NEST(Vec<Mp<DL<Arr<Trk, 2>>>>)); ADD1(NEST(Mp<Rec<Vec>>)); ADD1(NEST(Mp<Mp<Mp<Trk>>>)); ADD1(NEST(Bst<Vec<Trk>>));
    ADD2(NEST(SL<QueL<Deq<Trk>>>)); ADD2(NEST(Hp<Vec<Trk>>)); ADD2(NEST(Vec<Hp<Trk>>)); ADD2(NEST(Vec<Bst<NStr>>)); ADD2(NEST(DL<Rec<Vec>>)); ADD2(NEST(Deq<Deq<Deq<Trk>>>)); ADD2(NEST(Avl<DL<Trk>>));
    ADD3(NEST(SL<Vec<Rec<Vec>>>)); ADD3(NEST(Stk<Mp<Que<Trk>>>)); ADD3(NEST(DL<Avl<Vec<Trk>>>)); ADD3(NEST(Hp<Hp<Trk>>)); ADD3(NEST(Deq<NStr, 1>)); ADD3(NEST(Bst<Bst<Trk>>)); ADD3(NEST(Mp<Hp<NStr>>)); ADD3(NEST(DL<Deq<Vec<NStr>>>));
    ADD2(NEST(Arr<Arr<NStr, 6>, 3>)); ADD0(NEST(Vec<Arr<Deq<Trk>, 2>>)); ADD3(NEST(Vec<Deq<Trk>>)); ADD1(NEST(Vec<DL<NStr>>)); ADD3(NEST(Deq<Mp<Trk>, 2>)); ADD0(NEST(Hp<Deq<Trk>>)); ADD2(NEST(Hp<DL<Trk>>)); ADD1(NEST(DL<DL<Vec<Trk>>>)); ADD3(NEST(Vec<Hp<Deq<Trk>>>)); ADD2(NEST(Mp<Stk<Deq<Trk, 1>>>)); ADD1(NEST(Rec<Vec>));
    P.quickCases = 40000; P.thoroughCases = 300000;
}
}
