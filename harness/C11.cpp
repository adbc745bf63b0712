// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, class C = less<T>, class A = Alloc> using B = TreeAd<dstruct::tree::BinarySearchTree<T, C, A>, false, true>;
template <class T, class C = less<T>, class A = Alloc> using V = TreeAd<dstruct::AVLTree<T, C, A>, false, true>;
void define(Property &P) {
    P.id = "C11";
    P.rule = "tree states reached by insertion/removal histories; in every state all three orders are listed by callback and by iterator and compared with the listings derived from the search-tree shape that the pre-order listing determines; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"the comparison is a strict weak order"};
    ADD0(Machine<B<int>>::suite("BST<int>", F_RENEW | F_SOME, R_OPS, 4, Hooks(), 200));
    ADD1(Machine<V<int>>::suite("AVL<int>", F_RENEW | F_SOME, R_OPS, 3, Hooks(), 200));
    ADD2(Machine<B<int, greater<int>>>::suite("BST<int,greater>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 200));
    ADD3(Machine<V<int, greater<int>>>::suite("AVL<int,greater>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 200));
    ADD2(Machine<B<Str>>::suite("BST<Str>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 200));
    ADD3(Machine<V<Str>>::suite("AVL<Str>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 200));
    P.quickCases = 24000; P.thoroughCases = 800000;
}
}
