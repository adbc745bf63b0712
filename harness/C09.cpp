// PARTS: 4
#include "suts.hpp"
namespace vp {
using dstruct::less; using dstruct::greater;
template <class T, class C = less<T>, class A = Alloc> using B = TreeAd<dstruct::tree::BinarySearchTree<T, C, A>>;
void define(Property &P) {
    P.id = "C09";
    P.rule = "histories of insertions (new and present values), removals by value (present, absent, through a reference into the tree), removals through iterators (found, first, k-th, while iterating), bulk runs, drains, range construction and clears of binary search trees under less, greater and a comparison object with run-time state; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"the comparison is a strict weak order", "iterators passed to erase denote an element of the tree", "allocation succeeds"};
    ADD0(Machine<B<int>>::suite("BST<int>", F_RENEW | F_SOME, R_OPS, 4, Hooks(), 300));
    ADD1(Machine<B<int, greater<int>>>::suite("BST<int,greater>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 300));
    ADD2(Machine<B<int, DirCmp<int>>>::suite("BST<int,stateful>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 300));
    ADD3(Machine<B<Str>>::suite("BST<Str>", F_RENEW | F_SOME, R_OPS, 2, Hooks(), 300));
    ADD0(Machine<B<char>>::suite("BST<char>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 300));
    ADD1(Machine<B<double>>::suite("BST<double>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 300));
    ADD2(Machine<B<Wide, greater<Wide>>>::suite("BST<Wide,greater>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 300));
    ADD3(Machine<B<Str, DirCmp<Str>, LifoAlloc>>::suite("BST<Str,stateful,LIFO>", F_RENEW | F_SOME, R_OPS, 1, Hooks(), 300));
    P.quickCases = 30000; P.thoroughCases = 800000;
}
}
