// CXX: g++
// elements with an initializer_list constructor were wrapped into a list by T { e } instead of being copied.
#include "chk.hpp"
#include <initializer_list>
struct E { int v; E(int k) : v(k) { } E(std::initializer_list<E> l) : v(l.size() ? -1 : 0) { } bool operator<(const E &o) const { return v < o.v; } };
int main() {
    dstruct::AVLTree<E, dstruct::less<E>, dstruct::Alloc> t; t.push(E(5)); CHK((*t.begin()).v == 5);
    dstruct::tree::BinarySearchTree<E, dstruct::less<E>, dstruct::Alloc> b; b.push(E(6)); CHK((*b.begin()).v == 6);
    dstruct::Map<int, E> m; m.push(dstruct::Map<int, E>::KeyValueType(1, E(7))); CHK(m.begin()->value.v == 7);
}
