// BST::erase computes the node from the element address, wrong for over-aligned elements
#include "chk.hpp"
struct alignas(32) W { int v; bool operator<(const W &o) const { return v < o.v; } };
int main() { dstruct::BSTree<W> t; for (int i = 0; i < 9; i++) t.push(W{i * 5 % 9}); auto it = t.erase(t.find(W{4})); CHK((*it).v == 5 && t.size() == 8); }
