// in-order and post-order traversal start below the root and skip most of the tree
#include "chk.hpp"
#include <vector>
int main() { dstruct::BSTree<int> t; for (int x : {4, 2, 6, 1, 3, 5, 7}) t.push(x); std::vector<int> a, b, c; auto f = [](std::vector<int> &v) { return [&v](int x) { v.push_back(x); }; };
  t.traversal(f(a), dstruct::BSTree<int>::PreOrder); t.traversal(f(b), dstruct::BSTree<int>::InOrder); t.traversal(f(c), dstruct::BSTree<int>::PostOrder);
  CHK((a == std::vector<int>{4, 2, 1, 3, 6, 5, 7})); CHK((b == std::vector<int>{1, 2, 3, 4, 5, 6, 7})); CHK((c == std::vector<int>{1, 3, 2, 5, 7, 6, 4})); }
