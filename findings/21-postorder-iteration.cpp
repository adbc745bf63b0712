// post-order iteration: wrong first node and wrong successor
#include "chk.hpp"
#include <vector>
int main() { dstruct::BSTree<int> t; for (int x : {4, 2, 6, 3, 5, 7}) t.push(x); std::vector<int> c; for (auto it = t.begin(dstruct::BSTree<int>::PostOrder); it != t.end(dstruct::BSTree<int>::PostOrder); ++it) { c.push_back(*it); CHK(c.size() < 20); } CHK((c == std::vector<int>{3, 2, 5, 7, 6, 4})); }
