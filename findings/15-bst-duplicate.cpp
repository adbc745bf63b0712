// inserting a present value into a BST increases its size
#include "chk.hpp"
int main() { dstruct::BSTree<int> t; t.push(2); t.push(1); t.push(2); CHK(t.size() == 2); t.pop(2); t.pop(1); CHK(t.empty()); }
