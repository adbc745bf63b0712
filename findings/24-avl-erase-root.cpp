// erasing the root with at most one child by iterator leaves the tree pointing to freed memory
#include "chk.hpp"
int main() { using A = dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc>; A a; a.push(1); a.erase(a.begin()); CHK(a.empty() && a.begin() == a.end()); a.push(1); a.push(2); auto it = a.erase(a.find(1)); CHK(a.size() == 1 && *it == 2 && *a.begin() == 2); }
