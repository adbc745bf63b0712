// removing an absent value from a non-empty BST / AVL tree / map dereferences null
#include "chk.hpp"
int main() { dstruct::BSTree<int> t; t.push(5); t.push(2); t.pop(9); t.pop(3); CHK(t.size() == 2); dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> a; a.push(5); a.push(2); a.pop(9); a.pop(3); a.pop(1); CHK(a.size() == 2); dstruct::Map<int, int> m; m[3] = 4; m.pop(8); CHK(m.size() == 1); }
