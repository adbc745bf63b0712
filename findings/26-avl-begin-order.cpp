// AVL begin(order)/end(order) ignore the requested order
#include "chk.hpp"
#include <vector>
int main() { using A = dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc>; A a; for (int i = 1; i <= 7; i++) a.push(i); std::vector<int> v; for (auto it = a.begin(A::PreOrder); it != a.end(A::PreOrder); ++it) v.push_back(*it); CHK((v == std::vector<int>{4, 2, 1, 3, 6, 5, 7})); }
