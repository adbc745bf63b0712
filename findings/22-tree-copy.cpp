// BST copy does not compile
#include "chk.hpp"
int main() { dstruct::BSTree<Life> t; for (int x : {4, 2, 6, 3, 5, 7}) t.push(Life(x)); { dstruct::BSTree<Life> u(t), w; w = u; w.pop(Life(4)); CHK(t.size() == 6 && u.size() == 6 && w.size() == 5); int k = 2; for (auto &x : u) CHK(x.v == k++); CHK(k == 8); } CHK(Life::n() == 6); }
