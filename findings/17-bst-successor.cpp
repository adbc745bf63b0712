// deleting a BST node with two children follows the wrong link
#include "chk.hpp"
int main() { dstruct::BSTree<int> t; int v[] = {50, 20, 80, 60, 90, 55, 65, 10, 30}; for (int x : v) t.push(x); t.pop(50); CHK(t.size() == 8); t.pop(80); t.pop(20); int w[] = {10, 30, 55, 60, 65, 90}; int k = 0; for (int x : t) CHK(x == w[k++]); CHK(k == 6);
  dstruct::BSTree<int> s; s.push(2); s.push(1); s.push(3); s.pop(2); CHK(s.size() == 2 && *s.begin() == 1); }
