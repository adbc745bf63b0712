// copying or moving an AVL tree or map shares its nodes: freed twice
#include "chk.hpp"
int main() { { dstruct::Map<int, Life> m; for (int i = 0; i < 20; i++) m[i] = Life(i); dstruct::Map<int, Life> n(m); n[3] = Life(77); CHK(m[3].v == 3); n.pop(5); CHK(m.size() == 20 && n.size() == 19); dstruct::Map<int, Life> o(dstruct::move(n)); CHK(n.empty() && o.size() == 19 && o[3].v == 77); n[1] = Life(5); o = m; CHK(o[3].v == 3); m = dstruct::move(n); CHK(m.size() == 1); } CHK(Life::n() == 0);
  dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> a; for (int i = 0; i < 9; i++) a.push(i); auto b = a; b.pop(3); CHK(a.size() == 9 && b.size() == 8); a = dstruct::move(b); CHK(a.size() == 8 && b.empty()); }
