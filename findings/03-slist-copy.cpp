// copying a singly linked list repeats its first element and adopts the source's last node as tail
#include "chk.hpp"
int main() { dstruct::SLinkedList<int> a; for (int i = 0; i < 4; i++) a.push_back(i); dstruct::SLinkedList<int> b(a); int k = 0; for (int x : b) CHK(x == k++); CHK(k == 4 && b.back() == 3);
  b.push_back(9); CHK(b.size() == 5 && b.back() == 9 && a.back() == 3 && a.size() == 4); k = 0; for (int x : b) { CHK(x == (k < 4 ? k : 9)); k++; } CHK(k == 5); }
