// SinglyLinkedList::push/pop (inherited) leave the cached last node stale
#include "chk.hpp"
int main() { dstruct::SLinkedList<int> a; a.push(1); CHK(a.back() == 1); a.push_back(2); CHK(a.back() == 2 && a.front() == 1 && a.size() == 2);
  a.pop(); a.pop(); CHK(a.empty()); a.push_back(5); CHK(a.front() == 5 && a.back() == 5); int k = 0; for (int x : a) { CHK(x == 5); k++; } CHK(k == 1); }
