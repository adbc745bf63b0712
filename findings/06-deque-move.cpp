// a moved deque's iterators still point to the block table of its source
#include "chk.hpp"
int main() { dstruct::Deque<int> *a = new dstruct::Deque<int>; for (int i = 0; i < 100; i++) a->push_back(i); dstruct::Deque<int> b(dstruct::move(*a)); CHK(a->empty()); a->push_back(1); delete a;
  for (int i = 0; i < 100; i++) { CHK(b[i] == i); } for (int i = 100; i < 400; i++) b.push_back(i); int k = 0; for (int x : b) CHK(x == k++); CHK(k == 400); }
