// moving a heap onto itself empties it
#include "chk.hpp"
int main() { dstruct::MinHeap<int> h; for (int i = 0; i < 9; i++) h.push(9 - i); dstruct::MinHeap<int> &r = h; h = dstruct::move(r); CHK(h.size() == 9 && h.top() == 1); }
