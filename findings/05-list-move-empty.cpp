// moving from an empty list leaves links to the source's head in the target
#include "chk.hpp"
template <class L> void go() { L *a = new L; L *b = new L(dstruct::move(*a)); delete a; CHK(b->empty() && b->begin() == b->end()); b->push_back(1); b->push_front(0); int k = 0; for (int x : *b) CHK(x == k++); CHK(k == 2); L c; *b = dstruct::move(c); CHK(b->empty()); b->push_back(3); CHK(b->front() == 3 && b->back() == 3 && c.empty()); delete b; }
int main() { go<dstruct::DLinkedList<int>>(); go<dstruct::SLinkedList<int>>(); }
