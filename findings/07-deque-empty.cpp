// begin()/end() of a fresh or cleared deque are uninitialised or dangling
#include "chk.hpp"
int main() { Junk<dstruct::Deque<int>> q; CHK(q->begin() == q->end()); for (int x : *q) CHK(false); for (int i = 0; i < 100; i++) q->push_front(i); q->clear(); CHK(q->begin() == q->end()); for (int x : *q) CHK(false);
  Junk<dstruct::Deque<int>> r; *r = dstruct::move(*q); CHK(r->begin() == r->end()); CHK(q->begin() == q->end()); dstruct::Deque<int> c(*q); CHK(c.begin() == c.end()); }
