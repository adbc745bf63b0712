// a deque never gives memory back: a queue used at constant length grows without bound
#include "chk.hpp"
int main() { dstruct::Deque<int, 4> q; for (int i = 0; i < 10; i++) q.push_back(i); for (int i = 0; i < 100000; i++) { q.push_back(i); q.pop_front(); CHK(q.capacity() <= 400); }
  for (int i = 0; i < 1000; i++) q.push_back(i); while (q.size() > 3) q.pop_back(); CHK(q.capacity() <= 400); for (int i = 0; i < 1000; i++) q.push_front(i); while (q.size() > 3) q.pop_front(); CHK(q.capacity() <= 400); }
