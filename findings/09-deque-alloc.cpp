// a deque with another allocator does not compile, and its block table ignores the allocator
#include "chk.hpp"
struct CA { static int &n() { static int k; return k; } static void *allocate(int b) { n() += b; return malloc(b); } static void deallocate(void *p, int b) { n() -= b; free(p); } };
int main() { { dstruct::Deque<int, 4, CA> q; for (int i = 0; i < 50; i++) q.push_back(i); for (int i = 0; i < 50; i++) CHK(q[i] == i); CHK(CA::n() >= 50 * 4 + 13 * 8); dstruct::smemory::Deque<int> s; s.push_back(3); CHK(s.front() == 3); dstruct::smemory::Queue<int> w; w.push(3); CHK(w.front() == 3); } CHK(CA::n() == 0); }
