// with blocks adjacent in memory, the end of one block and the start of another compare equal
#include "chk.hpp"
#include <deque>
template <int D> struct Adj { static void *allocate(int b) { static char *buf = (char *)malloc(1 << 24); static size_t o = D > 0 ? 0 : 1 << 24; b = (b + 7) / 8 * 8; if (D < 0) o -= b; void *p = buf + o; if (D > 0) o += b; return p; } static void deallocate(void *, int) {} };
template <int D, int B> void go() { unsigned r = 1; for (int t = 0; t < 40; t++) { dstruct::Deque<long, B, Adj<D>> q; std::deque<long> m; for (int i = 0; i < 60; i++) { r = r * 1664525 + 1013904223; switch (r >> 30) { case 0: q.push_back(i); m.push_back(i); break; case 1: q.push_front(i); m.push_front(i); break; case 2: if (!m.empty()) { q.pop_back(); m.pop_back(); } break; default: if (!m.empty()) { q.pop_front(); m.pop_front(); } }
  size_t n = 0; for (long x : q) { CHK(n < m.size() && x == m[n]); n++; } CHK(n == m.size()); if (n) CHK(q.front() == m.front() && q.back() == m.back()); } } }
int main() { go<1, 1>(); go<1, 2>(); go<1, 3>(); go<-1, 1>(); go<-1, 2>(); go<-1, 3>(); }
