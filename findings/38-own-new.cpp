// elements whose class has an operator new of its own could not be held: construct() used new(addr, flag) T, which looks into T first.
#include "chk.hpp"
struct E { int v; E(int k) : v(k) { } static void *operator new(size_t n) { return ::operator new(n); } static void operator delete(void *p) { ::operator delete(p); } };
int main() {
    dstruct::Vector<E> v; v.push_back(E(1)); v.push_back(E(2)); CHK(v.size() == 2 && v[1].v == 2);
    dstruct::Deque<E> d; d.push_front(E(3)); CHK(d.front().v == 3);
}
