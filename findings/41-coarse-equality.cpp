// a min/max stack decided by < on push and by == on pop, so it lost elements where == is coarser than the order.
#include "chk.hpp"
struct E { int v; E(int k = 0) : v(k) { } bool operator==(const E &o) const { return v / 10 == o.v / 10; } bool operator<(const E &o) const { return v < o.v; } };
int main() {
    dstruct::stack::XValueStack<E, dstruct::less<E>> s;
    s.push(E(11)); s.push(E(15)); s.pop();
    CHK(!s.empty() && s.top().v == 11 && s.getXValue().v == 11);
}
