// FLAGS: -std=gnu++20
// distance(begin, end) in Heap was ambiguous with std::distance for elements of the standard library.
#include "chk.hpp"
int main() {
    std::string a[] = { "c", "a", "b" };
    dstruct::Heap<std::string, dstruct::less<std::string>> h(a, a + 3); CHK(h.size() == 3 && h.top() == "a");
}
