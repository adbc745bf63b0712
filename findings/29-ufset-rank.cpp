// unions ignore the ranks: chains as long as the set, find overflows the stack
#include "chk.hpp"
int main() { const int n = 2000000; dstruct::UFSet s(n); for (int i = n - 1; i > 0; i--) s.connect(i - 1, i); CHK(s.count() == 1 && s.connected(0, n - 1)); }
