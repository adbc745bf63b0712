// reading a constant map through [] does not compile
#include "chk.hpp"
int main() { dstruct::Map<int, int> m; m[3] = 9; const auto &c = m; CHK(c[3] == 9); }
