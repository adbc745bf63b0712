// connecting two already connected elements makes the set a cycle
#include "chk.hpp"
int main() { dstruct::UFSet s(6); s.connect(0, 1); s.connect(0, 1); s.connect(1, 0); s.connect(3, 3); CHK(s.count() == 5 && s.connected(0, 1) && !s.connected(0, 3) && s.connected(3, 3)); }
