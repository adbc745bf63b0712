// s += s never ends
#include "chk.hpp"
int main() { alarm(5); dstruct::String s("abc"); s += s; CHK(s.size() == 6 && !strcmp(s.c_str(), "abcabc")); dstruct::String e; e += e; CHK(e.empty() && e.size() == 0); }
