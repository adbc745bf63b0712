// String("") reads past the terminator
#include "chk.hpp"
int main() { char *b = (char *)malloc(1); b[0] = 0; dstruct::String s(b); CHK(s.empty() && s.size() == 0 && s.c_str()[0] == 0); CHK(s == ""); s += "ab"; CHK(s == "ab"); s += ""; CHK(s == "ab" && s.size() == 2); s = ""; CHK(s.empty()); free(b); }
