// a moved-from String has a huge size and no terminator
#include "chk.hpp"
int main() { dstruct::String s("abc"), t(dstruct::move(s)); CHK(t == "abc"); CHK(s.size() == 0 && s.empty() && s.c_str()[0] == 0); s.push_back('x'); CHK(s == "x"); dstruct::String u; u = dstruct::move(t); CHK(t.empty()); t += "q"; CHK(t == "q" && u == "abc"); }
