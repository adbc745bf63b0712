// Vector copy construction/assignment runs destructors on memory that holds no element
#include "chk.hpp"
int main() { { dstruct::Vector<Life> a; for (int i = 0; i < 5; i++) a.push_back(Life(i)); dstruct::Vector<Life> b(a), c; c.push_back(Life(7)); c = a; CHK(b.size() == 5 && c[4].v == 4); CHK(Life::n() == 15); } CHK(Life::n() == 0); }
