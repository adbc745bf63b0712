// push_back / resize(n, x) with one of the vector's own elements while it must reallocate
#include "chk.hpp"
int main() { dstruct::Vector<std::string> a; a.push_back("a long enough string to be on the heap 1"); a.push_back("b"); a.push_back(a[0]); CHK(a[2] == a[0]); 
  dstruct::Vector<int> v(2, 7); v.push_back(v[0]); CHK(v[2] == 7); v.resize(40, v[1]); CHK(v[39] == 7); dstruct::Vector<int> w(3, 5); w.push(w[1]); CHK(w[3] == 5); }
