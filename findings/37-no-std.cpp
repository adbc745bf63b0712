// FLAGS: -DENABLE_SMA
// "no dependent std-lib": with the static memory port the library must not include standard headers (it included <cstdio>).
#include <dstruct.hpp>
#if defined(_STDIO_H) || defined(_GLIBCXX_CSTDIO) || defined(EOF)
#error "a standard library header is included"
#endif
int main() { dstruct::Vector<int> v; v.push_back(1); return v.size() == 1 ? 0 : 1; }
