// FLAGS: -fsanitize=alignment
// the static pool starts at offset 4 of its object: blocks are not aligned to SMA_MEM_ALIGN
#include "chk.hpp"
int main() { using S = dstruct::StaticMemAllocator<1024>; for (int i = 1; i < 40; i++) { void *p = S::allocate(i); CHK(p && (size_t)p % SMA_MEM_ALIGN == 0); S::deallocate(p, i); } }
