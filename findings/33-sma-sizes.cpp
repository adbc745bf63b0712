// sizes <= 0 and sizes near INT_MAX are served: index -1, or a block that overlaps the rest of the pool
#include "chk.hpp"
#include <climits>
#include <memory/StaticMemAllocator.hpp>
using S = dstruct::StaticMemAllocator<4096>;
int main() { int f = S::free_mem_size(); for (int n : {0, -1, -8, -100, INT_MIN, INT_MAX, INT_MAX - 3, 4097, 100000}) { CHK(S::allocate(n) == nullptr); CHK(S::free_mem_size() == f); } void *p = S::allocate(4096); CHK(p && S::free_mem_size() == 0); S::deallocate(p, 4096); }
