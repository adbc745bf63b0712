// memory_merge leaves adjacent free blocks apart
#include "chk.hpp"
#include <memory/StaticMemAllocator.hpp>
using S = dstruct::StaticMemAllocator<4096>;
int main() { unsigned r = 7; for (int k = 0; k < 200; k++) { void *p[64]; int z[64], n = 0; for (; n < 40; n++) { r = r * 1103515245 + 12345; z[n] = 1 + (r >> 16) % (k % 2 ? 60 : 200); p[n] = S::allocate(z[n]); if (!p[n]) break; } while (n) { r = r * 1103515245 + 12345; int i = (r >> 16) % n; S::deallocate(p[i], z[i]); n--; p[i] = p[n]; z[i] = z[n]; } S::memory_merge(); CHK(S::free_mem_size() == 4096); CHK(S::max_free_mblock_size() == 4096); } }
