// A request whose size in bytes does not fit the allocator's int was truncated: 2^30 ints were backed by 0 bytes, 2^30 + 1 by 4 bytes.
#include "chk.hpp"
#include <csignal>
#include <sys/wait.h>
template <class F> static void stops(F f) { // the program must be stopped by the library, not by the sanitizer (exit 77)
    pid_t p = fork(); if (!p) { signal(SIGSEGV, SIG_DFL); f(); _exit(0); } int s; waitpid(p, &s, 0); CHK(WIFSIGNALED(s)); }
int main() {
    stops([] { dstruct::Vector<int> v; v.push_back(1); v.resize(1ull << 30); });
    stops([] { dstruct::Vector<int> v; v.resize((1ull << 30) + 1, 7); });
    stops([] { dstruct::Vector<long> v((1ull << 61) + 1, 5); });
    stops([] { dstruct::Vector<char> v((1ull << 32) + 1, 5); });
}
