// PARTS: 1
// FUZZ: no
#include "sma.hpp"
namespace vp {
void define(Property &P) {
    P.id = "C21";
    P.rule = "the histories of the placement property with the books checked after every step: free size, success of a request against the largest block reported, refused requests, merges (largest block against the longest free run, and every free run taken as one block, longest first), and the whole pool at the end; non-trivial: eight requests, three returns and two requests served after a return";
    P.assumptions = {"blocks are returned once with the size requested", "the pool size is a positive multiple of 8 of at least 16 bytes and the quick-list limit at least 8"};
    P.suites.push_back(Sma<1024, 128>::suite("pool 1024", true, 4)); P.suites.push_back(Sma<10240, 128>::suite("pool 10240", true, 2)); P.suites.push_back(Sma<256, 64>::suite("pool 256 quick 64", true, 2)); P.suites.push_back(Sma<512, 8>::suite("pool 512 quick 8", true, 1)); P.suites.push_back(Sma<2048, 32>::suite("pool 2048 quick 32", true, 2)); P.suites.push_back(Sma<4096, 100>::suite("pool 4096 quick 100", true, 1)); P.suites.push_back(Sma<65536, 256>::suite("pool 65536 quick 256", true, 1)); P.suites.push_back(Sma<64, 16>::suite("pool 64 quick 16", true, 1));
    P.suites.push_back(Sma<3145728, 128>::suite("pool 3 MB (1 case in 32)", true, 1));
    P.quickCases = 20000; P.thoroughCases = 400000;
}
}
