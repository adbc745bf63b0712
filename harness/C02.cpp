// PARTS: 3
#include "suts.hpp"
namespace vp {
template <class T, int N> static Suite one(const char *n, int share = 8) { return Machine<ArrayAd<T, N>>::suite(n, F_RENEW | F_COPY | F_MOVE | F_WATCHALL, R_OPS, share, Hooks(), N > 1000 ? 24 : 300); }
void define(Property &P) {
    P.id = "C02";
    P.rule = "histories of slot writes (positive/negative index, iterator), fills, swaps, copies and moves over up to three arrays, for N in {0,1,2,3,4,7,16,33,100,300,600,40000,70000} and five element types; non-trivial: at least 6 effective operations of at least 3 kinds";
    P.assumptions = {"indices are within [-N, N)"};
    ADD0(one<int, 1>("Array<int,1>"));
    ADD1(one<int, 2>("Array<int,2>"));
    ADD2(one<int, 3>("Array<int,3>"));
    ADD0(one<int, 7>("Array<int,7>"));
    ADD1(one<int, 33>("Array<int,33>"));
    ADD2(one<int, 100>("Array<int,100>"));
    ADD0(one<Str, 4>("Array<Str,4>"));
    ADD1(one<Str, 1>("Array<Str,1>"));
    ADD2(one<Wide, 16>("Array<Wide,16>"));
    ADD0(one<double, 5>("Array<double,5>"));
    ADD1(one<Big, 3>("Array<Big,3>"));
    ADD2(one<int, 0>("Array<int,0>"));
    ADD0(one<Str, 0>("Array<Str,0>"));
    ADD1((one<int, 300>("Array<int,300>", 4)));
    ADD0((one<Str, 600>("Array<Str,600>", 1)));
    ADD2((one<char, 40000>("Array<char,40000>", 1)));
    ADD1((one<int, 70000>("Array<int,70000>", 1)));
    P.quickCases = 40000; P.thoroughCases = 1000000;
}
}
