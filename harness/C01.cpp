// PARTS: 3
#include "suts.hpp"
namespace vp {
void define(Property &P) {
    P.id = "C01";
    P.rule = "histories of Vector operations (push/pop/index writes/iterator writes/resize/clear/drain/alias pushes/bulk growth) over six element types; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"element types are copyable and default-constructible", "allocation succeeds", "indices are within [-size, size)"};
    ADD0(Machine<VectorAd<int, Alloc>>::suite("Vector<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD1(Machine<VectorAd<Str, Alloc>>::suite("Vector<Str>", F_RENEW | F_SOME, R_OPS, 2));
    ADD2(Machine<VectorAd<char, Alloc>>::suite("Vector<char>", F_RENEW | F_SOME));
    ADD0(Machine<VectorAd<double, Alloc>>::suite("Vector<double>", F_RENEW | F_SOME));
    ADD1(Machine<VectorAd<Wide, Alloc>>::suite("Vector<Wide>", F_RENEW | F_SOME));
    ADD2(Machine<VectorAd<Big, Alloc>>::suite("Vector<Big>", F_RENEW | F_SOME));
    ADD0(Machine<VectorAd<Str, LifoAlloc>>::suite("Vector<Str,LIFO>", F_RENEW | F_SOME));
    P.quickCases = 40000; P.thoroughCases = 1000000;
}
}
