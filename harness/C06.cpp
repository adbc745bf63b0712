// PARTS: 3
#include "suts.hpp"
namespace vp {
template <class T, class C, class DS> using XS = dstruct::stack::XValueStack<T, C, dstruct::adapter::Stack<T, DS>>;
void define(Property &P) {
    P.id = "C06";
    P.rule = "interleavings of pushes (random, duplicate of the current extreme, duplicate of the top, ascending, descending, zig-zag), pops, clears and drains of minimum and maximum stacks over vector, deque and list storage; after every operation top, extreme value and emptiness are compared with the model; non-trivial: at least 6 effective operations of at least 3 kinds with at least 3 elements held at some point";
    P.assumptions = {"element types are copyable, default-constructible and comparable", "nothing is read or removed from an empty stack"};
    using dstruct::less; using dstruct::greater; using dstruct::Vector;
    ADD0(Machine<XStackAd<int, dstruct::MinStack<int>, 1>>::suite("MinStack<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD1(Machine<XStackAd<int, dstruct::MaxStack<int>, -1>>::suite("MaxStack<int>", F_RENEW | F_SOME, R_OPS, 3));
    ADD2(Machine<XStackAd<Str, dstruct::MinStack<Str>, 1>>::suite("MinStack<Str>", F_RENEW | F_SOME));
    ADD0(Machine<XStackAd<Str, dstruct::MaxStack<Str>, -1>>::suite("MaxStack<Str>", F_RENEW | F_SOME));
    ADD1(Machine<XStackAd<char, dstruct::MinStack<char>, 1>>::suite("MinStack<char>", F_RENEW | F_SOME));
    ADD2(Machine<XStackAd<double, dstruct::MaxStack<double>, -1>>::suite("MaxStack<double>", F_RENEW | F_SOME));
    ADD0(Machine<XStackAd<Wide, dstruct::MinStack<Wide>, 1>>::suite("MinStack<Wide>", F_RENEW | F_SOME));
    ADD1(Machine<XStackAd<int, XS<int, less<int>, dstruct::DoubleEndedQueue<int, 4>>, 1>>::suite("MinStack<int,deque4>", F_RENEW | F_SOME));
    ADD2(Machine<XStackAd<int, XS<int, greater<int>, dstruct::DoublyLinkedList<int>>, -1>>::suite("MaxStack<int,dlist>", F_RENEW | F_SOME));
    P.quickCases = 40000; P.thoroughCases = 1000000;
}
}
