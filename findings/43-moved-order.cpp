// A min/max stack that was moved from has lost its order.
#include <dstruct.hpp>
#include <functional>
#include <stdio.h>
int main() {
    typedef std::function<bool(int, int)> F;
    dstruct::stack::XValueStack<int, F> a(F([](int x, int y) { return x < y; }));
    a.push(3);
    auto b = dstruct::move(a);
    try { a.push(1); a.push(2); a.push(0); } catch (const std::bad_function_call &) { puts("the order is gone"); return 1; }
    if (a.getXValue() != 0 || b.getXValue() != 3) { puts("wrong extreme"); return 1; }
    return 0;
}
