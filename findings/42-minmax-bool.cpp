// the extreme value of a new min/max stack was not initialised, but pushed and copied (undefined for bool).
#include "chk.hpp"
int main() {
    Junk<dstruct::stack::XValueStack<bool, dstruct::less<bool>>> s;
    s->push(true); CHK(s->top() && s->getXValue()); s->push(false); CHK(!s->getXValue()); s->pop(); CHK(s->getXValue());
    dstruct::stack::XValueStack<bool, dstruct::less<bool>> a, b(a); CHK(b.empty());
}
