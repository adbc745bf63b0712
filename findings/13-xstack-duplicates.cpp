// pushing a duplicate of the current extreme value loses elements on pop
#include "chk.hpp"
int main() { dstruct::MinStack<int> s; s.push(3); s.push(1); s.push(1); s.pop(); CHK(s.top() == 1 && s.getXValue() == 1); s.pop(); CHK(s.top() == 3 && s.getXValue() == 3); s.pop(); CHK(s.empty());
  dstruct::MaxStack<int> m; m.push(5); m.push(5); m.push(2); m.pop(); m.pop(); CHK(!m.empty() && m.top() == 5 && m.getXValue() == 5); }
