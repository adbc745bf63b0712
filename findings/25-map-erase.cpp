// Map::erase does not compile (the tree copies the next entry)
#include "chk.hpp"
int main() { dstruct::Map<int, int> m; for (int i = 0; i < 10; i++) m[i] = i; auto it = m.find(4); auto nx = m.erase(it); CHK(nx->key == 5 && m.size() == 9); for (auto i = m.begin(); i != m.end();) i = m.erase(i); CHK(m.empty()); }
