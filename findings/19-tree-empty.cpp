// begin()/traversal of an empty tree dereferences null
#include "chk.hpp"
template <class T> void go() { T t; int n = 0; for (auto &x : t) { (void)x; n++; } for (auto o : {T::TraversalType::PreOrder, T::TraversalType::InOrder, T::TraversalType::PostOrder}) { t.traversal([&](auto &) { n++; }, o); CHK(t.begin(o) == t.end(o)); } CHK(n == 0); t.push(1); t.pop(1); CHK(t.begin() == t.end()); }
int main() { go<dstruct::BSTree<int>>(); go<dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc>>(); dstruct::Map<int, int> m; CHK(m.begin() == m.end()); }
