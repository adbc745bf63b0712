// Over-aligned payload: the payload does not directly follow the link, data_to_link() returned a pointer into the padding.
#include <dstruct.hpp>
#include "chk.hpp"
struct alignas(16) W { long long a, b; };
struct alignas(64) V { int a; };
template <class T> static void one() {
    typedef dstruct::EBinaryTreeNode<T> N; N n;
    CHK(N::data_to_link(&n.data) == N::to_link(&n));
    CHK(N::to_node(N::data_to_link(&n.data)) == &n);
}
int main() { one<char>(); one<int>(); one<double>(); one<W>(); one<V>(); }
