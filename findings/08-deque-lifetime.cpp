// deque blocks are filled with default-constructed elements that are never destroyed
#include "chk.hpp"
int main() { { dstruct::Deque<Life, 4> q; for (int i = 0; i < 30; i++) { q.push_back(Life(i)); CHK(Life::n() == (int)q.size()); } for (int i = 0; i < 30; i++) { q.pop_front(); CHK(Life::n() == (int)q.size()); } q.push_front(Life(1)); CHK(Life::n() == 1); } CHK(Life::n() == 0); }
