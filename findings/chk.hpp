// tiny helper for the demonstrations of repaired defects
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <new>
#include <unistd.h>
#include <dstruct.hpp>
#define CHK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); _exit(1); } } while (0)
struct Life { static int &n() { static int k; return k; } int v; int *p;
  Life() : v(0), p(new int(0)) { n()++; } explicit Life(int x) : v(x), p(new int(x)) { n()++; }
  Life(const Life &o) : v(o.v), p(new int(*o.p)) { n()++; } Life &operator=(const Life &o) { v = o.v; *p = *o.p; return *this; }
  ~Life() { delete p; p = (int *)8; n()--; }
  bool operator==(const Life &o) const { return v == o.v; } bool operator<(const Life &o) const { return v < o.v; } bool operator>(const Life &o) const { return v > o.v; } };
// object in junk-filled storage
template <class T> struct Junk { alignas(T) unsigned char b[sizeof(T)]; T *o; Junk() { memset(b, 0xA5, sizeof b); o = new (b) T; } ~Junk() { o->~T(); } T *operator->() { return o; } T &operator*() { return *o; } };
