#include <new>
#include "common/random_traverser.h"
using T = lightstep::RandomTraverser;
extern "C" {
bool vf_visit(int i);
void vf_ctor(void* p, int n) { new (p) T{n}; }
bool vf_each(T& t) { return t.ForEachIndex([](int i) { return vf_visit(i); }); }
}
