#include "d16_muts.h"
void d16::muts_heap(Src& s, Val v, Opt const& o) { muts<dart::heap>(s, build_heap(v, &s), v, o); }
