#include "d16_reads.h"
void d16::reads_heap(Src& s, Val const& v, dart::heap const& d, Opt const& o) { reads<dart::heap>(s, v, d, o); }
