#include "d16_reads.h"
void d16::reads_buffer(Src& s, Val const& v, dart::buffer const& d, Opt const& o) { reads<dart::buffer>(s, v, d, o); }
