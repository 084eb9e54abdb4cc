#include "d16_reads.h"
void d16::reads_packet(Src& s, Val const& v, dart::packet const& d, Opt const& o) { reads<dart::packet>(s, v, d, o); }
