#include "d16_muts.h"
void d16::make_heap(Src& s, Opt const& o) { make<dart::heap>(s, o); }
void d16::make_packet(Src& s, Opt const& o) { make<dart::packet>(s, o); }
void d16::make_buffer(Src& s, Opt const& o) { make<dart::buffer>(s, o); }
