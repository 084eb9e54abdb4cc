#include "d16_muts.h"
void d16::muts_packet(Src& s, Val v, bool fin, Opt const& o) { muts<dart::packet>(s, fin ? dart::packet {build_subbuffer(v)} : build_packet(v, &s), v, o); }
