#include "d18.h"
void d18::run_skinny(Src& s, Opt const& o) { history<dart::skinny_ptr>(s, o); }
