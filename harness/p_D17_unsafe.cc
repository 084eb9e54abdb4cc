#include "d17.h"
void d17::run_unsafe(Src& s, Opt const& o) { history<dart::unsafe_ptr>(s, o); }
