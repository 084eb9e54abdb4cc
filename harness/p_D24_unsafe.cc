#include "d24.h"
void d24::run_unsafe(Src& s, Opt const& o) { history<dart::unsafe_ptr>(s, o); }
