#include "d23.h"
void d23::run_unsafe(Src& s, Opt const& o) { history<dart::unsafe_ptr>(s, o); }
