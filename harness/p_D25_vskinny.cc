#include "d25.h"
void d25::v_skinny(Src& s, Val const& v) { views<dart::skinny_ptr>(s, v); }
