#include "d25.h"
void d25::v_uns(Src& s, Val const& v) { views<dart::unsafe_ptr>(s, v); }
