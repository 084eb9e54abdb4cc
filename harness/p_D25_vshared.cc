#include "d25.h"
void d25::v_shared(Src& s, Val const& v) { views<std::shared_ptr>(s, v); }
