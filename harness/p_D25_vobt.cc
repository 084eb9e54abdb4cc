#include "d25.h"
void d25::v_obt(Src& s, Val const& v) { views<d25::obtuse>(s, v); }
