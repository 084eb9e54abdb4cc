#include "d25.h"
void d25::v_track(Src& s, Val const& v) { views<d25::tracked>(s, v); }
