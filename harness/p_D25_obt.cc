#include "d25.h"
d25::Counter d25::obt {history<d25::obtuse>, nullptr, pairs<d25::obtuse, dart::unsafe_ptr, d25::tracked>, "d25::obtuse"};
