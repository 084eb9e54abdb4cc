#include "d25.h"
d25::Counter d25::track {history<d25::tracked>, nullptr, pairs<d25::tracked, dart::skinny_ptr, std::shared_ptr>, "d25::tracked"};
