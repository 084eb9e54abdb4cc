#include "d25.h"
d25::Counter d25::skinny {history<dart::skinny_ptr>, nullptr, pairs<dart::skinny_ptr, d25::tracked, std::shared_ptr>, "dart::skinny_ptr"};
