#include "d25.h"
d25::Counter d25::shared {history<std::shared_ptr>, nullptr, pairs<std::shared_ptr, dart::unsafe_ptr, d25::tracked>, "std::shared_ptr"};
