#include "d25.h"
d25::Counter d25::uns {history<dart::unsafe_ptr>, nullptr, pairs<dart::unsafe_ptr, std::shared_ptr, d25::obtuse>, "dart::unsafe_ptr"};
