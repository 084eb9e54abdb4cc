#include "d15.h"
using namespace d15;
using dart::shim::optional; using dart::shim::variant;
using clk = std::chrono::system_clock;
TYPE(optional_int64, optional<int64_t>);
TYPE(optional_string, optional<std::string>);
TYPE(vector_optional, std::vector<optional<std::string>>);
TYPE(map_optional, std::map<std::string, optional<int64_t>>);
TYPE(unordered_map_optional, std::unordered_map<std::string, optional<std::vector<int>>>);
TYPE(variant_scalars, variant<int64_t, std::string, double>);
TYPE(variant_aggs, variant<std::vector<int64_t>, std::map<std::string, int64_t>, std::string>);
TYPE(vector_variant, std::vector<variant<std::string, int64_t, std::nullptr_t>>);
