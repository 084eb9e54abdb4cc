#include "d15.h"
using namespace d15;
TYPE(map_int64, std::map<std::string, int64_t>);
TYPE(map_vector, std::map<std::string, std::vector<std::string>>);
TYPE(map_map, std::map<std::string, std::map<std::string, double>>);
TYPE(map_id, std::map<Id, int64_t>);
TYPE(unordered_map_double, std::unordered_map<std::string, double>);
TYPE(unordered_map_id, std::unordered_map<Id, std::string>);
