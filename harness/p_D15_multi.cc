#include "d15.h"
using namespace d15;
TYPE(multimap_int64, std::multimap<std::string, int64_t>);
TYPE(multimap_vector, std::multimap<std::string, std::vector<int>>);
TYPE(multimap_id, std::multimap<Id, std::string>);
TYPE(unordered_multimap_string, std::unordered_multimap<std::string, std::string>);
TYPE(unordered_multimap_id, std::unordered_multimap<Id, int64_t>);
