#include "d15.h"
using namespace d15;
TYPE(set_int64, std::set<int64_t>);
TYPE(set_string, std::set<std::string>);
TYPE(set_id, std::set<Id>);
TYPE(unordered_set_string, std::unordered_set<std::string>);
TYPE(multiset_int, std::multiset<int>);
TYPE(multiset_vector, std::multiset<std::vector<int>>);
TYPE(unordered_multiset_string, std::unordered_multiset<std::string>);
TYPE(unordered_multiset_bool, std::unordered_multiset<bool>);
TYPE(forward_list_list, std::forward_list<std::list<int>>);
