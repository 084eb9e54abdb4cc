#include "d15.h"
using namespace d15;
TYPE(vector_int64, std::vector<int64_t>);
TYPE(vector_string, std::vector<std::string>);
TYPE(vector_vector_double, std::vector<std::vector<double>>);
TYPE(array3_int, std::array<int, 3>);
TYPE(array1_string, std::array<std::string, 1>);
TYPE(array5_double, std::array<double, 5>);
TYPE(deque_bool, std::deque<bool>);
TYPE(deque_string, std::deque<std::string>);
TYPE(list_string, std::list<std::string>);
TYPE(forward_list_int, std::forward_list<int>);
TYPE(forward_list_string, std::forward_list<std::string>);
TYPE(vector_packet, std::vector<dart::packet>);
