#include "d15.h"
using namespace d15;
using dart::shim::optional; using dart::shim::variant;
using clk = std::chrono::system_clock;
TYPE(pair, std::pair<std::string, int64_t>);
TYPE(pair_nested, std::pair<std::vector<int>, std::pair<double, std::string>>);
TYPE(tuple3, std::tuple<int, std::string, double>);
TYPE(tuple1, std::tuple<std::string>);
TYPE(tuple_nested, std::tuple<std::vector<int>, std::map<std::string, bool>, optional<double>, std::pair<int, int>>);
TYPE(time_s, std::chrono::time_point<clk, std::chrono::seconds>);
TYPE(time_ns, clk::time_point);
TYPE(time_h, std::chrono::time_point<clk, std::chrono::hours>);
TYPE(map_time, std::map<std::string, std::chrono::time_point<clk, std::chrono::seconds>>);
TYPE(map_tuple, std::map<std::string, std::vector<std::tuple<int64_t, std::string>>>);
