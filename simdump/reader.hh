#pragma once
#include <istream>
#include <string>
#include <vector>
namespace sim { std::vector<std::string> read_dump(std::istream&, std::vector<std::size_t>* ends = nullptr); }
