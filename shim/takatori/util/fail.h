#pragma once
#include <cstdlib>
#include <iostream>
#include <stdexcept>
#include <string>
namespace takatori::util {
[[noreturn]] inline void fail(char const* file = "", int line = 0) { throw std::logic_error(std::string("internal error at ") + file + ":" + std::to_string(line)); }
template<class T>
[[noreturn]] inline void fail_(T const& m) { throw std::logic_error(std::string(m)); }
} // namespace takatori::util
