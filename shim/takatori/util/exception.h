#pragma once
#include <exception>
#include <stdexcept>
#include <utility>
namespace takatori::util {
template<class T>
[[noreturn]] inline void throw_exception(T&& e) { throw std::forward<T>(e); }
} // namespace takatori::util
