#pragma once
#include <cstddef>
#include <functional>
#include <type_traits>
namespace takatori::util {
template<class... Args>
[[nodiscard]] inline std::size_t hash(Args const&... args) {
    std::size_t r = 0;
    ((r = r * 31 + std::hash<std::remove_cv_t<Args>>{}(args)), ...);
    return r;
}
template<class T>
struct std_hash { std::size_t operator()(T const& v) const { return std::hash<T>{}(v); } };
} // namespace takatori::util
