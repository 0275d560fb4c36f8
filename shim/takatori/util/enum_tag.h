#pragma once
#include <type_traits>
#include <utility>
namespace takatori::util {
template<auto V>
struct enum_tag_t_impl { using value_type = decltype(V); static constexpr value_type value = V; explicit enum_tag_t_impl() = default; };
template<auto V> using enum_tag_t = enum_tag_t_impl<V>;
template<auto V> inline constexpr enum_tag_t<V> enum_tag {};
} // namespace takatori::util
