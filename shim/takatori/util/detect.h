#pragma once
#include <type_traits>
namespace takatori::util {
namespace impl {
template<class Default, class, template<class...> class Op, class... Args>
struct detector { using value_t = std::false_type; using type = Default; };
template<class Default, template<class...> class Op, class... Args>
struct detector<Default, std::void_t<Op<Args...>>, Op, Args...> { using value_t = std::true_type; using type = Op<Args...>; };
} // namespace impl
struct nonesuch { nonesuch() = delete; };
template<template<class...> class Op, class... Args>
using is_detected = typename impl::detector<nonesuch, void, Op, Args...>::value_t;
template<template<class...> class Op, class... Args>
inline constexpr bool is_detected_v = is_detected<Op, Args...>::value;
template<template<class...> class Op, class... Args>
using detected_t = typename impl::detector<nonesuch, void, Op, Args...>::type;
template<class Default, template<class...> class Op, class... Args>
using detected_or_t = typename impl::detector<Default, void, Op, Args...>::type;
template<template<class...> class Op, class... Args>
using detect_t = detected_t<Op, Args...>;
template<template<class...> class Op, class... Args>
using detect = is_detected<Op, Args...>;
} // namespace takatori::util
