#pragma once
#include <functional>
#include <ostream>
#include <typeindex>
#include <typeinfo>
namespace takatori::util {
template<class T>
struct meta_type {
    using type = T;
    static inline std::size_t hash() noexcept { return typeid(T).hash_code(); }
};
template<class T> using meta_type_t = typename meta_type<T>::type;
template<class T, class U>
constexpr bool operator==(meta_type<T>, meta_type<U>) noexcept { return std::is_same_v<T, U>; }
template<class T, class U>
constexpr bool operator!=(meta_type<T>, meta_type<U>) noexcept { return !std::is_same_v<T, U>; }
template<class T>
inline std::ostream& operator<<(std::ostream& out, meta_type<T>) { return out << typeid(T).name(); }
} // namespace takatori::util
template<class T>
struct std::hash<takatori::util::meta_type<T>> {
    std::size_t operator()(takatori::util::meta_type<T> const&) const noexcept { return typeid(T).hash_code(); }
};
