#pragma once
#include <functional>
#include <type_traits>
#include <utility>
namespace takatori::util {
namespace impl {
template<class T, class U> struct relative_const { using type = U; };
template<class T, class U> struct relative_const<T const, U> { using type = U const; };
template<class T, class U> using relative_const_t = typename relative_const<T, U>::type;
} // namespace impl
/// invokes callback with the object as T (keeping its constness and reference kind) if possible,
/// or with the object as it is (the "default" callback).
template<class T, class Callback, class E, class... Args>
inline auto polymorphic_callback(Callback&& callback, E&& object, Args&&... args) {
    using B = std::remove_reference_t<E>;
    using D = impl::relative_const_t<B, T>;
    if constexpr (std::is_lvalue_reference_v<E>) { // NOLINT
        using R = D&;
        if constexpr (std::is_invocable_v<Callback, R, Args...>) { // NOLINT
            return std::invoke(std::forward<Callback>(callback), static_cast<R>(object), std::forward<Args>(args)...);
        } else { // NOLINT
            return std::invoke(std::forward<Callback>(callback), std::forward<E>(object), std::forward<Args>(args)...);
        }
    } else { // NOLINT
        using R = D&&;
        if constexpr (std::is_invocable_v<Callback, R, Args...>) { // NOLINT
            return std::invoke(std::forward<Callback>(callback), static_cast<R>(object), std::forward<Args>(args)...);
        } else { // NOLINT
            return std::invoke(std::forward<Callback>(callback), std::forward<E>(object), std::forward<Args>(args)...);
        }
    }
}
} // namespace takatori::util
