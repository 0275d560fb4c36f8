#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using value_type = T;
    using type = T;
    using pointer = T*;
    using reference = T&;
    using rvalue_reference = T&&;
    constexpr rvalue_reference_wrapper(T&& value) noexcept : value_ { std::addressof(value) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr rvalue_reference_wrapper(rvalue_reference_wrapper<U> other) noexcept : value_ { std::addressof(other.get_lvalue()) } {} // NOLINT
    [[nodiscard]] constexpr T&& get() const noexcept { return std::move(*value_); }
    [[nodiscard]] constexpr T& get_lvalue() const noexcept { return *value_; }
    constexpr operator T&&() const noexcept { return get(); } // NOLINT
    template<class... Args>
    constexpr auto operator()(Args&&... args) const { return get()(std::forward<Args>(args)...); }
private:
    T* value_;
};
template<class T> rvalue_reference_wrapper(T&&) -> rvalue_reference_wrapper<T>;
template<class T>
[[nodiscard]] constexpr rvalue_reference_wrapper<T> rvalue_ref(T&& v) noexcept { return rvalue_reference_wrapper<T>(std::move(v)); }
} // namespace takatori::util
