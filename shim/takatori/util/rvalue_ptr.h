#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T>
class rvalue_ptr {
public:
    using value_type = T;
    using element_type = T;
    using pointer = T*;
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr rvalue_ptr(T&& value) noexcept : ptr_ { std::addressof(value) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr explicit rvalue_ptr(U* ptr) noexcept : ptr_ { ptr } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> other) noexcept : ptr_ { other.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_reference_wrapper<U> other) noexcept : ptr_ { std::addressof(other.get_lvalue()) } {} // NOLINT
    [[nodiscard]] constexpr T* get() const noexcept { return ptr_; }
    [[nodiscard]] constexpr T&& value() const { return std::move(*ptr_); }
    [[nodiscard]] constexpr T& operator*() const noexcept { return *ptr_; }
    [[nodiscard]] constexpr T* operator->() const noexcept { return ptr_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return has_value(); }
private:
    T* ptr_ { nullptr };
};
} // namespace takatori::util
