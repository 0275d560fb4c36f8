#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using value_type = T;
    using element_type = T;
    using reference = T&;
    using pointer = T*;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr optional_ptr(std::nullopt_t) noexcept {} // NOLINT
    constexpr optional_ptr(T& value) noexcept : ptr_ { std::addressof(value) } {} // NOLINT
    constexpr optional_ptr(T&&) = delete;
    explicit constexpr optional_ptr(T* ptr) noexcept : ptr_ { ptr } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr optional_ptr(optional_ptr<U> other) noexcept : ptr_ { other.get() } {} // NOLINT
    [[nodiscard]] constexpr T* get() const noexcept { return ptr_; }
    [[nodiscard]] constexpr T& value() const {
        if (ptr_ == nullptr) throw std::bad_optional_access {};
        return *ptr_;
    }
    [[nodiscard]] constexpr bool has_value() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return has_value(); }
    [[nodiscard]] constexpr T& operator*() const noexcept { return *ptr_; }
    [[nodiscard]] constexpr T* operator->() const noexcept { return ptr_; }
    template<class U> [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& d) const { return ptr_ ? *ptr_ : static_cast<std::remove_cv_t<T>>(std::forward<U>(d)); }
    void reset() noexcept { ptr_ = nullptr; }
    void reset(T* p) noexcept { ptr_ = p; }
    void reset(T& p) noexcept { ptr_ = &p; }
    void swap(optional_ptr& o) noexcept { std::swap(ptr_, o.ptr_); }
private:
    T* ptr_ { nullptr };
};
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T, class U>
constexpr bool operator==(optional_ptr<T> a, optional_ptr<U> b) noexcept {
    if (a.has_value() && b.has_value()) return *a == *b;
    return a.has_value() == b.has_value();
}
template<class T, class U>
constexpr bool operator!=(optional_ptr<T> a, optional_ptr<U> b) noexcept { return !(a == b); }
template<class T> constexpr bool operator==(optional_ptr<T> a, std::nullptr_t) noexcept { return !a; }
template<class T> constexpr bool operator!=(optional_ptr<T> a, std::nullptr_t) noexcept { return a.has_value(); }
template<class T>
std::ostream& operator<<(std::ostream& out, optional_ptr<T> v) {
    if (v) return out << *v;
    return out << "(empty)";
}
} // namespace takatori::util
template<class T>
struct std::hash<takatori::util::optional_ptr<T>> {
    std::size_t operator()(takatori::util::optional_ptr<T> const& o) const { return o ? std::hash<std::remove_cv_t<T>>{}(*o) : 0; }
};
