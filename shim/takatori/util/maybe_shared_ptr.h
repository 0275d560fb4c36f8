#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include "optional_ptr.h"
namespace takatori::util {
/// a shared pointer that may also refer to an object it does not own
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    using pointer = T*;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr maybe_shared_ptr(U* p) noexcept : ptr_ { p } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> p) noexcept : own_ { std::move(p) }, ptr_ { own_.get() } {} // NOLINT
    template<class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U, D>&& p) : own_ { std::move(p) }, ptr_ { own_.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : own_ { o.ownership() }, ptr_ { o.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(optional_ptr<U> o) noexcept : ptr_ { o.get() } {} // NOLINT
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : own_ { std::move(o.own_) }, ptr_ { std::exchange(o.ptr_, nullptr) } {}
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { own_ = std::move(o.own_); ptr_ = std::exchange(o.ptr_, nullptr); return *this; }
    ~maybe_shared_ptr() = default;
    [[nodiscard]] T* get() const noexcept { return ptr_; }
    [[nodiscard]] T& operator*() const noexcept { return *ptr_; }
    [[nodiscard]] T* operator->() const noexcept { return ptr_; }
    [[nodiscard]] T& value() const { if (!ptr_) throw std::bad_optional_access {}; return *ptr_; }
    [[nodiscard]] bool owner() const noexcept { return own_ != nullptr; }
    [[nodiscard]] std::shared_ptr<T> ownership() const noexcept { return own_; }
    [[nodiscard]] std::shared_ptr<T> shared() const noexcept { return own_; }
    [[nodiscard]] bool has_value() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] operator optional_ptr<T>() const noexcept { return optional_ptr<T> { ptr_ }; } // NOLINT
    void reset() noexcept { own_.reset(); ptr_ = nullptr; }
private:
    std::shared_ptr<T> own_ {};
    T* ptr_ { nullptr };
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& p) { return out << p.get(); }
} // namespace takatori::util
template<class T>
struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& o) const noexcept { return std::hash<T*>{}(o.get()); }
};
