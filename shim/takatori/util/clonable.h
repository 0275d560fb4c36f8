#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "optional_ptr.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
namespace impl {
template<class T, class = void> struct is_clonable_impl : std::false_type {};
template<class T>
struct is_clonable_impl<T, std::void_t<decltype(std::declval<T const&>().clone())>>
    : std::is_convertible<decltype(std::declval<T const&>().clone()), std::remove_const_t<T>*> {};
template<class T>
struct is_smart : std::false_type {};
template<class T, class D> struct is_smart<std::unique_ptr<T, D>> : std::true_type {};
template<class T> struct is_smart<std::shared_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_ptr<T>> : std::true_type {};
template<class T> struct is_smart<optional_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_reference_wrapper<T>> : std::true_type {};
} // namespace impl
template<class T> using is_clonable = impl::is_clonable_impl<T>;
template<class T> inline constexpr bool is_clonable_v = is_clonable<T>::value;
template<class T, class = void> struct is_clone_constructible : std::false_type {};
template<class T> inline constexpr bool is_clone_constructible_v = std::is_constructible_v<T, clone_tag_t, T const&>;

// lvalue: deep copy
template<class T>
[[nodiscard]] inline std::enable_if_t<!std::is_pointer_v<T> && !impl::is_smart<T>::value, std::unique_ptr<T>> clone_unique(T const& value) {
    return std::unique_ptr<T>(value.clone());
}
template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T> && !std::is_pointer_v<T> && !impl::is_smart<std::remove_cv_t<T>>::value>>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(T&& value) {
    return std::unique_ptr<T>(std::move(value).clone());
}
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(T* value) {
    using R = std::remove_const_t<T>;
    if (value == nullptr) return {};
    return std::unique_ptr<R>(static_cast<R const&>(*value).clone());
}
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D> const& value) {
    return clone_unique(value.get());
}
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<T, D> clone_unique(std::unique_ptr<T, D>&& value) { return std::move(value); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::shared_ptr<T> const& value) { return clone_unique(value.get()); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(optional_ptr<T> value) { return clone_unique(value.get()); }
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> value) {
    if (!value) return {};
    return std::unique_ptr<T>(value.value().clone());
}
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> value) {
    return std::unique_ptr<T>(value.get().clone());
}
template<class T>
[[nodiscard]] inline std::enable_if_t<!std::is_pointer_v<T> && !impl::is_smart<T>::value, std::shared_ptr<T>> clone_shared(T const& value) {
    return std::shared_ptr<T>(value.clone());
}
template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T> && !std::is_pointer_v<T> && !impl::is_smart<std::remove_cv_t<T>>::value>>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(T&& value) {
    return std::shared_ptr<T>(std::move(value).clone());
}
template<class T>
[[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(T* value) {
    if (value == nullptr) return {};
    return std::shared_ptr<std::remove_const_t<T>>(clone_unique(value));
}
template<class T, class D>
[[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(std::unique_ptr<T, D> const& value) { return clone_shared(value.get()); }
template<class T, class D>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(std::unique_ptr<T, D>&& value) { return std::shared_ptr<T>(std::move(value)); }
template<class T>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(std::shared_ptr<T> value) { return value; }
template<class T>
[[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(optional_ptr<T> value) { return clone_shared(value.get()); }
template<class T>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(rvalue_ptr<T> value) {
    if (!value) return {};
    return std::shared_ptr<T>(value.value().clone());
}
template<class T>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(rvalue_reference_wrapper<T> value) { return std::shared_ptr<T>(value.get().clone()); }
} // namespace takatori::util
