#pragma once
#include <memory>
#include <type_traits>
#include "optional_ptr.h"
namespace takatori::util {
template<class T, class U>
[[nodiscard]] inline T& unsafe_downcast(U& v) noexcept { return static_cast<T&>(v); }
template<class T, class U>
[[nodiscard]] inline T const& unsafe_downcast(U const& v) noexcept { return static_cast<T const&>(v); }
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_const_v<U>>>
[[nodiscard]] inline T&& unsafe_downcast(U&& v) noexcept { return static_cast<T&&>(v); }
template<class T, class U>
[[nodiscard]] inline T* unsafe_downcast(U* v) noexcept { return static_cast<T*>(v); }
template<class T, class U>
[[nodiscard]] inline T const* unsafe_downcast(U const* v) noexcept { return static_cast<T const*>(v); }
template<class T, class U>
[[nodiscard]] inline T& downcast(U& v) { return dynamic_cast<T&>(v); }
template<class T, class U>
[[nodiscard]] inline T const& downcast(U const& v) { return dynamic_cast<T const&>(v); }
template<class T, class U>
[[nodiscard]] inline T* downcast(U* v) noexcept { return dynamic_cast<T*>(v); }
template<class T, class U>
[[nodiscard]] inline T const* downcast(U const* v) noexcept { return dynamic_cast<T const*>(v); }
template<class T, class U, class D>
[[nodiscard]] inline std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U, D>&& v) noexcept { return std::unique_ptr<T>(static_cast<T*>(v.release())); }
template<class T, class U, class D>
[[nodiscard]] inline std::unique_ptr<T> downcast(std::unique_ptr<U, D>&& v) noexcept {
    if (auto* p = dynamic_cast<T*>(v.get())) { v.release(); return std::unique_ptr<T>(p); }
    return {};
}
template<class T, class U>
[[nodiscard]] inline std::shared_ptr<T> unsafe_downcast(std::shared_ptr<U> const& v) noexcept { return std::static_pointer_cast<T>(v); }
template<class T, class U>
[[nodiscard]] inline std::shared_ptr<T> downcast(std::shared_ptr<U> const& v) noexcept { return std::dynamic_pointer_cast<T>(v); }
} // namespace takatori::util
