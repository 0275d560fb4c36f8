#pragma once
#include <cstddef>
#include <iterator>
#include <ostream>
#include <type_traits>
#include <vector>
namespace takatori::util {
template<class T>
class sequence_view {
public:
    using value_type = std::remove_const_t<T>;
    using iterator = T*;
    using const_iterator = T*;
    using size_type = std::size_t;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* p, std::size_t n) noexcept : first_ { p }, size_ { n } {}
    constexpr sequence_view(T* p, T* e) noexcept : first_ { p }, size_ { static_cast<std::size_t>(e - p) } {}
    template<class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<C&>().data()), T*>>>
    constexpr sequence_view(C& c) noexcept : first_ { c.data() }, size_ { c.size() } {} // NOLINT
    template<class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<C const&>().data()), T*>>, class = void>
    constexpr sequence_view(C const& c) noexcept : first_ { c.data() }, size_ { c.size() } {} // NOLINT
    [[nodiscard]] constexpr T* data() const noexcept { return first_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return size_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return size_ == 0; }
    [[nodiscard]] constexpr T* begin() const noexcept { return first_; }
    [[nodiscard]] constexpr T* end() const noexcept { return first_ + size_; }
    [[nodiscard]] constexpr auto rbegin() const noexcept { return std::make_reverse_iterator(end()); }
    [[nodiscard]] constexpr auto rend() const noexcept { return std::make_reverse_iterator(begin()); }
    [[nodiscard]] constexpr T& operator[](std::size_t i) const noexcept { return first_[i]; }
    [[nodiscard]] constexpr T& at(std::size_t i) const noexcept { return first_[i]; }
    [[nodiscard]] constexpr T& front() const noexcept { return first_[0]; }
    [[nodiscard]] constexpr T& back() const noexcept { return first_[size_ - 1]; }
    friend std::ostream& operator<<(std::ostream& out, sequence_view v) {
        out << "[";
        bool c = false;
        for (auto&& x : v) { if (c) out << ", "; c = true; out << x; }
        return out << "]";
    }
private:
    T* first_ { nullptr };
    std::size_t size_ { 0 };
};
template<class C>
sequence_view(C& c) -> sequence_view<std::remove_pointer_t<decltype(c.data())>>;
template<class C>
sequence_view(C const& c) -> sequence_view<std::remove_pointer_t<decltype(c.data())>>;
} // namespace takatori::util
