#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E First, E Last>
class enum_set {
public:
    using value_type = E;
    using size_type = std::size_t;
    class iterator {
    public:
        using iterator_category = std::input_iterator_tag;
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using pointer = E const*;
        using reference = E;
        iterator(enum_set const* o, std::size_t p) : o_ { o }, p_ { p } { seek(); }
        E operator*() const { return to_value(p_); }
        iterator& operator++() { ++p_; seek(); return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        friend bool operator==(iterator const& a, iterator const& b) { return a.p_ == b.p_; }
        friend bool operator!=(iterator const& a, iterator const& b) { return a.p_ != b.p_; }
    private:
        enum_set const* o_; std::size_t p_;
        void seek() { while (p_ < count && !o_->bits_[p_]) ++p_; }
    };
    using const_iterator = iterator;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> vs) noexcept { for (auto v : vs) insert(v); }
    [[nodiscard]] constexpr bool contains(E v) const noexcept { return in_range(v) && bits_[pos(v)]; }
    [[nodiscard]] constexpr bool empty() const noexcept { return size() == 0; }
    [[nodiscard]] constexpr size_type size() const noexcept { size_type n = 0; for (bool b : bits_) n += b ? 1 : 0; return n; }
    [[nodiscard]] static constexpr size_type capacity() noexcept { return count; }
    [[nodiscard]] static constexpr size_type max_size() noexcept { return count; }
    constexpr bool insert(E v) noexcept { auto p = pos(v); bool r = !bits_[p]; bits_[p] = true; return r; }
    constexpr bool erase(E v) noexcept { auto p = pos(v); bool r = bits_[p]; bits_[p] = false; return r; }
    constexpr void clear() noexcept { for (bool& b : bits_) b = false; }
    constexpr enum_set& operator+=(E v) { insert(v); return *this; }
    constexpr enum_set& operator-=(E v) { erase(v); return *this; }
    constexpr enum_set& operator|=(enum_set const& o) noexcept { for (std::size_t i = 0; i < count; ++i) bits_[i] = bits_[i] || o.bits_[i]; return *this; }
    constexpr enum_set& operator-=(enum_set const& o) noexcept { for (std::size_t i = 0; i < count; ++i) bits_[i] = bits_[i] && !o.bits_[i]; return *this; }
    constexpr enum_set& operator&=(enum_set const& o) noexcept { for (std::size_t i = 0; i < count; ++i) bits_[i] = bits_[i] && o.bits_[i]; return *this; }
    [[nodiscard]] constexpr bool operator[](E v) const { return contains(v); }
    [[nodiscard]] iterator begin() const { return { this, 0 }; }
    [[nodiscard]] iterator end() const { return { this, count }; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) noexcept { for (std::size_t i = 0; i < count; ++i) if (a.bits_[i] != b.bits_[i]) return false; return true; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) noexcept { return !(a == b); }
    friend constexpr enum_set operator+(enum_set a, E b) { a += b; return a; }
    friend constexpr enum_set operator-(enum_set a, E b) { a -= b; return a; }
    friend constexpr enum_set operator-(enum_set a, enum_set const& b) { a -= b; return a; }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) { a |= b; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) { a &= b; return a; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& s) {
        out << "{";
        bool c = false;
        for (auto v : s) { if (c) out << ", "; c = true; out << v; }
        return out << "}";
    }
private:
    using under = std::underlying_type_t<E>;
    static constexpr std::size_t count = static_cast<std::size_t>(static_cast<under>(Last) - static_cast<under>(First)) + 1;
    bool bits_[count] {};
    static constexpr bool in_range(E v) noexcept { return static_cast<under>(v) >= static_cast<under>(First) && static_cast<under>(v) <= static_cast<under>(Last); }
    static constexpr std::size_t pos(E v) { return static_cast<std::size_t>(static_cast<under>(v) - static_cast<under>(First)); }
    static constexpr E to_value(std::size_t p) { return static_cast<E>(static_cast<under>(First) + static_cast<under>(p)); }
};
} // namespace takatori::util
