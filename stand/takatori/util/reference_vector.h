#pragma once
#include <cstddef>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
#include "ownership_reference.h"
namespace takatori::util {
/// a sequence of owned objects
template<class T>
class reference_vector {
    using store = std::vector<std::unique_ptr<T>>;
    template<class U, class I>
    class iter {
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_const_t<U>;
        using difference_type = std::ptrdiff_t;
        using pointer = U*;
        using reference = U&;
        iter() = default;
        explicit iter(I i) : i_ { i } {}
        reference operator*() const { return **i_; }
        pointer operator->() const { return i_->get(); }
        reference operator[](difference_type n) const { return *i_[n]; }
        iter& operator++() { ++i_; return *this; }
        iter operator++(int) { auto r = *this; ++i_; return r; }
        iter& operator--() { --i_; return *this; }
        iter operator--(int) { auto r = *this; --i_; return r; }
        iter& operator+=(difference_type n) { i_ += n; return *this; }
        friend iter operator+(iter a, difference_type n) { a.i_ += n; return a; }
        friend iter operator-(iter a, difference_type n) { a.i_ -= n; return a; }
        friend difference_type operator-(iter a, iter b) { return a.i_ - b.i_; }
        friend bool operator==(iter a, iter b) { return a.i_ == b.i_; }
        friend bool operator!=(iter a, iter b) { return a.i_ != b.i_; }
        friend bool operator<(iter a, iter b) { return a.i_ < b.i_; }
        I i_ {};
    };
public:
    using value_type = T;
    using iterator = iter<T, typename store::iterator>;
    using const_iterator = iter<T const, typename store::const_iterator>;
    reference_vector() = default;
    void reserve(std::size_t n) { es_.reserve(n); }
    T& push_back(std::unique_ptr<T> p) { es_.push_back(std::move(p)); return *es_.back(); }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    T& push_back(std::unique_ptr<U> p) { es_.push_back(std::move(p)); return *es_.back(); }
    template<class U = T, class... A> U& emplace_back(A&&... a) { auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; es_.push_back(std::move(p)); return r; }
    [[nodiscard]] std::size_t size() const noexcept { return es_.size(); }
    [[nodiscard]] bool empty() const noexcept { return es_.empty(); }
    [[nodiscard]] T& operator[](std::size_t i) { return *es_[i]; }
    [[nodiscard]] T const& operator[](std::size_t i) const { return *es_[i]; }
    [[nodiscard]] T& at(std::size_t i) { return *es_.at(i); }
    [[nodiscard]] T const& at(std::size_t i) const { return *es_.at(i); }
    [[nodiscard]] T& front() { return *es_.front(); }
    [[nodiscard]] T& back() { return *es_.back(); }
    [[nodiscard]] T const& front() const { return *es_.front(); }
    [[nodiscard]] T const& back() const { return *es_.back(); }
    [[nodiscard]] iterator begin() { return iterator { es_.begin() }; }
    [[nodiscard]] iterator end() { return iterator { es_.end() }; }
    [[nodiscard]] const_iterator begin() const { return const_iterator { es_.begin() }; }
    [[nodiscard]] const_iterator end() const { return const_iterator { es_.end() }; }
    [[nodiscard]] ownership_reference<T> ownership(iterator i) { return ownership_reference<T> { *i.i_ }; }
    [[nodiscard]] std::vector<std::unique_ptr<T>> release_elements() { return std::exchange(es_, {}); }
private:
    store es_ {};
};
} // namespace takatori::util
