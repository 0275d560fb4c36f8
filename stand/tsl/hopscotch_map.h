// stand-in: a hash map whose iterators give the value with value()
#pragma once
#include <functional>
#include <list>
#include <type_traits>
#include <utility>
#include <vector>
namespace tsl {
template<class K, class V, class Hash = std::hash<K>, class Eq = std::equal_to<K>>
class hopscotch_map {
    using entries = std::vector<std::pair<K, V>>;
    template<class It, class Ref>
    class iter {
    public:
        iter() = default;
        explicit iter(It i) : i_ { i } {}
        template<class I2, class R2> iter(iter<I2, R2> const& o) : i_ { o.base() } {} // NOLINT
        [[nodiscard]] K const& key() const { return i_->first; }
        [[nodiscard]] Ref value() const { return i_->second; }
        auto const& operator*() const { return *i_; }
        auto const* operator->() const { return &*i_; }
        iter& operator++() { ++i_; return *this; }
        It base() const { return i_; }
        friend bool operator==(iter const& a, iter const& b) { return a.i_ == b.i_; }
        friend bool operator!=(iter const& a, iter const& b) { return a.i_ != b.i_; }
    private:
        It i_ {};
    };
public:
    using key_type = K;
    using mapped_type = V;
    using iterator = iter<typename entries::iterator, V&>;
    using const_iterator = iter<typename entries::const_iterator, V const&>;
    [[nodiscard]] iterator begin() { return iterator { es_.begin() }; }
    [[nodiscard]] iterator end() { return iterator { es_.end() }; }
    [[nodiscard]] const_iterator begin() const { return const_iterator { es_.begin() }; }
    [[nodiscard]] const_iterator end() const { return const_iterator { es_.end() }; }
    template<class Q> [[nodiscard]] iterator find(Q const& k) { auto i = es_.begin(); while (i != es_.end() && !(i->first == k)) ++i; return iterator { i }; }
    template<class Q> [[nodiscard]] const_iterator find(Q const& k) const { auto i = es_.begin(); while (i != es_.end() && !(i->first == k)) ++i; return const_iterator { i }; }
    template<class Q> [[nodiscard]] bool contains(Q const& k) const { return find(k) != end(); }
    template<class Q> [[nodiscard]] std::size_t count(Q const& k) const { return contains(k) ? 1 : 0; }
    template<class Q> V& at(Q const& k) { return find(k).value(); }
    template<class Q> V const& at(Q const& k) const { return find(k).value(); }
    V& operator[](K const& k) { return try_emplace(k).first.value(); }
    template<class Q, class... As>
    std::pair<iterator, bool> try_emplace(Q&& k, As&&... as) {
        K key(std::forward<Q>(k));
        if (auto i = find(key); i != end()) return { i, false };
        es_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::move(key)), std::forward_as_tuple(std::forward<As>(as)...));
        return { iterator { es_.end() - 1 }, true };
    }
    template<class Q, class A> std::pair<iterator, bool> emplace(Q&& k, A&& a) { return try_emplace(std::forward<Q>(k), std::forward<A>(a)); }
    std::pair<iterator, bool> insert(std::pair<K, V> e) { return try_emplace(std::move(e.first), std::move(e.second)); }
    template<class Q, class A> std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) {
        auto r = try_emplace(std::forward<Q>(k), a);
        if (!r.second) r.first.value() = std::forward<A>(a);
        return r;
    }
    template<class Q> std::size_t erase(Q const& k) { auto i = find(k); if (i == end()) return 0; es_.erase(i.base()); return 1; }
    void reserve(std::size_t n) { es_.reserve(n); }
    void clear() { es_.clear(); }
    [[nodiscard]] std::size_t size() const { return es_.size(); }
    [[nodiscard]] bool empty() const { return es_.empty(); }
private:
    entries es_;
};
} // namespace tsl
