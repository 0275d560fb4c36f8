#pragma once
#include <unordered_set>
namespace tsl {
template<class... Ts>
class hopscotch_set : public std::unordered_set<Ts...> {
public:
    using std::unordered_set<Ts...>::unordered_set;
    template<class K> [[nodiscard]] bool contains(K const& k) const { return this->find(k) != this->end(); }
};
} // namespace tsl
