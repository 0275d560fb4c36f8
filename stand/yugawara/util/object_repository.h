#pragma once
#include <memory>
#include <type_traits>
#include <vector>
#include <takatori/util/clonable.h>
namespace yugawara::util {
/// keeps one instance of equal objects
template<class T>
class object_repository {
public:
    using value_type = T;
    using pointer = std::shared_ptr<T const>;
    template<class U>
    pointer get(U&& object) {
        if (auto p = find(object)) return p;
        return keep(std::shared_ptr<T const>(::takatori::util::clone_unique(std::forward<U>(object))));
    }
    pointer add(std::shared_ptr<T const> object) {
        if (auto p = find(*object)) return p;
        return keep(std::move(object));
    }
    void clear() { os_.clear(); }
private:
    std::vector<pointer> os_ {};
    pointer find(T const& o) { for (auto&& p : os_) if (*p == o) return p; return {}; }
    pointer keep(pointer p) { os_.push_back(p); return p; }
};
} // namespace yugawara::util
