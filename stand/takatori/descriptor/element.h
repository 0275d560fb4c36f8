// stand-in: descriptors of catalog objects
#pragma once
#include <memory>
#include <utility>
#include <takatori/util/maybe_shared_ptr.h>
namespace yugawara::storage { class relation; class index; }
namespace yugawara::schema { class declaration; }
namespace yugawara::function { class declaration; }
namespace yugawara::aggregate { class declaration; }
namespace takatori::descriptor {
template<class D>
class element {
public:
    using pointer = util::maybe_shared_ptr<D const>;
    element(pointer p) noexcept : p_ { std::move(p) } {} // NOLINT
    [[nodiscard]] D const& get() const noexcept { return *p_; }
    [[nodiscard]] pointer const& shared() const noexcept { return p_; }
    friend bool operator==(element const& a, element const& b) noexcept { return a.p_.get() == b.p_.get(); }
    friend bool operator!=(element const& a, element const& b) noexcept { return a.p_.get() != b.p_.get(); }
private:
    pointer p_;
};
using storage = element<::yugawara::storage::relation>;
using relation = element<::yugawara::storage::index>;
using index = relation;
using schema = element<::yugawara::schema::declaration>;
using function = element<::yugawara::function::declaration>;
using aggregate_function = element<::yugawara::aggregate::declaration>;
} // namespace takatori::descriptor
