// stand-in: a variable is the identity of what it is bound to
#pragma once
#include <memory>
#include <ostream>
#include <string>
#include <takatori/document/region.h>
namespace takatori::descriptor {
class variable {
public:
    struct object { std::string kind {}; std::string label {}; void const* declaration {}; std::shared_ptr<object> origin {}; };
    using reference_type = std::shared_ptr<object>;
    explicit variable(reference_type r) noexcept : ref_ { std::move(r) } {}
    [[nodiscard]] object const& reference() const noexcept { return *ref_; }
    [[nodiscard]] reference_type const& shared_reference() const noexcept { return ref_; }
    [[nodiscard]] std::size_t hash() const noexcept { return std::hash<void const*>{}(id()); }
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    [[nodiscard]] explicit operator bool() const noexcept { return ref_ != nullptr; }
    friend bool operator==(variable const& a, variable const& b) noexcept { return a.id() == b.id(); }
    friend bool operator!=(variable const& a, variable const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, variable const& v) { return out << v.ref_->kind << ":" << v.ref_->label; }
private:
    reference_type ref_;
    document::region region_ {};
    [[nodiscard]] void const* id() const noexcept { return ref_->declaration != nullptr ? ref_->declaration : ref_.get(); }
};
} // namespace takatori::descriptor
template<> struct std::hash<takatori::descriptor::variable> { std::size_t operator()(takatori::descriptor::variable const& v) const noexcept { return v.hash(); } };
