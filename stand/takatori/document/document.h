#pragma once
#include <cstddef>
#include <ostream>
#include <string_view>
#include <takatori/util/clone_tag.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::document {
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete;
    document& operator=(document const&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
    friend std::ostream& operator<<(std::ostream& out, document const& v) { return out << "document(location=" << v.location() << ")"; }
};
class region {
public:
    constexpr region() noexcept = default;
    region(document const& source, std::size_t first, std::size_t last) noexcept : source_ { &source }, first_ { first }, last_ { last } {}
    [[nodiscard]] util::optional_ptr<document const> source() const noexcept { return util::optional_ptr<document const> { source_ }; }
    [[nodiscard]] std::size_t first() const noexcept { return first_; }
    [[nodiscard]] std::size_t last() const noexcept { return last_; }
    [[nodiscard]] std::size_t begin() const noexcept { return first_; }
    [[nodiscard]] std::size_t end() const noexcept { return last_; }
    [[nodiscard]] explicit operator bool() const noexcept { return source_ != nullptr; }
    friend std::ostream& operator<<(std::ostream& out, region const& r) { return out << "region(" << r.first_ << ", " << r.last_ << ")"; }
private:
    document const* source_ { nullptr };
    std::size_t first_ { static_cast<std::size_t>(-1) };
    std::size_t last_ { static_cast<std::size_t>(-1) };
};
} // namespace takatori::document
