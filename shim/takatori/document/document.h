#pragma once
#include <cstddef>
#include <ostream>
#include <string_view>
#include <takatori/util/clone_tag.h>
namespace takatori::document {
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete;
    document& operator=(document const&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
    friend std::ostream& operator<<(std::ostream& out, document const& v) { return out << "document(location=" << v.location() << ")"; }
};
} // namespace takatori::document
