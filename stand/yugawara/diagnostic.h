#pragma once
#include <ostream>
#include <string>
#include <takatori/document/region.h>
namespace yugawara {
template<class Code>
class diagnostic {
public:
    using code_type = Code;
    using message_type = std::string;
    using location_type = ::takatori::document::region;
    diagnostic() = default;
    diagnostic(code_type c, message_type m, location_type l) : code_ { c }, message_ { std::move(m) }, location_ { l } {}
    [[nodiscard]] code_type code() const noexcept { return code_; }
    [[nodiscard]] message_type const& message() const noexcept { return message_; }
    [[nodiscard]] location_type const& location() const noexcept { return location_; }
    friend std::ostream& operator<<(std::ostream& out, diagnostic const& d) { return out << d.code_ << ": " << d.message_; }
private:
    code_type code_ {};
    message_type message_ {};
    location_type location_ {};
};
} // namespace yugawara
