#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit to_string_t() = default; };
    static constexpr to_string_t to_string {};
    string_builder() = default;
    [[nodiscard]] std::ostream& stream() noexcept { return buf_; }
    [[nodiscard]] std::string str() const { return buf_.str(); }
    template<class T>
    friend string_builder& operator<<(string_builder& b, T const& v) { b.buf_ << v; return b; }
    template<class T>
    friend string_builder&& operator<<(string_builder&& b, T const& v) { b.buf_ << v; return std::move(b); }
    friend std::string operator<<(string_builder& b, to_string_t) { return b.str(); }
    friend std::string operator<<(string_builder&& b, to_string_t) { return b.str(); }
private:
    std::ostringstream buf_ {};
};
using debug_string_builder = string_builder;
} // namespace takatori::util
