#pragma once
#include <cstdio>
#include <ostream>
#include <string>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
/// prints the accepted structure as JSON; a property with no value is printed as null
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) : out_ { out } {}
    void property_begin(std::string_view name) override {
        comma(); quote(name); out_ << ":"; stack_.push_back({ 'p', 0 });
    }
    void property_end() override { if (stack_.back().n == 0) out_ << "null"; stack_.pop_back(); }
    void boolean(bool v) override { value(); out_ << (v ? "true" : "false"); }
    void integer(std::int64_t v) override { value(); out_ << v; }
    void unsigned_integer(std::uint64_t v) override { value(); out_ << v; }
    void float_number(double v) override { value(); out_ << v; }
    void string(std::string_view v) override { value(); quote(v); }
    void pointer(void const*) override { value(); out_ << "\"ptr\""; }
    void struct_begin() override { value(); out_ << "{"; stack_.push_back({ 's', 0 }); }
    void struct_end() override { out_ << "}"; stack_.pop_back(); }
    void array_begin() override { value(); out_ << "["; stack_.push_back({ 'a', 0 }); }
    void array_end() override { out_ << "]"; stack_.pop_back(); }
private:
    struct frame { char kind; std::size_t n; };
    std::ostream& out_;
    std::vector<frame> stack_ {};
    void comma() { if (!stack_.empty() && stack_.back().n++ > 0) out_ << ","; }
    void value() { if (!stack_.empty()) { if (stack_.back().kind == 'a') comma(); else ++stack_.back().n; } }
    void quote(std::string_view s) {
        out_ << '"';
        for (char c : s) {
            auto u = static_cast<unsigned char>(c);
            if (c == '"' || c == '\\') out_ << '\\' << c;
            else if (u < 0x20 || u == 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", u); out_ << b; }
            else out_ << c;
        }
        out_ << '"';
    }
};
} // namespace takatori::serializer
