// stand-in for takatori::value
#pragma once
#include <decimal.hh>
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <takatori/util/clonable.h>
#include <impl/datetime.h>
namespace takatori::decimal {
class triple {
public:
    constexpr triple() = default;
    constexpr triple(std::int64_t sign, std::uint64_t high, std::uint64_t low, std::int32_t exponent) : sign_ { sign }, high_ { high }, low_ { low }, exponent_ { exponent } {}
    explicit triple(::decimal::Decimal const& d) {
        unsigned __int128 v = 0;
        if (d.digits().size() > 38) throw std::overflow_error { "too many digits" };
        for (char c : d.digits()) v = v * 10 + static_cast<unsigned>(c - '0');
        high_ = static_cast<std::uint64_t>(v >> 64U);
        low_ = static_cast<std::uint64_t>(v);
        sign_ = d.iszero() ? 0 : d.sign();
        exponent_ = static_cast<std::int32_t>(d.exponent());
    }
    [[nodiscard]] constexpr std::int64_t sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return high_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return low_; }
    [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return exponent_; }
    [[nodiscard]] constexpr bool is_positive() const noexcept { return sign_ > 0; }
    [[nodiscard]] constexpr bool is_negative() const noexcept { return sign_ < 0; }
    [[nodiscard]] constexpr bool is_zero() const noexcept { return sign_ == 0; }
    friend constexpr bool operator==(triple const& a, triple const& b) noexcept { return a.sign_ == b.sign_ && a.high_ == b.high_ && a.low_ == b.low_ && a.exponent_ == b.exponent_; }
    friend constexpr bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple const& t) {
        auto v = (static_cast<unsigned __int128>(t.high_) << 64U) | t.low_;
        std::string s {};
        do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v != 0);
        return out << (t.sign_ < 0 ? "-" : "") << s << "E" << t.exponent_;
    }
private:
    std::int64_t sign_ {};
    std::uint64_t high_ {};
    std::uint64_t low_ {};
    std::int32_t exponent_ {};
};
} // namespace takatori::decimal
namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
enum class unknown_kind { null };
inline std::ostream& operator<<(std::ostream& out, unknown_kind) { return out << "null"; }
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print_to(out); }
protected:
    data() = default;
    data(data const&) = default;
    data& operator=(data const&) = default;
    virtual bool equals(data const&) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream&) const = 0;
};
template<value_kind K, class E>
class simple_value : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = E;
    using view_type = E;
    explicit simple_value(E v) : value_ { std::move(v) } {}
    [[nodiscard]] E const& get() const noexcept { return value_; }
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] simple_value* clone() const& override { return new simple_value(*this); }
    [[nodiscard]] simple_value* clone() && override { return new simple_value(*this); }
protected:
    bool equals(data const& o) const noexcept override { return value_ == static_cast<simple_value const&>(o).value_; }
    std::ostream& print_to(std::ostream& out) const override { show(out, value_); return out; }
private:
    E value_;
    template<class T> static void show(std::ostream& out, T const& v) { out << v; }
    static void show(std::ostream& out, datetime::date const& v) { out << v.days_since_epoch(); }
    static void show(std::ostream& out, datetime::time_of_day const& v) { out << v.time_since_epoch().count(); }
    static void show(std::ostream& out, datetime::time_point const& v) { out << v.seconds_since_epoch().count() << "." << v.subsecond().count(); }
};
using boolean = simple_value<value_kind::boolean, bool>;
using int4 = simple_value<value_kind::int4, std::int32_t>;
using int8 = simple_value<value_kind::int8, std::int64_t>;
using float4 = simple_value<value_kind::float4, float>;
using float8 = simple_value<value_kind::float8, double>;
using decimal = simple_value<value_kind::decimal, ::takatori::decimal::triple>;
using character = simple_value<value_kind::character, std::string>;
using octet = simple_value<value_kind::octet, std::string>;
using date = simple_value<value_kind::date, datetime::date>;
using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>;
using time_point = simple_value<value_kind::time_point, datetime::time_point>;
class unknown : public simple_value<value_kind::unknown, unknown_kind> {
public:
    explicit unknown(unknown_kind k = unknown_kind::null) : simple_value { k } {}
    [[nodiscard]] unknown* clone() const& override { return new unknown(*this); }
    [[nodiscard]] unknown* clone() && override { return new unknown(*this); }
};
class octet_parse_result {
public:
    octet_parse_result() = default;
    explicit octet_parse_result(std::string e) : error_ { std::move(e) }, ok_ { false } {}
    [[nodiscard]] explicit operator bool() const noexcept { return ok_; }
    [[nodiscard]] std::string const& error() const noexcept { return error_; }
private:
    std::string error_ {};
    bool ok_ { true };
};
/// appends the octets written as hexadecimal digits; blanks between digits are ignored
[[nodiscard]] inline octet_parse_result parse_octet(std::string_view s, std::string& out) {
    int high = -1;
    for (char c : s) {
        if (c == ' ') continue;
        int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (v < 0) return octet_parse_result { "not a hexadecimal digit" };
        if (high < 0) { high = v; } else { out += static_cast<char>(high * 16 + v); high = -1; }
    }
    if (high >= 0) return octet_parse_result { "odd number of digits" };
    return {};
}
} // namespace takatori::value
