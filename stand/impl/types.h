// stand-in for takatori::type
#pragma once
#include <cstddef>
#include <optional>
#include <ostream>
#include <string_view>
#include <takatori/util/clone_tag.h>
#include <takatori/util/clonable.h>
namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, row_reference, row_id, declared, extension, blob, clob, table };
inline constexpr std::string_view to_string_view(type_kind k) noexcept {
    constexpr std::string_view names[] { "boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_point", "datetime_interval", "array", "record", "unknown", "row_reference", "row_id", "declared", "extension", "blob", "clob", "table" };
    return names[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << to_string_view(k); }
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print_to(out); }
protected:
    data() = default;
    data(data const&) = default;
    data& operator=(data const&) = default;
    virtual bool equals(data const&) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream&) const = 0;
};
template<type_kind K>
class simple_type : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] simple_type* clone() const& override { return new simple_type(*this); }
    [[nodiscard]] simple_type* clone() && override { return new simple_type(*this); }
protected:
    bool equals(data const&) const noexcept override { return true; }
    std::ostream& print_to(std::ostream& out) const override { return out << K << "()"; }
};
using boolean = simple_type<type_kind::boolean>;
using int1 = simple_type<type_kind::int1>;
using int2 = simple_type<type_kind::int2>;
using int4 = simple_type<type_kind::int4>;
using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>;
using float8 = simple_type<type_kind::float8>;
using date = simple_type<type_kind::date>;
using unknown = simple_type<type_kind::unknown>;
using blob = simple_type<type_kind::blob>;
using clob = simple_type<type_kind::clob>;
struct varying_t {
    explicit constexpr varying_t(bool v = true) noexcept : value { v } {}
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return value; }
    bool value;
};
inline constexpr varying_t varying { true };
inline constexpr varying_t non_varying { false };
inline constexpr varying_t operator~(varying_t v) noexcept { return varying_t { !v.value }; }
struct with_time_zone_t {
    explicit constexpr with_time_zone_t(bool v = true) noexcept : value { v } {}
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return value; }
    bool value;
};
inline constexpr with_time_zone_t with_time_zone { true };
inline constexpr with_time_zone_t operator~(with_time_zone_t v) noexcept { return with_time_zone_t { !v.value }; }
template<type_kind K>
class sequence_type : public data {
public:
    static constexpr type_kind tag = K;
    using size_type = std::size_t;
    explicit sequence_type(std::optional<size_type> length = {}) : varying_ { false }, length_ { length ? length : std::optional<size_type> { 1 } } {}
    explicit sequence_type(varying_t v, std::optional<size_type> length = {}) : varying_ { v.value }, length_ { length } {}
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> const& length() const noexcept { return length_; }
    [[nodiscard]] sequence_type* clone() const& override { return new sequence_type(*this); }
    [[nodiscard]] sequence_type* clone() && override { return new sequence_type(*this); }
protected:
    bool equals(data const& o) const noexcept override { auto&& r = static_cast<sequence_type const&>(o); return varying_ == r.varying_ && length_ == r.length_; }
    std::ostream& print_to(std::ostream& out) const override {
        out << K << "(" << (varying_ ? "varying" : "fixed") << ", ";
        if (length_) out << *length_; else out << "*";
        return out << ")";
    }
private:
    bool varying_;
    std::optional<size_type> length_;
};
using character = sequence_type<type_kind::character>;
using octet = sequence_type<type_kind::octet>;
using bit = sequence_type<type_kind::bit>;
class decimal : public data {
public:
    static constexpr type_kind tag = type_kind::decimal;
    using size_type = std::size_t;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = {}) : precision_ { precision }, scale_ { scale } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::optional<size_type> const& precision() const noexcept { return precision_; }
    [[nodiscard]] std::optional<size_type> const& scale() const noexcept { return scale_; }
    [[nodiscard]] decimal* clone() const& override { return new decimal(*this); }
    [[nodiscard]] decimal* clone() && override { return new decimal(*this); }
protected:
    bool equals(data const& o) const noexcept override { auto&& r = static_cast<decimal const&>(o); return precision_ == r.precision_ && scale_ == r.scale_; }
    std::ostream& print_to(std::ostream& out) const override {
        out << tag << "(";
        if (precision_) out << *precision_; else out << "*";
        out << ", ";
        if (scale_) out << *scale_; else out << "*";
        return out << ")";
    }
private:
    std::optional<size_type> precision_;
    std::optional<size_type> scale_;
};
template<type_kind K>
class zoned_type : public data {
public:
    static constexpr type_kind tag = K;
    explicit zoned_type(with_time_zone_t tz = with_time_zone_t { false }) noexcept : zone_ { tz.value } {}
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] bool with_time_zone() const noexcept { return zone_; }
    [[nodiscard]] zoned_type* clone() const& override { return new zoned_type(*this); }
    [[nodiscard]] zoned_type* clone() && override { return new zoned_type(*this); }
protected:
    bool equals(data const& o) const noexcept override { return zone_ == static_cast<zoned_type const&>(o).zone_; }
    std::ostream& print_to(std::ostream& out) const override { return out << K << "(" << (zone_ ? "zone" : "local") << ")"; }
private:
    bool zone_;
};
using time_of_day = zoned_type<type_kind::time_of_day>;
using time_point = zoned_type<type_kind::time_point>;
} // namespace takatori::type
