#pragma once
#include <takatori/type/data.h>
#include <yugawara/util/ternary.h>
namespace yugawara::type {
/// a value is passed as is, NULL to anything, and an exact number to a wider type of numbers
inline util::ternary is_parameter_application_convertible(::takatori::type::data const& argument, ::takatori::type::data const& parameter) {
    using k = ::takatori::type::type_kind;
    auto rank = [](k x) { return x == k::int4 ? 1 : x == k::int8 ? 2 : x == k::decimal ? 3 : x == k::float8 ? 4 : 0; };
    auto a = argument.kind();
    auto p = parameter.kind();
    if (a == p || a == k::unknown) return util::ternary::yes;
    return rank(a) != 0 && rank(p) > rank(a) ? util::ternary::yes : util::ternary::no;
}
} // namespace yugawara::type
