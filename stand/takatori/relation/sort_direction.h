#pragma once
#include <ostream>
#include <string_view>
namespace takatori::relation {
enum class sort_direction { ascendant, descendant };
inline std::string_view to_string_view(sort_direction d) { return d == sort_direction::ascendant ? "asc" : "desc"; }
inline std::ostream& operator<<(std::ostream& out, sort_direction d) { return out << to_string_view(d); }
} // namespace takatori::relation
