#pragma once
// Stand-in for takatori/util/clone_tag.h (takatori is not available offline).
namespace takatori::util {
struct clone_tag_t { explicit clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag {};
} // namespace takatori::util
