#pragma once
// stand-in: all that the text of a description needs is the source document.
#include <memory>
#include <takatori/document/document.h>
#include <takatori/util/maybe_shared_ptr.h>
namespace mizugaki::analyzer::details {
class analyzer_context {
public:
    explicit analyzer_context(::takatori::document::document const* source) noexcept : source_ { source } {}
    [[nodiscard]] ::takatori::document::document const* source() const noexcept { return source_; }
private:
    ::takatori::document::document const* source_;
};
} // namespace mizugaki::analyzer::details
