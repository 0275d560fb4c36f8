#pragma once
#include <algorithm>
#include <string>
#include <takatori/document/document.h>
namespace takatori::document {
class basic_document : public document {
public:
    explicit basic_document(std::string location, std::string contents) : location_ { std::move(location) }, contents_ { std::move(contents) } {}
    [[nodiscard]] std::string_view location() const noexcept override { return location_; }
    [[nodiscard]] std::string_view contents(std::size_t offset, std::size_t size) const override {
        if (offset >= contents_.size()) return {};
        return std::string_view { contents_ }.substr(offset, std::min(size, contents_.size() - offset));
    }
    [[nodiscard]] std::size_t size() const noexcept override { return contents_.size(); }
private:
    std::string location_;
    std::string contents_;
};
} // namespace takatori::document
