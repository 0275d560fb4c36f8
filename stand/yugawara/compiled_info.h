#pragma once
#include <memory>
#include <utility>
#include <yugawara/analyzer/expression_analyzer.h>
namespace yugawara {
class compiled_info {
public:
    compiled_info() = default;
    compiled_info(std::shared_ptr<analyzer::expression_mapping const> es, std::shared_ptr<analyzer::variable_mapping const> vs) : es_ { std::move(es) }, vs_ { std::move(vs) } {}
    [[nodiscard]] analyzer::variable_mapping const& variables() const noexcept { return *vs_; }
private:
    std::shared_ptr<analyzer::expression_mapping const> es_ {};
    std::shared_ptr<analyzer::variable_mapping const> vs_ {};
};
} // namespace yugawara
