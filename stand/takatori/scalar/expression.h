#pragma once
#include <ostream>
#include <string_view>
#include <memory>
#include <takatori/document/region.h>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <takatori/descriptor/variable.h>
#include <takatori/util/ownership_reference.h>
#include <takatori/util/clone_tag.h>
#include <takatori/util/clonable.h>
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
class expression {
public:
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
protected:
    expression() = default;
    expression(expression const&) = default;
private:
    document::region region_ {};
};
class immediate : public expression {
public:
    static constexpr expression_kind tag = expression_kind::immediate;
    explicit immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) noexcept : value_ { std::move(v) }, type_ { std::move(t) } {}
    explicit immediate(value::data&& v, type::data&& t) : value_ { util::clone_shared(std::move(v)) }, type_ { util::clone_shared(std::move(t)) } {}
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; }
    [[nodiscard]] immediate* clone() const& override { return new immediate(*this); }
    [[nodiscard]] immediate* clone() && override { return new immediate(*this); }
    [[nodiscard]] value::data const& value() const noexcept { return *value_; }
    [[nodiscard]] type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<value::data const> shared_value() const noexcept { return value_; }
    [[nodiscard]] std::shared_ptr<type::data const> shared_type() const noexcept { return type_; }
private:
    std::shared_ptr<value::data const> value_;
    std::shared_ptr<type::data const> type_;
};
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
class cast : public expression {
public:
    static constexpr expression_kind tag = expression_kind::cast;
    using loss_policy_kind = cast_loss_policy;
    using loss_policy_type = cast_loss_policy;
    explicit cast(std::shared_ptr<type::data const> t, cast_loss_policy p, std::unique_ptr<expression> e) noexcept : type_ { std::move(t) }, policy_ { p }, operand_ { std::move(e) } {}
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; }
    [[nodiscard]] cast* clone() const& override { auto* r = new cast(type_, policy_, std::unique_ptr<expression>(operand_->clone())); r->region() = region(); return r; }
    [[nodiscard]] cast* clone() && override { auto* r = new cast(type_, policy_, std::move(operand_)); r->region() = region(); return r; }
    [[nodiscard]] type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<type::data const> shared_type() const noexcept { return type_; }
    [[nodiscard]] cast_loss_policy loss_policy() const noexcept { return policy_; }
    [[nodiscard]] std::unique_ptr<expression> release_operand() noexcept { return std::move(operand_); }
    [[nodiscard]] util::ownership_reference<expression> ownership_operand() noexcept { return util::ownership_reference<expression> { operand_ }; }
    [[nodiscard]] expression& operand() noexcept { return *operand_; }
    [[nodiscard]] expression const& operand() const noexcept { return *operand_; }
private:
    std::shared_ptr<type::data const> type_;
    cast_loss_policy policy_;
    std::unique_ptr<expression> operand_;
};
class variable_reference : public expression {
public:
    static constexpr expression_kind tag = expression_kind::variable_reference;
    explicit variable_reference(descriptor::variable v) noexcept : variable_ { std::move(v) } {}
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; }
    [[nodiscard]] variable_reference* clone() const& override { return new variable_reference(*this); }
    [[nodiscard]] variable_reference* clone() && override { return new variable_reference(*this); }
    [[nodiscard]] descriptor::variable& variable() noexcept { return variable_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return variable_; }
private:
    descriptor::variable variable_;
};
} // namespace takatori::scalar
