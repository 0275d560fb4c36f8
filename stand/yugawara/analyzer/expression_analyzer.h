#pragma once
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/expression.h>
#include <takatori/scalar/expression.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <impl/catalog.h>
#include <impl/relations.h>
#include <yugawara/diagnostic.h>
#include <yugawara/util/object_repository.h>
#include <yugawara/type/conversion.h>
#include <takatori/type/table.h>
#include <takatori/type/primitive.h>
namespace yugawara::analyzer {
enum class expression_analyzer_code { unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type };
inline std::ostream& operator<<(std::ostream& out, expression_analyzer_code c) { return out << static_cast<int>(c); }
class variable_resolution {
public:
    variable_resolution() = default;
    variable_resolution(std::shared_ptr<::takatori::type::data const> t) : type_ { std::move(t) } {} // NOLINT
    variable_resolution(::yugawara::storage::column const& c) : type_ { c.shared_type() } {} // NOLINT
    [[nodiscard]] bool is_resolved() const noexcept { return type_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& type() const noexcept { return type_; }
private:
    std::shared_ptr<::takatori::type::data const> type_ {};
};
class variable_mapping {
public:
    [[nodiscard]] variable_resolution const& find(::takatori::descriptor::variable const& v) const {
        static variable_resolution const none {};
        for (auto&& e : es_) if (e.first == v) return e.second;
        return none;
    }
    variable_resolution const& bind(::takatori::descriptor::variable const& v, variable_resolution r, bool overwrite = false) {
        for (auto&& e : es_) if (e.first == v) { if (overwrite) e.second = std::move(r); return e.second; }
        es_.emplace_back(v, std::move(r));
        return es_.back().second;
    }
    void clear() { es_.clear(); }
private:
    std::vector<std::pair<::takatori::descriptor::variable, variable_resolution>> es_ {};
};
class expression_mapping {
public:
    void clear() {}
    void unbind(::takatori::scalar::expression const&) {}
};
class expression_analyzer {
public:
    using diagnostic_type = diagnostic<expression_analyzer_code>;
    using type_repository = util::object_repository<::takatori::type::data>;
    /// just enough of the inference of types to tell overloaded functions apart
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> resolve(::takatori::scalar::expression const& e, bool, type_repository& ts) { return infer(e, ts); }
    [[nodiscard]] bool resolve(::takatori::relation::expression const& e, bool, bool, type_repository& ts) {
        using namespace ::takatori::relation;
        switch (e.kind()) {
            case expression_kind::scan:
                for (auto&& c : static_cast<scan const&>(e).columns()) put(c.destination(), static_cast<::yugawara::storage::column const*>(c.source().reference().declaration)->shared_type());
                break;
            case expression_kind::values: {
                auto&& v = static_cast<values const&>(e);
                for (std::size_t i = 0; i < v.columns().size(); ++i) {
                    std::shared_ptr<::takatori::type::data const> t = ts.get(::takatori::type::unknown {});
                    for (auto&& r : v.rows()) if (i < r.elements().size()) t = wider(t, infer(r.elements()[i], ts));
                    put(v.columns()[i], t);
                }
                break;
            }
            case expression_kind::project:
                for (auto&& c : static_cast<project const&>(e).columns()) put(c.variable(), infer(c.value(), ts));
                break;
            case expression_kind::apply: {
                auto&& a = static_cast<apply const&>(e);
                auto&& t = static_cast<::takatori::type::table const&>(a.function().get().return_type());
                for (auto&& c : a.columns()) put(c.variable(), ts.get(t.columns()[c.position()].type()));
                break;
            }
            case expression_kind::union_:
                for (auto&& m : static_cast<intermediate::union_ const&>(e).mappings()) put(m.destination(), vs_->find(*(m.left() ? m.left() : m.right())).type());
                break;
            case expression_kind::aggregate:
                for (auto&& c : static_cast<intermediate::aggregate const&>(e).columns()) put(c.destination(), c.function().get().shared_return_type());
                break;
            case expression_kind::extension:
                for (auto&& m : static_cast<extension::relation::subquery const&>(e).mappings()) put(m.destination(), vs_->find(m.source()).type());
                break;
            default:
                break;
        }
        return true;
    }
    [[nodiscard]] bool has_diagnostics() const { return !ds_.empty(); }
    [[nodiscard]] std::vector<diagnostic_type> const& diagnostics() const { return ds_; }
    void clear_diagnostics() { ds_.clear(); }
    bool& allow_unresolved() { return allow_; }
    expression_analyzer& allow_unresolved(bool v) { allow_ = v; return *this; }
    [[nodiscard]] variable_mapping& variables() { return *vs_; }
    [[nodiscard]] variable_mapping const& variables() const { return *vs_; }
    [[nodiscard]] expression_mapping& expressions() { return *es_; }
    [[nodiscard]] ::takatori::util::maybe_shared_ptr<variable_mapping const> shared_variables() const { return std::shared_ptr<variable_mapping const> { vs_ }; }
    [[nodiscard]] ::takatori::util::maybe_shared_ptr<expression_mapping const> shared_expressions() const { return std::shared_ptr<expression_mapping const> { es_ }; }
private:
    using type_ptr = std::shared_ptr<::takatori::type::data const>;
    void put(::takatori::descriptor::variable const& v, type_ptr t) { if (t) vs_->bind(v, std::move(t), true); }
    static type_ptr wider(type_ptr a, type_ptr b) { return ::yugawara::type::is_parameter_application_convertible(*a, *b) == ::yugawara::util::ternary::yes ? b : a; }
    type_ptr infer(::takatori::scalar::expression const& e, type_repository& ts) {
        using namespace ::takatori::scalar;
        type_ptr none = ts.get(::takatori::type::unknown {});
        type_ptr truth = ts.get(::takatori::type::boolean {});
        switch (e.kind()) {
            case expression_kind::immediate: return static_cast<immediate const&>(e).shared_type();
            case expression_kind::variable_reference: {
                auto&& v = static_cast<variable_reference const&>(e).variable();
                auto r = vs_->find(v).type();
                if (r == nullptr && v.reference().origin != nullptr) r = vs_->find(::takatori::descriptor::variable { v.reference().origin }).type();
                if (r == nullptr && v.reference().kind == "external") r = static_cast<::yugawara::variable::declaration const*>(v.reference().declaration)->shared_type();
                return r ? r : none;
            }
            case expression_kind::cast: return static_cast<cast const&>(e).shared_type();
            case expression_kind::unary: {
                auto&& u = static_cast<unary const&>(e);
                return u.operator_kind() == unary_operator::plus || u.operator_kind() == unary_operator::sign_inversion ? infer(u.operand(), ts) : truth;
            }
            case expression_kind::binary: {
                auto&& b = static_cast<binary const&>(e);
                if (b.operator_kind() == binary_operator::conditional_and || b.operator_kind() == binary_operator::conditional_or) return truth;
                return wider(infer(b.left(), ts), infer(b.right(), ts));
            }
            case expression_kind::compare: case expression_kind::match: return truth;
            case expression_kind::conditional: {
                auto&& c = static_cast<conditional const&>(e);
                auto r = none;
                for (auto&& a : c.alternatives()) r = wider(r, infer(a.body(), ts));
                if (c.default_expression()) r = wider(r, infer(*c.default_expression(), ts));
                return r;
            }
            case expression_kind::coalesce: {
                auto r = none;
                for (auto&& a : static_cast<coalesce const&>(e).alternatives()) r = wider(r, infer(a, ts));
                return r;
            }
            case expression_kind::let: {
                auto&& l = static_cast<let const&>(e);
                for (auto&& v : l.variables()) put(v.variable(), infer(v.value(), ts));
                return infer(l.body(), ts);
            }
            case expression_kind::function_call: return static_cast<function_call const&>(e).function().get().shared_return_type();
            case expression_kind::extension: {
                using namespace extension::scalar;
                auto&& x = static_cast<::takatori::scalar::extension const&>(e);
                if (x.extension_id() == aggregate_function_call::extension_tag) return static_cast<aggregate_function_call const&>(x).function().get().shared_return_type();
                if (x.extension_id() == extension::scalar::subquery::extension_tag) { auto r = vs_->find(static_cast<extension::scalar::subquery const&>(x).output_column()).type(); return r ? r : none; }
                return truth;
            }
        }
        return none;
    }
    std::vector<diagnostic_type> ds_ {};
    std::shared_ptr<variable_mapping> vs_ { std::make_shared<variable_mapping>() };
    std::shared_ptr<expression_mapping> es_ { std::make_shared<expression_mapping>() };
    bool allow_ { false };
};
} // namespace yugawara::analyzer
