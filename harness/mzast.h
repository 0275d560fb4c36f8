// Generated by tools/genast.py: components of every class, and how to make an object of it.
#pragma once
#include "mzdump.h"
namespace mzast {
namespace ast = mizugaki::ast;
template<class T> struct of;
template<> struct of<ast::common::sort_element> {
    static constexpr char const* name = "common.sort_element";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("collation", e.collation()); f("direction", e.direction()); f("key", e.key()); f("null_location", e.null_location()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::common;
        return mizugaki::ast::common::sort_element(std::unique_ptr<scalar::expression> {}, std::unique_ptr<name::name> {}, std::optional<mizugaki::ast::common::sort_element::direction_type> {}, std::optional<mizugaki::ast::common::sort_element::null_location_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::common::target_element> {
    static constexpr char const* name = "common.target_element";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("indicator", e.indicator()); f("target", e.target()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::common;
        return mizugaki::ast::common::target_element(std::unique_ptr<name::name> {}, std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::corresponding_clause> {
    static constexpr char const* name = "query.corresponding_clause";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("column_names", e.column_names()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return mizugaki::ast::query::corresponding_clause(std::vector<std::unique_ptr<name::simple>> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::group_by_clause> {
    static constexpr char const* name = "query.group_by_clause";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return mizugaki::ast::query::group_by_clause(std::vector<std::unique_ptr<mizugaki::ast::query::group_by_clause::element_type>> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::with_element> {
    static constexpr char const* name = "query.with_element";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("column_names", e.column_names()); f("expression", e.expression()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return mizugaki::ast::query::with_element(std::unique_ptr<name::simple> {}, std::vector<std::unique_ptr<name::simple>> {}, std::unique_ptr<ast::query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::case_when_clause> {
    static constexpr char const* name = "scalar.case_when_clause";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("result", e.result()); f("when", e.when()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return mizugaki::ast::scalar::case_when_clause(mizugaki::ast::scalar::case_when_clause::operand_type {}, mizugaki::ast::scalar::case_when_clause::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::column_constraint_definition> {
    static constexpr char const* name = "statement.column_constraint_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("body", e.body()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::column_constraint_definition(std::unique_ptr<name::name> {}, std::unique_ptr<mizugaki::ast::statement::constraint> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::privilege_action> {
    static constexpr char const* name = "statement.privilege_action";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("action_kind", e.action_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::privilege_action();
    }
};
template<> struct of<ast::statement::privilege_object> {
    static constexpr char const* name = "statement.privilege_object";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("object_kind", e.object_kind()); f("object_name", e.object_name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::privilege_object();
    }
};
template<> struct of<ast::statement::privilege_user> {
    static constexpr char const* name = "statement.privilege_user";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("authorization_identifier", e.authorization_identifier()); f("user_kind", e.user_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::privilege_user(mizugaki::ast::statement::privilege_user::user_kind_type {}, std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::set_element> {
    static constexpr char const* name = "statement.set_element";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("target", e.target()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::set_element(std::unique_ptr<name::name> {}, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::storage_parameter> {
    static constexpr char const* name = "statement.storage_parameter";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return mizugaki::ast::statement::storage_parameter(std::unique_ptr<name::name> {}, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::correlation_clause> {
    static constexpr char const* name = "table.correlation_clause";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("column_names", e.column_names()); f("correlation_name", e.correlation_name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return mizugaki::ast::table::correlation_clause(std::unique_ptr<name::simple> {}, std::vector<std::unique_ptr<name::simple>> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::field_definition> {
    static constexpr char const* name = "type.field_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("collation", e.collation()); f("name", e.name()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return mizugaki::ast::type::field_definition(std::unique_ptr<name::simple> {}, std::unique_ptr<ast::type::type> {}, std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::boolean> {
    static constexpr char const* name = "literal.boolean";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::boolean>(mizugaki::ast::literal::boolean::value_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::datetime> {
    static constexpr char const* name = "literal.datetime";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("value", e.value()); f("value_kind", e.value_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::datetime>(mizugaki::ast::literal::kind::date, mizugaki::ast::literal::datetime::value_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::interval> {
    static constexpr char const* name = "literal.interval";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("sign", e.sign()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::interval>(std::optional<mizugaki::ast::literal::interval::sign_type> {}, mizugaki::ast::literal::interval::value_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::numeric> {
    static constexpr char const* name = "literal.numeric";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("sign", e.sign()); f("unsigned_value", e.unsigned_value()); f("value_kind", e.value_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::numeric>(mizugaki::ast::literal::kind::exact_numeric, std::optional<mizugaki::ast::literal::numeric::sign_type> {}, mizugaki::ast::literal::numeric::value_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::string> {
    static constexpr char const* name = "literal.string";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("concatenations", e.concatenations()); f("value", e.value()); f("value_kind", e.value_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::string>(mizugaki::ast::literal::kind::character_string, mizugaki::ast::literal::string::value_type {}, mizugaki::ast::literal::string::concatenations_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::name::qualified> {
    static constexpr char const* name = "name.qualified";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("last", e.last()); f("qualifier", e.qualifier()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::name;
        return std::make_unique<mizugaki::ast::name::qualified>(std::unique_ptr<mizugaki::ast::name::name> {}, std::unique_ptr<mizugaki::ast::name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::name::simple> {
    static constexpr char const* name = "name.simple";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("identifier", e.identifier()); f("identifier_kind", e.identifier_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::name;
        return std::make_unique<mizugaki::ast::name::simple>(mizugaki::ast::name::simple::identifier_type {}, mizugaki::ast::name::simple::identifier_kind_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::binary_expression> {
    static constexpr char const* name = "query.binary_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("corresponding", e.corresponding()); f("left", e.left()); f("operator_kind", e.operator_kind()); f("quantifier", e.quantifier()); f("right", e.right()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::binary_expression>(std::unique_ptr<mizugaki::ast::query::expression> {}, mizugaki::ast::query::binary_expression::operator_kind_type {}, std::optional<mizugaki::ast::query::binary_expression::quantifier_type> {}, std::optional<mizugaki::ast::query::binary_expression::corresponding_type> {}, std::unique_ptr<mizugaki::ast::query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::grouping_column> {
    static constexpr char const* name = "query.grouping_column";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("collation", e.collation()); f("column", e.column()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::grouping_column>(std::unique_ptr<scalar::expression> {}, std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::query> {
    static constexpr char const* name = "query.query";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); f("from", e.from()); f("group_by", e.group_by()); f("having", e.having()); f("limit", e.limit()); f("order_by", e.order_by()); f("quantifier", e.quantifier()); f("where", e.where()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::query>(std::optional<mizugaki::ast::query::query::quantifier_type> {}, std::vector<std::unique_ptr<mizugaki::ast::query::select_element>> {}, std::vector<std::unique_ptr<table::expression>> {}, std::unique_ptr<scalar::expression> {}, std::optional<mizugaki::ast::query::group_by_clause> {}, std::unique_ptr<scalar::expression> {}, std::vector<common::sort_element> {}, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::select_asterisk> {
    static constexpr char const* name = "query.select_asterisk";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("qualifier", e.qualifier()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::select_asterisk>(std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::select_column> {
    static constexpr char const* name = "query.select_column";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::select_column>(std::unique_ptr<scalar::expression> {}, std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::table_reference> {
    static constexpr char const* name = "query.table_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::table_reference>(std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::table_value_constructor> {
    static constexpr char const* name = "query.table_value_constructor";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::table_value_constructor>(std::vector<std::unique_ptr<scalar::expression>> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::query::with_expression> {
    static constexpr char const* name = "query.with_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); f("expression", e.expression()); f("is_recursive", e.is_recursive()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::query;
        return std::make_unique<mizugaki::ast::query::with_expression>(mizugaki::ast::query::with_expression::bool_type {}, std::vector<mizugaki::ast::query::with_expression::element_type> {}, std::unique_ptr<ast::query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::between_predicate> {
    static constexpr char const* name = "scalar.between_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("is_not", e.is_not()); f("left", e.left()); f("operator_kind", e.operator_kind()); f("right", e.right()); f("target", e.target()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::between_predicate>(mizugaki::ast::scalar::between_predicate::operand_type {}, mizugaki::ast::scalar::between_predicate::bool_type {}, std::optional<mizugaki::ast::scalar::between_predicate::operator_kind_type> {}, mizugaki::ast::scalar::between_predicate::operand_type {}, mizugaki::ast::scalar::between_predicate::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::binary_expression> {
    static constexpr char const* name = "scalar.binary_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("left", e.left()); f("operator_kind", e.operator_kind()); f("right", e.right()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::binary_expression>(mizugaki::ast::scalar::binary_expression::operand_type {}, mizugaki::ast::scalar::binary_expression::operator_kind_type {}, mizugaki::ast::scalar::binary_expression::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::builtin_function_invocation> {
    static constexpr char const* name = "scalar.builtin_function_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("function", e.function()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::builtin_function_invocation>(mizugaki::ast::scalar::builtin_function_invocation::function_type {}, std::vector<mizugaki::ast::scalar::builtin_function_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::builtin_set_function_invocation> {
    static constexpr char const* name = "scalar.builtin_set_function_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("function", e.function()); f("quantifier", e.quantifier()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::builtin_set_function_invocation>(mizugaki::ast::scalar::builtin_set_function_invocation::function_type {}, std::optional<mizugaki::ast::scalar::builtin_set_function_invocation::quantifier_type> {}, std::vector<mizugaki::ast::scalar::builtin_set_function_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::case_expression> {
    static constexpr char const* name = "scalar.case_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("default_result", e.default_result()); f("operand", e.operand()); f("when_clauses", e.when_clauses()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::case_expression>(mizugaki::ast::scalar::case_expression::operand_type {}, std::vector<mizugaki::ast::scalar::case_expression::when_clause> {}, mizugaki::ast::scalar::case_expression::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::cast_expression> {
    static constexpr char const* name = "scalar.cast_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("operand", e.operand()); f("operator_kind", e.operator_kind()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::cast_expression>(mizugaki::ast::scalar::cast_expression::operator_kind_type {}, mizugaki::ast::scalar::cast_expression::operand_type {}, std::unique_ptr<type::type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::comparison_predicate> {
    static constexpr char const* name = "scalar.comparison_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("left", e.left()); f("operator_kind", e.operator_kind()); f("right", e.right()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::comparison_predicate>(mizugaki::ast::scalar::comparison_predicate::operand_type {}, mizugaki::ast::scalar::comparison_predicate::operator_kind_type {}, mizugaki::ast::scalar::comparison_predicate::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::current_of_cursor> {
    static constexpr char const* name = "scalar.current_of_cursor";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::current_of_cursor>(std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::extract_expression> {
    static constexpr char const* name = "scalar.extract_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("field", e.field()); f("operand", e.operand()); f("subsecond_digits", e.subsecond_digits()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::extract_expression>(mizugaki::ast::scalar::extract_expression::field_type {}, std::optional<mizugaki::ast::scalar::extract_expression::size_type> {}, mizugaki::ast::scalar::extract_expression::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::field_reference> {
    static constexpr char const* name = "scalar.field_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); f("operator_kind", e.operator_kind()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::field_reference>(mizugaki::ast::scalar::field_reference::operand_type {}, mizugaki::ast::scalar::field_reference::operator_kind_type {}, std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::function_invocation> {
    static constexpr char const* name = "scalar.function_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::function_invocation>(std::unique_ptr<name::name> {}, std::vector<mizugaki::ast::scalar::function_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::host_parameter_reference> {
    static constexpr char const* name = "scalar.host_parameter_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::host_parameter_reference>(std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::in_predicate> {
    static constexpr char const* name = "scalar.in_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("is_not", e.is_not()); f("left", e.left()); f("right", e.right()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::in_predicate>(mizugaki::ast::scalar::in_predicate::operand_type {}, mizugaki::ast::scalar::in_predicate::bool_type {}, std::unique_ptr<query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::literal_expression> {
    static constexpr char const* name = "scalar.literal_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::literal_expression>(std::unique_ptr<literal::literal> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::method_invocation> {
    static constexpr char const* name = "scalar.method_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("name", e.name()); f("operator_kind", e.operator_kind()); f("value", e.value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::method_invocation>(mizugaki::ast::scalar::method_invocation::operand_type {}, mizugaki::ast::scalar::method_invocation::operator_kind_type {}, std::unique_ptr<name::simple> {}, std::vector<mizugaki::ast::scalar::method_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::new_invocation> {
    static constexpr char const* name = "scalar.new_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::new_invocation>(std::unique_ptr<type::type> {}, std::vector<mizugaki::ast::scalar::new_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::pattern_match_predicate> {
    static constexpr char const* name = "scalar.pattern_match_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("escape", e.escape()); f("is_not", e.is_not()); f("match_value", e.match_value()); f("operator_kind", e.operator_kind()); f("pattern", e.pattern()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::pattern_match_predicate>(mizugaki::ast::scalar::pattern_match_predicate::operand_type {}, mizugaki::ast::scalar::pattern_match_predicate::bool_type {}, mizugaki::ast::scalar::pattern_match_predicate::operator_kind_type {}, mizugaki::ast::scalar::pattern_match_predicate::operand_type {}, mizugaki::ast::scalar::pattern_match_predicate::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::placeholder_reference> {
    static constexpr char const* name = "scalar.placeholder_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("index", e.index()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::placeholder_reference>(mizugaki::ast::scalar::placeholder_reference::index_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::quantified_comparison_predicate> {
    static constexpr char const* name = "scalar.quantified_comparison_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("left", e.left()); f("operator_kind", e.operator_kind()); f("quantifier", e.quantifier()); f("right", e.right()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::quantified_comparison_predicate>(mizugaki::ast::scalar::quantified_comparison_predicate::operand_type {}, mizugaki::ast::scalar::quantified_comparison_predicate::operator_kind_type {}, mizugaki::ast::scalar::quantified_comparison_predicate::quantifier_type {}, std::unique_ptr<query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::static_method_invocation> {
    static constexpr char const* name = "scalar.static_method_invocation";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("name", e.name()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::static_method_invocation>(std::unique_ptr<type::type> {}, std::unique_ptr<name::simple> {}, std::vector<mizugaki::ast::scalar::static_method_invocation::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::subquery> {
    static constexpr char const* name = "scalar.subquery";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("context_kind", e.context_kind()); f("query", e.query()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::subquery>(std::unique_ptr<ast::query::expression> {}, mizugaki::ast::scalar::subquery::context_kind_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::table_predicate> {
    static constexpr char const* name = "scalar.table_predicate";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("operand", e.operand()); f("operator_kind", e.operator_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::table_predicate>(mizugaki::ast::scalar::table_predicate::operator_kind_type {}, std::unique_ptr<query::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::trim_expression> {
    static constexpr char const* name = "scalar.trim_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("character", e.character()); f("source", e.source()); f("specification", e.specification()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::trim_expression>(std::optional<mizugaki::ast::scalar::trim_expression::specification_type> {}, mizugaki::ast::scalar::trim_expression::operand_type {}, mizugaki::ast::scalar::trim_expression::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::unary_expression> {
    static constexpr char const* name = "scalar.unary_expression";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("operand", e.operand()); f("operator_kind", e.operator_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::unary_expression>(mizugaki::ast::scalar::unary_expression::operator_kind_type {}, mizugaki::ast::scalar::unary_expression::operand_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::value_constructor> {
    static constexpr char const* name = "scalar.value_constructor";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); f("operator_kind", e.operator_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::value_constructor>(mizugaki::ast::scalar::value_constructor::operator_kind_type {}, std::vector<mizugaki::ast::scalar::value_constructor::operand_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::scalar::variable_reference> {
    static constexpr char const* name = "scalar.variable_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::scalar;
        return std::make_unique<mizugaki::ast::scalar::variable_reference>(std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::alter_index_statement> {
    static constexpr char const* name = "statement.alter_index_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("action", e.action()); f("if_exists", e.if_exists()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::alter_index_statement>(mizugaki::ast::statement::alter_index_statement::bool_type {}, std::unique_ptr<name::name> {}, std::unique_ptr<mizugaki::ast::statement::alter_index_action> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::alter_table_statement> {
    static constexpr char const* name = "statement.alter_table_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("action", e.action()); f("if_exists", e.if_exists()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::alter_table_statement>(mizugaki::ast::statement::alter_table_statement::bool_type {}, std::unique_ptr<name::name> {}, std::unique_ptr<mizugaki::ast::statement::alter_table_action> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::column_definition> {
    static constexpr char const* name = "statement.column_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("constraints", e.constraints()); f("description", e.description()); f("name", e.name()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::column_definition>(std::unique_ptr<name::simple> {}, std::unique_ptr<type::type> {}, std::vector<mizugaki::ast::statement::column_constraint_definition> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::delete_statement> {
    static constexpr char const* name = "statement.delete_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("alias_name", e.alias_name()); f("table_name", e.table_name()); f("where", e.where()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::delete_statement>(std::unique_ptr<name::name> {}, std::unique_ptr<name::simple> {}, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::drop_statement> {
    static constexpr char const* name = "statement.drop_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); f("options", e.options()); f("statement_kind", e.statement_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::drop_statement>(mizugaki::ast::statement::kind::drop_table_statement, std::unique_ptr<name::name> {}, std::vector<mizugaki::ast::statement::drop_statement::option_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::empty_statement> {
    static constexpr char const* name = "statement.empty_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f;  }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::empty_statement>(mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::expression_constraint> {
    static constexpr char const* name = "statement.expression_constraint";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("constraint_kind", e.constraint_kind()); f("expression", e.expression()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::expression_constraint>(mizugaki::ast::statement::constraint_kind::check, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::grant_privilege_statement> {
    static constexpr char const* name = "statement.grant_privilege_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("actions", e.actions()); f("objects", e.objects()); f("users", e.users()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::grant_privilege_statement>(std::vector<mizugaki::ast::statement::privilege_action> {}, std::vector<mizugaki::ast::statement::privilege_object> {}, std::vector<mizugaki::ast::statement::privilege_user> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::identity_constraint> {
    static constexpr char const* name = "statement.identity_constraint";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("cycle", e.cycle()); f("generation", e.generation()); f("increment_value", e.increment_value()); f("initial_value", e.initial_value()); f("max_value", e.max_value()); f("min_value", e.min_value()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::identity_constraint>(mizugaki::ast::statement::identity_constraint::generation_type {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::optional<mizugaki::ast::statement::identity_constraint::bool_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::index_definition> {
    static constexpr char const* name = "statement.index_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("description", e.description()); f("keys", e.keys()); f("name", e.name()); f("options", e.options()); f("parameters", e.parameters()); f("predicate", e.predicate()); f("table_name", e.table_name()); f("values", e.values()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::index_definition>(std::unique_ptr<name::name> {}, std::unique_ptr<name::name> {}, std::vector<common::sort_element> {}, std::vector<std::unique_ptr<scalar::expression>> {}, std::unique_ptr<scalar::expression> {}, std::vector<mizugaki::ast::statement::index_definition::option_type> {}, std::vector<mizugaki::ast::statement::storage_parameter> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::insert_statement> {
    static constexpr char const* name = "statement.insert_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("columns", e.columns()); f("expression", e.expression()); f("options", e.options()); f("table_name", e.table_name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::insert_statement>(std::unique_ptr<name::name> {}, std::vector<std::unique_ptr<name::simple>> {}, std::unique_ptr<query::expression> {}, std::vector<mizugaki::ast::statement::insert_statement::option_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::key_constraint> {
    static constexpr char const* name = "statement.key_constraint";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("constraint_kind", e.constraint_kind()); f("key", e.key()); f("parameters", e.parameters()); f("values", e.values()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::key_constraint>(mizugaki::ast::statement::constraint_kind::unique, std::vector<common::sort_element> {}, std::vector<std::unique_ptr<scalar::expression>> {}, std::vector<mizugaki::ast::statement::storage_parameter> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::referential_constraint> {
    static constexpr char const* name = "statement.referential_constraint";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("columns", e.columns()); f("on_delete", e.on_delete()); f("on_update", e.on_update()); f("target", e.target()); f("target_columns", e.target_columns()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::referential_constraint>(std::vector<std::unique_ptr<name::simple>> {}, std::unique_ptr<name::name> {}, std::vector<std::unique_ptr<name::simple>> {}, std::optional<mizugaki::ast::statement::referential_constraint::action_type> {}, std::optional<mizugaki::ast::statement::referential_constraint::action_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::rename_column_action> {
    static constexpr char const* name = "statement.rename_column_action";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("column_name", e.column_name()); f("if_exists", e.if_exists()); f("replacement", e.replacement()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::rename_column_action>(mizugaki::ast::statement::rename_column_action::bool_type {}, std::unique_ptr<name::simple> {}, std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::rename_index_action> {
    static constexpr char const* name = "statement.rename_index_action";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("replacement", e.replacement()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::rename_index_action>(std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::rename_table_action> {
    static constexpr char const* name = "statement.rename_table_action";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("replacement", e.replacement()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::rename_table_action>(std::unique_ptr<name::simple> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::revoke_privilege_statement> {
    static constexpr char const* name = "statement.revoke_privilege_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("actions", e.actions()); f("objects", e.objects()); f("users", e.users()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::revoke_privilege_statement>(std::vector<mizugaki::ast::statement::privilege_action> {}, std::vector<mizugaki::ast::statement::privilege_object> {}, std::vector<mizugaki::ast::statement::privilege_user> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::schema_definition> {
    static constexpr char const* name = "statement.schema_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("description", e.description()); f("elements", e.elements()); f("name", e.name()); f("options", e.options()); f("user_name", e.user_name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::schema_definition>(std::unique_ptr<name::name> {}, std::unique_ptr<name::simple> {}, std::vector<std::unique_ptr<mizugaki::ast::statement::statement>> {}, std::vector<mizugaki::ast::statement::schema_definition::option_type> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::select_statement> {
    static constexpr char const* name = "statement.select_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("expression", e.expression()); f("targets", e.targets()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::select_statement>(std::unique_ptr<query::expression> {}, std::vector<target_element> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::sequence_definition> {
    static constexpr char const* name = "statement.sequence_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("description", e.description()); f("increment_value", e.increment_value()); f("initial_value", e.initial_value()); f("max_value", e.max_value()); f("min_value", e.min_value()); f("name", e.name()); f("options", e.options()); f("owner", e.owner()); f("type", e.type()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::sequence_definition>(std::unique_ptr<name::name> {}, std::unique_ptr<type::type> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<scalar::expression> {}, std::unique_ptr<name::name> {}, std::vector<mizugaki::ast::statement::sequence_definition::option_type> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::simple_constraint> {
    static constexpr char const* name = "statement.simple_constraint";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("constraint_kind", e.constraint_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::simple_constraint>(mizugaki::ast::statement::constraint_kind::null, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::table_constraint_definition> {
    static constexpr char const* name = "statement.table_constraint_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("body", e.body()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::table_constraint_definition>(std::unique_ptr<name::name> {}, std::unique_ptr<mizugaki::ast::statement::constraint> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::table_definition> {
    static constexpr char const* name = "statement.table_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("description", e.description()); f("elements", e.elements()); f("name", e.name()); f("options", e.options()); f("parameters", e.parameters()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::table_definition>(std::unique_ptr<name::name> {}, std::vector<std::unique_ptr<mizugaki::ast::statement::table_element>> {}, std::vector<mizugaki::ast::statement::table_definition::option_type> {}, std::vector<mizugaki::ast::statement::storage_parameter> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::truncate_table_statement> {
    static constexpr char const* name = "statement.truncate_table_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("identity_column_option", e.identity_column_option()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::truncate_table_statement>(std::unique_ptr<name::name> {}, std::optional<mizugaki::ast::statement::truncate_table_statement::identity_column_option_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::update_statement> {
    static constexpr char const* name = "statement.update_statement";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("alias_name", e.alias_name()); f("elements", e.elements()); f("table_name", e.table_name()); f("where", e.where()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::update_statement>(std::unique_ptr<name::name> {}, std::unique_ptr<name::simple> {}, std::vector<mizugaki::ast::statement::set_element> {}, std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::statement::view_definition> {
    static constexpr char const* name = "statement.view_definition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("columns", e.columns()); f("description", e.description()); f("name", e.name()); f("options", e.options()); f("parameters", e.parameters()); f("query", e.query()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::statement;
        return std::make_unique<mizugaki::ast::statement::view_definition>(std::unique_ptr<name::name> {}, std::vector<std::unique_ptr<name::simple>> {}, std::unique_ptr<query::expression> {}, std::vector<mizugaki::ast::statement::view_definition::option_type> {}, std::vector<mizugaki::ast::statement::storage_parameter> {}, mizugaki::ast::node_region {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::apply> {
    static constexpr char const* name = "table.apply";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("arguments", e.arguments()); f("correlation", e.correlation()); f("name", e.name()); f("operand", e.operand()); f("operator_kind", e.operator_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::apply>(std::unique_ptr<table::expression> {}, std::optional<mizugaki::ast::table::apply::operator_kind_type> {}, std::unique_ptr<name::name> {}, std::vector<std::unique_ptr<scalar::expression>> {}, mizugaki::ast::table::apply::correlation_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::join> {
    static constexpr char const* name = "table.join";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("left", e.left()); f("operator_kind", e.operator_kind()); f("right", e.right()); f("specification", e.specification()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::join>(std::unique_ptr<table::expression> {}, mizugaki::ast::table::join::operator_kind_type {}, std::unique_ptr<table::expression> {}, std::unique_ptr<mizugaki::ast::table::join_specification> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::join_columns> {
    static constexpr char const* name = "table.join_columns";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("columns", e.columns()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::join_columns>(std::vector<std::unique_ptr<name::simple>> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::join_condition> {
    static constexpr char const* name = "table.join_condition";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("expression", e.expression()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::join_condition>(std::unique_ptr<scalar::expression> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::subquery> {
    static constexpr char const* name = "table.subquery";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("correlation", e.correlation()); f("expression", e.expression()); f("is_lateral", e.is_lateral()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::subquery>(mizugaki::ast::table::subquery::bool_type {}, std::unique_ptr<query::expression> {}, mizugaki::ast::table::subquery::correlation_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::table_reference> {
    static constexpr char const* name = "table.table_reference";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("correlation", e.correlation()); f("is_only", e.is_only()); f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::table_reference>(mizugaki::ast::table::table_reference::bool_type {}, std::unique_ptr<name::name> {}, std::optional<mizugaki::ast::table::table_reference::correlation_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::table::unnest> {
    static constexpr char const* name = "table.unnest";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("correlation", e.correlation()); f("expression", e.expression()); f("with_ordinality", e.with_ordinality()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::table;
        return std::make_unique<mizugaki::ast::table::unnest>(std::unique_ptr<scalar::expression> {}, mizugaki::ast::table::unnest::bool_type {}, mizugaki::ast::table::unnest::correlation_type {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::binary_numeric> {
    static constexpr char const* name = "type.binary_numeric";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("precision", e.precision()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::binary_numeric>(mizugaki::ast::type::kind::binary_integer, std::optional<mizugaki::ast::type::binary_numeric::precision_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::bit_string> {
    static constexpr char const* name = "type.bit_string";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("length", e.length()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::bit_string>(mizugaki::ast::type::kind::bit, std::optional<mizugaki::ast::type::bit_string::length_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::character_string> {
    static constexpr char const* name = "type.character_string";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("length", e.length()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::character_string>(mizugaki::ast::type::kind::character, std::optional<mizugaki::ast::type::character_string::length_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::collection> {
    static constexpr char const* name = "type.collection";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("element", e.element()); f("length", e.length()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::collection>(std::unique_ptr<mizugaki::ast::type::type> {}, std::optional<mizugaki::ast::type::collection::length_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::datetime> {
    static constexpr char const* name = "type.datetime";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("has_time_zone", e.has_time_zone()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::datetime>(mizugaki::ast::type::kind::time, std::optional<mizugaki::ast::type::datetime::bool_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::decimal> {
    static constexpr char const* name = "type.decimal";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("precision", e.precision()); f("scale", e.scale()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::decimal>(mizugaki::ast::type::kind::decimal, std::optional<mizugaki::ast::type::decimal::precision_type> {}, std::optional<mizugaki::ast::type::decimal::scale_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::interval> {
    static constexpr char const* name = "type.interval";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f;  }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::interval>(mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::octet_string> {
    static constexpr char const* name = "type.octet_string";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("length", e.length()); f("type_kind", e.type_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::octet_string>(mizugaki::ast::type::kind::octet, std::optional<mizugaki::ast::type::octet_string::length_type> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::row> {
    static constexpr char const* name = "type.row";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("elements", e.elements()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::row>(std::vector<mizugaki::ast::type::field_definition> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::simple> {
    static constexpr char const* name = "type.simple";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("type_kind", e.node_kind()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::simple>(mizugaki::ast::type::kind::boolean, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::type::user_defined> {
    static constexpr char const* name = "type.user_defined";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f; f("name", e.name()); }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::type;
        return std::make_unique<mizugaki::ast::type::user_defined>(std::unique_ptr<name::name> {}, mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::null> {
    static constexpr char const* name = "literal.null";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f;  }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::null>(mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::empty> {
    static constexpr char const* name = "literal.empty";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f;  }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::empty>(mizugaki::ast::node_region {});
    }
};
template<> struct of<ast::literal::default_> {
    static constexpr char const* name = "literal.default_";
    template<class E, class F> static void each(E& e, F&& f) { (void) e; (void) f;  }
    static auto make() {
        using namespace mizugaki::ast; using namespace mizugaki::ast::literal;
        return std::make_unique<mizugaki::ast::literal::default_>(mizugaki::ast::node_region {});
    }
};
template<class F> void elements(F&& f) {
    f(static_cast<ast::common::sort_element*>(nullptr));
    f(static_cast<ast::common::target_element*>(nullptr));
    f(static_cast<ast::query::corresponding_clause*>(nullptr));
    f(static_cast<ast::query::group_by_clause*>(nullptr));
    f(static_cast<ast::query::with_element*>(nullptr));
    f(static_cast<ast::scalar::case_when_clause*>(nullptr));
    f(static_cast<ast::statement::column_constraint_definition*>(nullptr));
    f(static_cast<ast::statement::privilege_action*>(nullptr));
    f(static_cast<ast::statement::privilege_object*>(nullptr));
    f(static_cast<ast::statement::privilege_user*>(nullptr));
    f(static_cast<ast::statement::set_element*>(nullptr));
    f(static_cast<ast::statement::storage_parameter*>(nullptr));
    f(static_cast<ast::table::correlation_clause*>(nullptr));
    f(static_cast<ast::type::field_definition*>(nullptr));
}
template<class E> struct constants;
template<> struct constants<ast::common::null_ordering_specification> { static constexpr std::pair<char const*, ast::common::null_ordering_specification> table[] = {{"first", ast::common::null_ordering_specification::first}, {"last", ast::common::null_ordering_specification::last}}; };
template<> struct constants<ast::common::ordering_specification> { static constexpr std::pair<char const*, ast::common::ordering_specification> table[] = {{"asc", ast::common::ordering_specification::asc}, {"desc", ast::common::ordering_specification::desc}}; };
template<> struct constants<ast::literal::boolean_kind> { static constexpr std::pair<char const*, ast::literal::boolean_kind> table[] = {{"true_", ast::literal::boolean_kind::true_}, {"false_", ast::literal::boolean_kind::false_}, {"unknown", ast::literal::boolean_kind::unknown}}; };
template<> struct constants<ast::literal::kind> { static constexpr std::pair<char const*, ast::literal::kind> table[] = {{"boolean", ast::literal::kind::boolean}, {"exact_numeric", ast::literal::kind::exact_numeric}, {"approximate_numeric", ast::literal::kind::approximate_numeric}, {"character_string", ast::literal::kind::character_string}, {"bit_string", ast::literal::kind::bit_string}, {"hex_string", ast::literal::kind::hex_string}, {"date", ast::literal::kind::date}, {"time", ast::literal::kind::time}, {"time_with_time_zone", ast::literal::kind::time_with_time_zone}, {"timestamp", ast::literal::kind::timestamp}, {"timestamp_with_time_zone", ast::literal::kind::timestamp_with_time_zone}, {"interval", ast::literal::kind::interval}, {"null", ast::literal::kind::null}, {"empty", ast::literal::kind::empty}, {"default_", ast::literal::kind::default_}}; };
template<> struct constants<ast::literal::sign> { static constexpr std::pair<char const*, ast::literal::sign> table[] = {{"plus", ast::literal::sign::plus}, {"minus", ast::literal::sign::minus}}; };
template<> struct constants<ast::name::identifier_kind> { static constexpr std::pair<char const*, ast::name::identifier_kind> table[] = {{"regular", ast::name::identifier_kind::regular}, {"delimited", ast::name::identifier_kind::delimited}}; };
template<> struct constants<ast::name::kind> { static constexpr std::pair<char const*, ast::name::kind> table[] = {{"simple", ast::name::kind::simple}, {"qualified", ast::name::kind::qualified}}; };
template<> struct constants<ast::query::binary_operator> { static constexpr std::pair<char const*, ast::query::binary_operator> table[] = {{"union_", ast::query::binary_operator::union_}, {"outer_union", ast::query::binary_operator::outer_union}, {"except", ast::query::binary_operator::except}, {"intersect", ast::query::binary_operator::intersect}}; };
template<> struct constants<ast::query::grouping_element_kind> { static constexpr std::pair<char const*, ast::query::grouping_element_kind> table[] = {{"column", ast::query::grouping_element_kind::column}}; };
template<> struct constants<ast::query::kind> { static constexpr std::pair<char const*, ast::query::kind> table[] = {{"query", ast::query::kind::query}, {"table_reference", ast::query::kind::table_reference}, {"table_value_constructor", ast::query::kind::table_value_constructor}, {"binary_expression", ast::query::kind::binary_expression}, {"with_expression", ast::query::kind::with_expression}}; };
template<> struct constants<ast::query::select_element_kind> { static constexpr std::pair<char const*, ast::query::select_element_kind> table[] = {{"column", ast::query::select_element_kind::column}, {"asterisk", ast::query::select_element_kind::asterisk}}; };
template<> struct constants<ast::scalar::between_operator> { static constexpr std::pair<char const*, ast::scalar::between_operator> table[] = {{"asymmetric", ast::scalar::between_operator::asymmetric}, {"symmetric", ast::scalar::between_operator::symmetric}}; };
template<> struct constants<ast::scalar::binary_operator> { static constexpr std::pair<char const*, ast::scalar::binary_operator> table[] = {{"plus", ast::scalar::binary_operator::plus}, {"minus", ast::scalar::binary_operator::minus}, {"asterisk", ast::scalar::binary_operator::asterisk}, {"solidus", ast::scalar::binary_operator::solidus}, {"percent", ast::scalar::binary_operator::percent}, {"concatenation", ast::scalar::binary_operator::concatenation}, {"element_reference", ast::scalar::binary_operator::element_reference}, {"at_time_zone", ast::scalar::binary_operator::at_time_zone}, {"and_", ast::scalar::binary_operator::and_}, {"or_", ast::scalar::binary_operator::or_}, {"is", ast::scalar::binary_operator::is}, {"is_not", ast::scalar::binary_operator::is_not}, {"overlaps", ast::scalar::binary_operator::overlaps}, {"is_distinct_from", ast::scalar::binary_operator::is_distinct_from}, {"contains", ast::scalar::binary_operator::contains}, {"is_contained_by", ast::scalar::binary_operator::is_contained_by}, {"have_elements_in_common", ast::scalar::binary_operator::have_elements_in_common}}; };
template<> struct constants<ast::scalar::builtin_function_kind> { static constexpr std::pair<char const*, ast::scalar::builtin_function_kind> table[] = {{"position", ast::scalar::builtin_function_kind::position}, {"length", ast::scalar::builtin_function_kind::length}, {"character_length", ast::scalar::builtin_function_kind::character_length}, {"octet_length", ast::scalar::builtin_function_kind::octet_length}, {"bit_length", ast::scalar::builtin_function_kind::bit_length}, {"cardinality", ast::scalar::builtin_function_kind::cardinality}, {"abs", ast::scalar::builtin_function_kind::abs}, {"ceil", ast::scalar::builtin_function_kind::ceil}, {"floor", ast::scalar::builtin_function_kind::floor}, {"mod", ast::scalar::builtin_function_kind::mod}, {"substring", ast::scalar::builtin_function_kind::substring}, {"upper", ast::scalar::builtin_function_kind::upper}, {"lower", ast::scalar::builtin_function_kind::lower}, {"convert", ast::scalar::builtin_function_kind::convert}, {"translate", ast::scalar::builtin_function_kind::translate}, {"overlay", ast::scalar::builtin_function_kind::overlay}, {"current_date", ast::scalar::builtin_function_kind::current_date}, {"current_time", ast::scalar::builtin_function_kind::current_time}, {"localtime", ast::scalar::builtin_function_kind::localtime}, {"current_timestamp", ast::scalar::builtin_function_kind::current_timestamp}, {"localtimestamp", ast::scalar::builtin_function_kind::localtimestamp}, {"nullif", ast::scalar::builtin_function_kind::nullif}, {"coalesce", ast::scalar::builtin_function_kind::coalesce}, {"next_value_for", ast::scalar::builtin_function_kind::next_value_for}, {"user", ast::scalar::builtin_function_kind::user}, {"current_user", ast::scalar::builtin_function_kind::current_user}, {"current_role", ast::scalar::builtin_function_kind::current_role}, {"system_user", ast::scalar::builtin_function_kind::system_user}, {"current_path", ast::scalar::builtin_function_kind::current_path}}; };
template<> struct constants<ast::scalar::builtin_set_function_kind> { static constexpr std::pair<char const*, ast::scalar::builtin_set_function_kind> table[] = {{"avg", ast::scalar::builtin_set_function_kind::avg}, {"max", ast::scalar::builtin_set_function_kind::max}, {"min", ast::scalar::builtin_set_function_kind::min}, {"sum", ast::scalar::builtin_set_function_kind::sum}, {"every", ast::scalar::builtin_set_function_kind::every}, {"any", ast::scalar::builtin_set_function_kind::any}, {"some", ast::scalar::builtin_set_function_kind::some}, {"count", ast::scalar::builtin_set_function_kind::count}, {"bit_and", ast::scalar::builtin_set_function_kind::bit_and}, {"bit_or", ast::scalar::builtin_set_function_kind::bit_or}, {"bool_and", ast::scalar::builtin_set_function_kind::bool_and}, {"bool_or", ast::scalar::builtin_set_function_kind::bool_or}}; };
template<> struct constants<ast::scalar::cast_operator> { static constexpr std::pair<char const*, ast::scalar::cast_operator> table[] = {{"cast", ast::scalar::cast_operator::cast}, {"treat", ast::scalar::cast_operator::treat}, {"generalize", ast::scalar::cast_operator::generalize}}; };
template<> struct constants<ast::scalar::comparison_operator> { static constexpr std::pair<char const*, ast::scalar::comparison_operator> table[] = {{"equals", ast::scalar::comparison_operator::equals}, {"not_equals", ast::scalar::comparison_operator::not_equals}, {"not_equals_alternative", ast::scalar::comparison_operator::not_equals_alternative}, {"less_than", ast::scalar::comparison_operator::less_than}, {"greater_than", ast::scalar::comparison_operator::greater_than}, {"less_than_or_equals", ast::scalar::comparison_operator::less_than_or_equals}, {"greater_than_or_equals", ast::scalar::comparison_operator::greater_than_or_equals}}; };
template<> struct constants<ast::scalar::expression_context_kind> { static constexpr std::pair<char const*, ast::scalar::expression_context_kind> table[] = {{"scalar", ast::scalar::expression_context_kind::scalar}, {"row", ast::scalar::expression_context_kind::row}}; };
template<> struct constants<ast::scalar::extract_field_kind> { static constexpr std::pair<char const*, ast::scalar::extract_field_kind> table[] = {{"year", ast::scalar::extract_field_kind::year}, {"month", ast::scalar::extract_field_kind::month}, {"day", ast::scalar::extract_field_kind::day}, {"hour", ast::scalar::extract_field_kind::hour}, {"minute", ast::scalar::extract_field_kind::minute}, {"second", ast::scalar::extract_field_kind::second}, {"timezone_hour", ast::scalar::extract_field_kind::timezone_hour}, {"timezone_minute", ast::scalar::extract_field_kind::timezone_minute}, {"date", ast::scalar::extract_field_kind::date}, {"year_to_month", ast::scalar::extract_field_kind::year_to_month}, {"year_to_day", ast::scalar::extract_field_kind::year_to_day}, {"year_to_hour", ast::scalar::extract_field_kind::year_to_hour}, {"year_to_minute", ast::scalar::extract_field_kind::year_to_minute}, {"year_to_second", ast::scalar::extract_field_kind::year_to_second}}; };
template<> struct constants<ast::scalar::kind> { static constexpr std::pair<char const*, ast::scalar::kind> table[] = {{"literal_expression", ast::scalar::kind::literal_expression}, {"variable_reference", ast::scalar::kind::variable_reference}, {"host_parameter_reference", ast::scalar::kind::host_parameter_reference}, {"field_reference", ast::scalar::kind::field_reference}, {"case_expression", ast::scalar::kind::case_expression}, {"cast_expression", ast::scalar::kind::cast_expression}, {"unary_expression", ast::scalar::kind::unary_expression}, {"binary_expression", ast::scalar::kind::binary_expression}, {"extract_expression", ast::scalar::kind::extract_expression}, {"trim_expression", ast::scalar::kind::trim_expression}, {"value_constructor", ast::scalar::kind::value_constructor}, {"subquery", ast::scalar::kind::subquery}, {"comparison_predicate", ast::scalar::kind::comparison_predicate}, {"quantified_comparison_predicate", ast::scalar::kind::quantified_comparison_predicate}, {"between_predicate", ast::scalar::kind::between_predicate}, {"in_predicate", ast::scalar::kind::in_predicate}, {"pattern_match_predicate", ast::scalar::kind::pattern_match_predicate}, {"table_predicate", ast::scalar::kind::table_predicate}, {"function_invocation", ast::scalar::kind::function_invocation}, {"builtin_function_invocation", ast::scalar::kind::builtin_function_invocation}, {"builtin_set_function_invocation", ast::scalar::kind::builtin_set_function_invocation}, {"new_invocation", ast::scalar::kind::new_invocation}, {"method_invocation", ast::scalar::kind::method_invocation}, {"static_method_invocation", ast::scalar::kind::static_method_invocation}, {"current_of_cursor", ast::scalar::kind::current_of_cursor}, {"placeholder_reference", ast::scalar::kind::placeholder_reference}}; };
template<> struct constants<ast::scalar::pattern_match_operator> { static constexpr std::pair<char const*, ast::scalar::pattern_match_operator> table[] = {{"like", ast::scalar::pattern_match_operator::like}, {"similar_to", ast::scalar::pattern_match_operator::similar_to}}; };
template<> struct constants<ast::scalar::quantifier> { static constexpr std::pair<char const*, ast::scalar::quantifier> table[] = {{"all", ast::scalar::quantifier::all}, {"some", ast::scalar::quantifier::some}, {"any", ast::scalar::quantifier::any}}; };
template<> struct constants<ast::scalar::reference_operator> { static constexpr std::pair<char const*, ast::scalar::reference_operator> table[] = {{"period", ast::scalar::reference_operator::period}, {"arrow", ast::scalar::reference_operator::arrow}}; };
template<> struct constants<ast::scalar::set_quantifier> { static constexpr std::pair<char const*, ast::scalar::set_quantifier> table[] = {{"distinct", ast::scalar::set_quantifier::distinct}, {"all", ast::scalar::set_quantifier::all}}; };
template<> struct constants<ast::scalar::table_operator> { static constexpr std::pair<char const*, ast::scalar::table_operator> table[] = {{"exists", ast::scalar::table_operator::exists}, {"unique", ast::scalar::table_operator::unique}}; };
template<> struct constants<ast::scalar::trim_specification> { static constexpr std::pair<char const*, ast::scalar::trim_specification> table[] = {{"leading", ast::scalar::trim_specification::leading}, {"trailing", ast::scalar::trim_specification::trailing}, {"both", ast::scalar::trim_specification::both}}; };
template<> struct constants<ast::scalar::unary_operator> { static constexpr std::pair<char const*, ast::scalar::unary_operator> table[] = {{"plus", ast::scalar::unary_operator::plus}, {"minus", ast::scalar::unary_operator::minus}, {"not_", ast::scalar::unary_operator::not_}, {"at_local", ast::scalar::unary_operator::at_local}, {"reference_resolution", ast::scalar::unary_operator::reference_resolution}}; };
template<> struct constants<ast::scalar::value_constructor_kind> { static constexpr std::pair<char const*, ast::scalar::value_constructor_kind> table[] = {{"array", ast::scalar::value_constructor_kind::array}, {"row", ast::scalar::value_constructor_kind::row}}; };
template<> struct constants<ast::statement::alter_index_action_kind> { static constexpr std::pair<char const*, ast::statement::alter_index_action_kind> table[] = {{"rename_index", ast::statement::alter_index_action_kind::rename_index}}; };
template<> struct constants<ast::statement::alter_table_action_kind> { static constexpr std::pair<char const*, ast::statement::alter_table_action_kind> table[] = {{"rename_table", ast::statement::alter_table_action_kind::rename_table}, {"rename_column", ast::statement::alter_table_action_kind::rename_column}}; };
template<> struct constants<ast::statement::constraint_kind> { static constexpr std::pair<char const*, ast::statement::constraint_kind> table[] = {{"check", ast::statement::constraint_kind::check}, {"unique", ast::statement::constraint_kind::unique}, {"primary_key", ast::statement::constraint_kind::primary_key}, {"referential", ast::statement::constraint_kind::referential}, {"null", ast::statement::constraint_kind::null}, {"not_null", ast::statement::constraint_kind::not_null}, {"default_clause", ast::statement::constraint_kind::default_clause}, {"generation_clause", ast::statement::constraint_kind::generation_clause}, {"identity_column", ast::statement::constraint_kind::identity_column}}; };
template<> struct constants<ast::statement::drop_statement_option> { static constexpr std::pair<char const*, ast::statement::drop_statement_option> table[] = {{"if_exists", ast::statement::drop_statement_option::if_exists}, {"restrict", ast::statement::drop_statement_option::restrict}, {"cascade", ast::statement::drop_statement_option::cascade}}; };
template<> struct constants<ast::statement::identity_column_restart_option> { static constexpr std::pair<char const*, ast::statement::identity_column_restart_option> table[] = {{"continue_identity", ast::statement::identity_column_restart_option::continue_identity}, {"restart_identity", ast::statement::identity_column_restart_option::restart_identity}}; };
template<> struct constants<ast::statement::identity_generation_type> { static constexpr std::pair<char const*, ast::statement::identity_generation_type> table[] = {{"always", ast::statement::identity_generation_type::always}, {"by_default", ast::statement::identity_generation_type::by_default}}; };
template<> struct constants<ast::statement::index_definition_option> { static constexpr std::pair<char const*, ast::statement::index_definition_option> table[] = {{"unique", ast::statement::index_definition_option::unique}, {"if_not_exists", ast::statement::index_definition_option::if_not_exists}}; };
template<> struct constants<ast::statement::insert_statement_option> { static constexpr std::pair<char const*, ast::statement::insert_statement_option> table[] = {{"or_replace", ast::statement::insert_statement_option::or_replace}, {"or_ignore", ast::statement::insert_statement_option::or_ignore}}; };
template<> struct constants<ast::statement::kind> { static constexpr std::pair<char const*, ast::statement::kind> table[] = {{"select_statement", ast::statement::kind::select_statement}, {"insert_statement", ast::statement::kind::insert_statement}, {"update_statement", ast::statement::kind::update_statement}, {"delete_statement", ast::statement::kind::delete_statement}, {"table_definition", ast::statement::kind::table_definition}, {"index_definition", ast::statement::kind::index_definition}, {"view_definition", ast::statement::kind::view_definition}, {"sequence_definition", ast::statement::kind::sequence_definition}, {"schema_definition", ast::statement::kind::schema_definition}, {"alter_table_statement", ast::statement::kind::alter_table_statement}, {"alter_index_statement", ast::statement::kind::alter_index_statement}, {"drop_table_statement", ast::statement::kind::drop_table_statement}, {"drop_index_statement", ast::statement::kind::drop_index_statement}, {"drop_view_statement", ast::statement::kind::drop_view_statement}, {"drop_sequence_statement", ast::statement::kind::drop_sequence_statement}, {"drop_schema_statement", ast::statement::kind::drop_schema_statement}, {"truncate_table_statement", ast::statement::kind::truncate_table_statement}, {"grant_privilege_statement", ast::statement::kind::grant_privilege_statement}, {"revoke_privilege_statement", ast::statement::kind::revoke_privilege_statement}, {"empty_statement", ast::statement::kind::empty_statement}}; };
template<> struct constants<ast::statement::privilege_action_kind> { static constexpr std::pair<char const*, ast::statement::privilege_action_kind> table[] = {{"all_privileges", ast::statement::privilege_action_kind::all_privileges}, {"select", ast::statement::privilege_action_kind::select}, {"insert", ast::statement::privilege_action_kind::insert}, {"update", ast::statement::privilege_action_kind::update}, {"delete_", ast::statement::privilege_action_kind::delete_}}; };
template<> struct constants<ast::statement::privilege_object_kind> { static constexpr std::pair<char const*, ast::statement::privilege_object_kind> table[] = {{"table", ast::statement::privilege_object_kind::table}, {"schema", ast::statement::privilege_object_kind::schema}}; };
template<> struct constants<ast::statement::privilege_user_kind> { static constexpr std::pair<char const*, ast::statement::privilege_user_kind> table[] = {{"identifier", ast::statement::privilege_user_kind::identifier}, {"all_users", ast::statement::privilege_user_kind::all_users}, {"current_user", ast::statement::privilege_user_kind::current_user}, {"public_", ast::statement::privilege_user_kind::public_}}; };
template<> struct constants<ast::statement::referential_action> { static constexpr std::pair<char const*, ast::statement::referential_action> table[] = {{"cascade", ast::statement::referential_action::cascade}, {"set_null", ast::statement::referential_action::set_null}, {"set_default", ast::statement::referential_action::set_default}, {"restrict", ast::statement::referential_action::restrict}, {"no_action", ast::statement::referential_action::no_action}}; };
template<> struct constants<ast::statement::schema_definition_option> { static constexpr std::pair<char const*, ast::statement::schema_definition_option> table[] = {{"if_not_exists", ast::statement::schema_definition_option::if_not_exists}}; };
template<> struct constants<ast::statement::sequence_definition_option> { static constexpr std::pair<char const*, ast::statement::sequence_definition_option> table[] = {{"cycle", ast::statement::sequence_definition_option::cycle}, {"no_cycle", ast::statement::sequence_definition_option::no_cycle}, {"temporary", ast::statement::sequence_definition_option::temporary}, {"if_not_exists", ast::statement::sequence_definition_option::if_not_exists}}; };
template<> struct constants<ast::statement::table_definition_option> { static constexpr std::pair<char const*, ast::statement::table_definition_option> table[] = {{"temporary", ast::statement::table_definition_option::temporary}, {"if_not_exists", ast::statement::table_definition_option::if_not_exists}}; };
template<> struct constants<ast::statement::table_element_kind> { static constexpr std::pair<char const*, ast::statement::table_element_kind> table[] = {{"column_definition", ast::statement::table_element_kind::column_definition}, {"constraint_definition", ast::statement::table_element_kind::constraint_definition}}; };
template<> struct constants<ast::statement::view_definition_option> { static constexpr std::pair<char const*, ast::statement::view_definition_option> table[] = {{"or_replace", ast::statement::view_definition_option::or_replace}, {"temporary", ast::statement::view_definition_option::temporary}, {"recursive", ast::statement::view_definition_option::recursive}, {"if_not_exists", ast::statement::view_definition_option::if_not_exists}}; };
template<> struct constants<ast::table::apply_type> { static constexpr std::pair<char const*, ast::table::apply_type> table[] = {{"cross", ast::table::apply_type::cross}, {"outer", ast::table::apply_type::outer}}; };
template<> struct constants<ast::table::join_specification_kind> { static constexpr std::pair<char const*, ast::table::join_specification_kind> table[] = {{"condition", ast::table::join_specification_kind::condition}, {"columns", ast::table::join_specification_kind::columns}}; };
template<> struct constants<ast::table::join_type> { static constexpr std::pair<char const*, ast::table::join_type> table[] = {{"cross", ast::table::join_type::cross}, {"inner", ast::table::join_type::inner}, {"left_outer", ast::table::join_type::left_outer}, {"right_outer", ast::table::join_type::right_outer}, {"full_outer", ast::table::join_type::full_outer}, {"natural_inner", ast::table::join_type::natural_inner}, {"natural_left_outer", ast::table::join_type::natural_left_outer}, {"natural_right_outer", ast::table::join_type::natural_right_outer}, {"natural_full_outer", ast::table::join_type::natural_full_outer}, {"union_", ast::table::join_type::union_}}; };
template<> struct constants<ast::table::kind> { static constexpr std::pair<char const*, ast::table::kind> table[] = {{"table_reference", ast::table::kind::table_reference}, {"unnest", ast::table::kind::unnest}, {"join", ast::table::kind::join}, {"subquery", ast::table::kind::subquery}, {"apply", ast::table::kind::apply}}; };
template<> struct constants<ast::type::kind> { static constexpr std::pair<char const*, ast::type::kind> table[] = {{"unknown", ast::type::kind::unknown}, {"character", ast::type::kind::character}, {"character_varying", ast::type::kind::character_varying}, {"character_large_object", ast::type::kind::character_large_object}, {"bit", ast::type::kind::bit}, {"bit_varying", ast::type::kind::bit_varying}, {"octet", ast::type::kind::octet}, {"octet_varying", ast::type::kind::octet_varying}, {"binary_large_object", ast::type::kind::binary_large_object}, {"numeric", ast::type::kind::numeric}, {"decimal", ast::type::kind::decimal}, {"tiny_integer", ast::type::kind::tiny_integer}, {"small_integer", ast::type::kind::small_integer}, {"integer", ast::type::kind::integer}, {"big_integer", ast::type::kind::big_integer}, {"float_", ast::type::kind::float_}, {"real", ast::type::kind::real}, {"double_precision", ast::type::kind::double_precision}, {"binary_integer", ast::type::kind::binary_integer}, {"binary_float", ast::type::kind::binary_float}, {"boolean", ast::type::kind::boolean}, {"date", ast::type::kind::date}, {"time", ast::type::kind::time}, {"timestamp", ast::type::kind::timestamp}, {"interval", ast::type::kind::interval}, {"row", ast::type::kind::row}, {"user_defined", ast::type::kind::user_defined}, {"collection", ast::type::kind::collection}}; };
} // namespace mzast
