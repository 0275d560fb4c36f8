// Accessor based printer of the syntax tree: reads every component of every node
// through the public accessors only (never through operator<< / serialize).
// Form: ["N","ns.cls",[["prop",value],...],b,e] -> compact text, see Out below.
#pragma once
#include <vector>
#include <mizugaki/ast/common/sort_element.h>
#include <mizugaki/ast/common/target_element.h>
#include <mizugaki/ast/literal/boolean.h>
#include <mizugaki/ast/literal/datetime.h>
#include <mizugaki/ast/literal/interval.h>
#include <mizugaki/ast/literal/literal.h>
#include <mizugaki/ast/literal/numeric.h>
#include <mizugaki/ast/literal/special.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/name/name.h>
#include <mizugaki/ast/name/qualified.h>
#include <mizugaki/ast/name/simple.h>
#include <mizugaki/ast/query/binary_expression.h>
#include <mizugaki/ast/query/corresponding_clause.h>
#include <mizugaki/ast/query/expression.h>
#include <mizugaki/ast/query/group_by_clause.h>
#include <mizugaki/ast/query/grouping_column.h>
#include <mizugaki/ast/query/grouping_element.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_asterisk.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/query/select_element.h>
#include <mizugaki/ast/query/table_reference.h>
#include <mizugaki/ast/query/table_value_constructor.h>
#include <mizugaki/ast/query/with_element.h>
#include <mizugaki/ast/query/with_expression.h>
#include <mizugaki/ast/scalar/between_predicate.h>
#include <mizugaki/ast/scalar/binary_expression.h>
#include <mizugaki/ast/scalar/builtin_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_set_function_invocation.h>
#include <mizugaki/ast/scalar/case_expression.h>
#include <mizugaki/ast/scalar/case_when_clause.h>
#include <mizugaki/ast/scalar/cast_expression.h>
#include <mizugaki/ast/scalar/comparison_predicate.h>
#include <mizugaki/ast/scalar/current_of_cursor.h>
#include <mizugaki/ast/scalar/expression.h>
#include <mizugaki/ast/scalar/extract_expression.h>
#include <mizugaki/ast/scalar/field_reference.h>
#include <mizugaki/ast/scalar/function_invocation.h>
#include <mizugaki/ast/scalar/host_parameter_reference.h>
#include <mizugaki/ast/scalar/in_predicate.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/method_invocation.h>
#include <mizugaki/ast/scalar/new_invocation.h>
#include <mizugaki/ast/scalar/pattern_match_predicate.h>
#include <mizugaki/ast/scalar/placeholder_reference.h>
#include <mizugaki/ast/scalar/quantified_comparison_predicate.h>
#include <mizugaki/ast/scalar/static_method_invocation.h>
#include <mizugaki/ast/scalar/subquery.h>
#include <mizugaki/ast/scalar/table_predicate.h>
#include <mizugaki/ast/scalar/trim_expression.h>
#include <mizugaki/ast/scalar/unary_expression.h>
#include <mizugaki/ast/scalar/value_constructor.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/alter_index_action.h>
#include <mizugaki/ast/statement/alter_index_statement.h>
#include <mizugaki/ast/statement/alter_table_action.h>
#include <mizugaki/ast/statement/alter_table_statement.h>
#include <mizugaki/ast/statement/column_constraint_definition.h>
#include <mizugaki/ast/statement/column_definition.h>
#include <mizugaki/ast/statement/constraint.h>
#include <mizugaki/ast/statement/delete_statement.h>
#include <mizugaki/ast/statement/drop_statement.h>
#include <mizugaki/ast/statement/empty_statement.h>
#include <mizugaki/ast/statement/expression_constraint.h>
#include <mizugaki/ast/statement/grant_privilege_statement.h>
#include <mizugaki/ast/statement/identity_constraint.h>
#include <mizugaki/ast/statement/index_definition.h>
#include <mizugaki/ast/statement/insert_statement.h>
#include <mizugaki/ast/statement/key_constraint.h>
#include <mizugaki/ast/statement/privilege_action.h>
#include <mizugaki/ast/statement/privilege_object.h>
#include <mizugaki/ast/statement/privilege_user.h>
#include <mizugaki/ast/statement/referential_constraint.h>
#include <mizugaki/ast/statement/rename_column_action.h>
#include <mizugaki/ast/statement/rename_index_action.h>
#include <mizugaki/ast/statement/rename_table_action.h>
#include <mizugaki/ast/statement/revoke_privilege_statement.h>
#include <mizugaki/ast/statement/schema_definition.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/ast/statement/sequence_definition.h>
#include <mizugaki/ast/statement/set_element.h>
#include <mizugaki/ast/statement/simple_constraint.h>
#include <mizugaki/ast/statement/statement.h>
#include <mizugaki/ast/statement/storage_parameter.h>
#include <mizugaki/ast/statement/table_constraint_definition.h>
#include <mizugaki/ast/statement/table_definition.h>
#include <mizugaki/ast/statement/table_element.h>
#include <mizugaki/ast/statement/truncate_table_statement.h>
#include <mizugaki/ast/statement/update_statement.h>
#include <mizugaki/ast/statement/view_definition.h>
#include <mizugaki/ast/table/apply.h>
#include <mizugaki/ast/table/correlation_clause.h>
#include <mizugaki/ast/table/expression.h>
#include <mizugaki/ast/table/join.h>
#include <mizugaki/ast/table/join_columns.h>
#include <mizugaki/ast/table/join_condition.h>
#include <mizugaki/ast/table/join_specification.h>
#include <mizugaki/ast/table/subquery.h>
#include <mizugaki/ast/table/table_reference.h>
#include <mizugaki/ast/table/unnest.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/bit_string.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/collection.h>
#include <mizugaki/ast/type/datetime.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/field_definition.h>
#include <mizugaki/ast/type/interval.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/row.h>
#include <mizugaki/ast/type/simple.h>
#include <mizugaki/ast/type/type.h>
#include <mizugaki/ast/type/user_defined.h>
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/common/regioned.h>
#include <mizugaki/ast/common/clone_wrapper.h>
#include <map>
#include <typeindex>
#include <functional>
#include <string>
#include <type_traits>

namespace mzdump {
namespace ast = mizugaki::ast;
using region_t = ast::node_region;

enum class mode { none, nodes, all };

inline std::string quote(std::string const& s) {
    static char const* hex = "0123456789abcdef";
    std::string r = "'";
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f || c == '\'' || c == '\\' || c == ';' || c == ',' || c == '{' || c == '}' || c == '[' || c == ']' || c == '=' || c == '@') {
            r += "\\x"; r += hex[c >> 4]; r += hex[c & 15];
        } else { r += static_cast<char>(c); }
    }
    return r + "'";
}

class printer {
public:
    explicit printer(mode m) : mode_ { m } {}
    std::string str() { return std::move(out_); }
    std::string& out() { return out_; }

    void region(region_t const& r, bool node) {
        if (mode_ == mode::none || (mode_ == mode::nodes && !node)) return;
        if (!r) { out_ += "@-"; return; }
        out_ += "@" + std::to_string(r.begin) + ":" + std::to_string(r.end);
    }

    // ---- values
    void put(std::string const& v) { out_ += quote(v); }
    void put(bool v) { out_ += v ? "'true'" : "'false'"; }
    void put(std::size_t v) { if (v == static_cast<std::size_t>(-1)) { out_ += "'*'"; } else { out_ += "'" + std::to_string(v) + "'"; } }
    void put(region_t const& v) { if (!v) return; out_ += "D" + std::to_string(v.begin) + ":" + std::to_string(v.end); }
    template<class T> std::enable_if_t<std::is_enum_v<T>> put(T v) { out_ += quote(std::string { to_string_view(v) }); }
    template<class T> void put(ast::common::regioned<T> const& v) { put(v.value()); region(v.region(), false); }
    template<class T> void put(std::optional<T> const& v) { if (v) put(*v); }
    template<class T> void put(std::unique_ptr<T> const& v) { if (v) put_node(*v); }
    template<class T> void put(std::vector<T> const& v) {
        out_ += "["; bool f = true;
        for (auto&& e : v) { if (!f) { out_ += ","; } f = false; std::size_t n = out_.size(); put(e); if (out_.size() == n) { out_ += "null"; } }
        out_ += "]";
    }
    template<class T> void put(ast::common::clone_wrapper<T> const& v) { put(*v); }
    void put(ast::common::sort_element const& e) { open("common.sort_element"); prop("collation", e.collation()); prop("direction", e.direction()); prop("key", e.key()); prop("null_location", e.null_location()); close(e.region()); }
    void put(ast::common::target_element const& e) { open("common.target_element"); prop("indicator", e.indicator()); prop("target", e.target()); close(e.region()); }
    void put(ast::query::corresponding_clause const& e) { open("query.corresponding_clause"); prop("column_names", e.column_names()); close(e.region()); }
    void put(ast::query::group_by_clause const& e) { open("query.group_by_clause"); prop("elements", e.elements()); close(e.region()); }
    void put(ast::query::with_element const& e) { open("query.with_element"); prop("column_names", e.column_names()); prop("expression", e.expression()); prop("name", e.name()); close(e.region()); }
    void put(ast::scalar::case_when_clause const& e) { open("scalar.case_when_clause"); prop("result", e.result()); prop("when", e.when()); close(e.region()); }
    void put(ast::statement::column_constraint_definition const& e) { open("statement.column_constraint_definition"); prop("body", e.body()); prop("name", e.name()); close(e.region()); }
    void put(ast::statement::privilege_action const& e) { open("statement.privilege_action"); prop("action_kind", e.action_kind()); close(e.region()); }
    void put(ast::statement::privilege_object const& e) { open("statement.privilege_object"); prop("object_kind", e.object_kind()); prop("object_name", e.object_name()); close(e.region()); }
    void put(ast::statement::privilege_user const& e) { open("statement.privilege_user"); prop("authorization_identifier", e.authorization_identifier()); prop("user_kind", e.user_kind()); close(e.region()); }
    void put(ast::statement::set_element const& e) { open("statement.set_element"); prop("target", e.target()); prop("value", e.value()); close(e.region()); }
    void put(ast::statement::storage_parameter const& e) { open("statement.storage_parameter"); prop("name", e.name()); prop("value", e.value()); close(e.region()); }
    void put(ast::table::correlation_clause const& e) { open("table.correlation_clause"); prop("column_names", e.column_names()); prop("correlation_name", e.correlation_name()); close(e.region()); }
    void put(ast::type::field_definition const& e) { open("type.field_definition"); prop("collation", e.collation()); prop("name", e.name()); prop("type", e.type()); close(e.region()); }
    void body(ast::literal::boolean const& e) { open("literal.boolean"); prop("value", e.value()); close(e.region()); }
    void body(ast::literal::datetime const& e) { open("literal.datetime"); prop("value", e.value()); prop("value_kind", e.value_kind()); close(e.region()); }
    void body(ast::literal::interval const& e) { open("literal.interval"); prop("sign", e.sign()); prop("value", e.value()); close(e.region()); }
    void body(ast::literal::numeric const& e) { open("literal.numeric"); prop("sign", e.sign()); prop("unsigned_value", e.unsigned_value()); prop("value_kind", e.value_kind()); close(e.region()); }
    void body(ast::literal::string const& e) { open("literal.string"); prop("concatenations", e.concatenations()); prop("value", e.value()); prop("value_kind", e.value_kind()); close(e.region()); }
    void body(ast::name::qualified const& e) { open("name.qualified"); prop("last", e.last()); prop("qualifier", e.qualifier()); close(e.region()); }
    void body(ast::name::simple const& e) { open("name.simple"); prop("identifier", e.identifier()); prop("identifier_kind", e.identifier_kind()); close(e.region()); }
    void body(ast::query::binary_expression const& e) { open("query.binary_expression"); prop("corresponding", e.corresponding()); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("quantifier", e.quantifier()); prop("right", e.right()); close(e.region()); }
    void body(ast::query::grouping_column const& e) { open("query.grouping_column"); prop("collation", e.collation()); prop("column", e.column()); close(e.region()); }
    void body(ast::query::query const& e) { open("query.query"); prop("elements", e.elements()); prop("from", e.from()); prop("group_by", e.group_by()); prop("having", e.having()); prop("limit", e.limit()); prop("order_by", e.order_by()); prop("quantifier", e.quantifier()); prop("where", e.where()); close(e.region()); }
    void body(ast::query::select_asterisk const& e) { open("query.select_asterisk"); prop("qualifier", e.qualifier()); close(e.region()); }
    void body(ast::query::select_column const& e) { open("query.select_column"); prop("name", e.name()); prop("value", e.value()); close(e.region()); }
    void body(ast::query::table_reference const& e) { open("query.table_reference"); prop("name", e.name()); close(e.region()); }
    void body(ast::query::table_value_constructor const& e) { open("query.table_value_constructor"); prop("elements", e.elements()); close(e.region()); }
    void body(ast::query::with_expression const& e) { open("query.with_expression"); prop("elements", e.elements()); prop("expression", e.expression()); prop("is_recursive", e.is_recursive()); close(e.region()); }
    void body(ast::scalar::between_predicate const& e) { open("scalar.between_predicate"); prop("is_not", e.is_not()); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("right", e.right()); prop("target", e.target()); close(e.region()); }
    void body(ast::scalar::binary_expression const& e) { open("scalar.binary_expression"); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("right", e.right()); close(e.region()); }
    void body(ast::scalar::builtin_function_invocation const& e) { open("scalar.builtin_function_invocation"); prop("arguments", e.arguments()); prop("function", e.function()); close(e.region()); }
    void body(ast::scalar::builtin_set_function_invocation const& e) { open("scalar.builtin_set_function_invocation"); prop("arguments", e.arguments()); prop("function", e.function()); prop("quantifier", e.quantifier()); close(e.region()); }
    void body(ast::scalar::case_expression const& e) { open("scalar.case_expression"); prop("default_result", e.default_result()); prop("operand", e.operand()); prop("when_clauses", e.when_clauses()); close(e.region()); }
    void body(ast::scalar::cast_expression const& e) { open("scalar.cast_expression"); prop("operand", e.operand()); prop("operator_kind", e.operator_kind()); prop("type", e.type()); close(e.region()); }
    void body(ast::scalar::comparison_predicate const& e) { open("scalar.comparison_predicate"); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("right", e.right()); close(e.region()); }
    void body(ast::scalar::current_of_cursor const& e) { open("scalar.current_of_cursor"); prop("name", e.name()); close(e.region()); }
    void body(ast::scalar::extract_expression const& e) { open("scalar.extract_expression"); prop("field", e.field()); prop("operand", e.operand()); prop("subsecond_digits", e.subsecond_digits()); close(e.region()); }
    void body(ast::scalar::field_reference const& e) { open("scalar.field_reference"); prop("name", e.name()); prop("operator_kind", e.operator_kind()); prop("value", e.value()); close(e.region()); }
    void body(ast::scalar::function_invocation const& e) { open("scalar.function_invocation"); prop("arguments", e.arguments()); prop("name", e.name()); close(e.region()); }
    void body(ast::scalar::host_parameter_reference const& e) { open("scalar.host_parameter_reference"); prop("name", e.name()); close(e.region()); }
    void body(ast::scalar::in_predicate const& e) { open("scalar.in_predicate"); prop("is_not", e.is_not()); prop("left", e.left()); prop("right", e.right()); close(e.region()); }
    void body(ast::scalar::literal_expression const& e) { open("scalar.literal_expression"); prop("value", e.value()); close(e.region()); }
    void body(ast::scalar::method_invocation const& e) { open("scalar.method_invocation"); prop("arguments", e.arguments()); prop("name", e.name()); prop("operator_kind", e.operator_kind()); prop("value", e.value()); close(e.region()); }
    void body(ast::scalar::new_invocation const& e) { open("scalar.new_invocation"); prop("arguments", e.arguments()); prop("type", e.type()); close(e.region()); }
    void body(ast::scalar::pattern_match_predicate const& e) { open("scalar.pattern_match_predicate"); prop("escape", e.escape()); prop("is_not", e.is_not()); prop("match_value", e.match_value()); prop("operator_kind", e.operator_kind()); prop("pattern", e.pattern()); close(e.region()); }
    void body(ast::scalar::placeholder_reference const& e) { open("scalar.placeholder_reference"); prop("index", e.index()); close(e.region()); }
    void body(ast::scalar::quantified_comparison_predicate const& e) { open("scalar.quantified_comparison_predicate"); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("quantifier", e.quantifier()); prop("right", e.right()); close(e.region()); }
    void body(ast::scalar::static_method_invocation const& e) { open("scalar.static_method_invocation"); prop("arguments", e.arguments()); prop("name", e.name()); prop("type", e.type()); close(e.region()); }
    void body(ast::scalar::subquery const& e) { open("scalar.subquery"); prop("context_kind", e.context_kind()); prop("query", e.query()); close(e.region()); }
    void body(ast::scalar::table_predicate const& e) { open("scalar.table_predicate"); prop("operand", e.operand()); prop("operator_kind", e.operator_kind()); close(e.region()); }
    void body(ast::scalar::trim_expression const& e) { open("scalar.trim_expression"); prop("character", e.character()); prop("source", e.source()); prop("specification", e.specification()); close(e.region()); }
    void body(ast::scalar::unary_expression const& e) { open("scalar.unary_expression"); prop("operand", e.operand()); prop("operator_kind", e.operator_kind()); close(e.region()); }
    void body(ast::scalar::value_constructor const& e) { open("scalar.value_constructor"); prop("elements", e.elements()); prop("operator_kind", e.operator_kind()); close(e.region()); }
    void body(ast::scalar::variable_reference const& e) { open("scalar.variable_reference"); prop("name", e.name()); close(e.region()); }
    void body(ast::statement::alter_index_statement const& e) { open("statement.alter_index_statement"); prop("action", e.action()); prop("if_exists", e.if_exists()); prop("name", e.name()); close(e.region()); }
    void body(ast::statement::alter_table_statement const& e) { open("statement.alter_table_statement"); prop("action", e.action()); prop("if_exists", e.if_exists()); prop("name", e.name()); close(e.region()); }
    void body(ast::statement::column_definition const& e) { open("statement.column_definition"); prop("constraints", e.constraints()); prop("description", e.description()); prop("name", e.name()); prop("type", e.type()); close(e.region()); }
    void body(ast::statement::delete_statement const& e) { open("statement.delete_statement"); prop("alias_name", e.alias_name()); prop("table_name", e.table_name()); prop("where", e.where()); close(e.region()); }
    void body(ast::statement::drop_statement const& e) { open("statement.drop_statement"); prop("name", e.name()); prop("options", e.options()); prop("statement_kind", e.statement_kind()); close(e.region()); }
    void body(ast::statement::empty_statement const& e) { open("statement.empty_statement"); close(e.region()); }
    void body(ast::statement::expression_constraint const& e) { open("statement.expression_constraint"); prop("constraint_kind", e.constraint_kind()); prop("expression", e.expression()); close(e.region()); }
    void body(ast::statement::grant_privilege_statement const& e) { open("statement.grant_privilege_statement"); prop("actions", e.actions()); prop("objects", e.objects()); prop("users", e.users()); close(e.region()); }
    void body(ast::statement::identity_constraint const& e) { open("statement.identity_constraint"); prop("cycle", e.cycle()); prop("generation", e.generation()); prop("increment_value", e.increment_value()); prop("initial_value", e.initial_value()); prop("max_value", e.max_value()); prop("min_value", e.min_value()); close(e.region()); }
    void body(ast::statement::index_definition const& e) { open("statement.index_definition"); prop("description", e.description()); prop("keys", e.keys()); prop("name", e.name()); prop("options", e.options()); prop("parameters", e.parameters()); prop("predicate", e.predicate()); prop("table_name", e.table_name()); prop("values", e.values()); close(e.region()); }
    void body(ast::statement::insert_statement const& e) { open("statement.insert_statement"); prop("columns", e.columns()); prop("expression", e.expression()); prop("options", e.options()); prop("table_name", e.table_name()); close(e.region()); }
    void body(ast::statement::key_constraint const& e) { open("statement.key_constraint"); prop("constraint_kind", e.constraint_kind()); prop("key", e.key()); prop("parameters", e.parameters()); prop("values", e.values()); close(e.region()); }
    void body(ast::statement::referential_constraint const& e) { open("statement.referential_constraint"); prop("columns", e.columns()); prop("on_delete", e.on_delete()); prop("on_update", e.on_update()); prop("target", e.target()); prop("target_columns", e.target_columns()); close(e.region()); }
    void body(ast::statement::rename_column_action const& e) { open("statement.rename_column_action"); prop("column_name", e.column_name()); prop("if_exists", e.if_exists()); prop("replacement", e.replacement()); close(e.region()); }
    void body(ast::statement::rename_index_action const& e) { open("statement.rename_index_action"); prop("replacement", e.replacement()); close(e.region()); }
    void body(ast::statement::rename_table_action const& e) { open("statement.rename_table_action"); prop("replacement", e.replacement()); close(e.region()); }
    void body(ast::statement::revoke_privilege_statement const& e) { open("statement.revoke_privilege_statement"); prop("actions", e.actions()); prop("objects", e.objects()); prop("users", e.users()); close(e.region()); }
    void body(ast::statement::schema_definition const& e) { open("statement.schema_definition"); prop("description", e.description()); prop("elements", e.elements()); prop("name", e.name()); prop("options", e.options()); prop("user_name", e.user_name()); close(e.region()); }
    void body(ast::statement::select_statement const& e) { open("statement.select_statement"); prop("expression", e.expression()); prop("targets", e.targets()); close(e.region()); }
    void body(ast::statement::sequence_definition const& e) { open("statement.sequence_definition"); prop("description", e.description()); prop("increment_value", e.increment_value()); prop("initial_value", e.initial_value()); prop("max_value", e.max_value()); prop("min_value", e.min_value()); prop("name", e.name()); prop("options", e.options()); prop("owner", e.owner()); prop("type", e.type()); close(e.region()); }
    void body(ast::statement::simple_constraint const& e) { open("statement.simple_constraint"); prop("constraint_kind", e.constraint_kind()); close(e.region()); }
    void body(ast::statement::table_constraint_definition const& e) { open("statement.table_constraint_definition"); prop("body", e.body()); prop("name", e.name()); close(e.region()); }
    void body(ast::statement::table_definition const& e) { open("statement.table_definition"); prop("description", e.description()); prop("elements", e.elements()); prop("name", e.name()); prop("options", e.options()); prop("parameters", e.parameters()); close(e.region()); }
    void body(ast::statement::truncate_table_statement const& e) { open("statement.truncate_table_statement"); prop("identity_column_option", e.identity_column_option()); prop("name", e.name()); close(e.region()); }
    void body(ast::statement::update_statement const& e) { open("statement.update_statement"); prop("alias_name", e.alias_name()); prop("elements", e.elements()); prop("table_name", e.table_name()); prop("where", e.where()); close(e.region()); }
    void body(ast::statement::view_definition const& e) { open("statement.view_definition"); prop("columns", e.columns()); prop("description", e.description()); prop("name", e.name()); prop("options", e.options()); prop("parameters", e.parameters()); prop("query", e.query()); close(e.region()); }
    void body(ast::table::apply const& e) { open("table.apply"); prop("arguments", e.arguments()); prop("correlation", e.correlation()); prop("name", e.name()); prop("operand", e.operand()); prop("operator_kind", e.operator_kind()); close(e.region()); }
    void body(ast::table::join const& e) { open("table.join"); prop("left", e.left()); prop("operator_kind", e.operator_kind()); prop("right", e.right()); prop("specification", e.specification()); close(e.region()); }
    void body(ast::table::join_columns const& e) { open("table.join_columns"); prop("columns", e.columns()); close(e.region()); }
    void body(ast::table::join_condition const& e) { open("table.join_condition"); prop("expression", e.expression()); close(e.region()); }
    void body(ast::table::subquery const& e) { open("table.subquery"); prop("correlation", e.correlation()); prop("expression", e.expression()); prop("is_lateral", e.is_lateral()); close(e.region()); }
    void body(ast::table::table_reference const& e) { open("table.table_reference"); prop("correlation", e.correlation()); prop("is_only", e.is_only()); prop("name", e.name()); close(e.region()); }
    void body(ast::table::unnest const& e) { open("table.unnest"); prop("correlation", e.correlation()); prop("expression", e.expression()); prop("with_ordinality", e.with_ordinality()); close(e.region()); }
    void body(ast::type::binary_numeric const& e) { open("type.binary_numeric"); prop("precision", e.precision()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::bit_string const& e) { open("type.bit_string"); prop("length", e.length()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::character_string const& e) { open("type.character_string"); prop("length", e.length()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::collection const& e) { open("type.collection"); prop("element", e.element()); prop("length", e.length()); close(e.region()); }
    void body(ast::type::datetime const& e) { open("type.datetime"); prop("has_time_zone", e.has_time_zone()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::decimal const& e) { open("type.decimal"); prop("precision", e.precision()); prop("scale", e.scale()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::interval const& e) { open("type.interval"); close(e.region()); }
    void body(ast::type::octet_string const& e) { open("type.octet_string"); prop("length", e.length()); prop("type_kind", e.type_kind()); close(e.region()); }
    void body(ast::type::row const& e) { open("type.row"); prop("elements", e.elements()); close(e.region()); }
    void body(ast::type::simple const& e) { open("type.simple"); prop("type_kind", e.node_kind()); close(e.region()); }
    void body(ast::type::user_defined const& e) { open("type.user_defined"); prop("name", e.name()); close(e.region()); }
    void body(ast::literal::null const& e) { open("literal.null"); close(e.region()); }
    void body(ast::literal::empty const& e) { open("literal.empty"); close(e.region()); }
    void body(ast::literal::default_ const& e) { open("literal.default_"); close(e.region()); }

    void put_node(ast::node const& n) {
        static std::map<std::type_index, std::function<void(printer&, ast::node const&)>> const table = make_table();
        auto it = table.find(std::type_index(typeid(n)));
        if (it == table.end()) { out_ += "UNKNOWN_NODE"; return; }
        it->second(*this, n);
    }

    template<class F> static void each_class(F&& f) {
        f(static_cast<ast::literal::boolean*>(nullptr), "literal.boolean");
        f(static_cast<ast::literal::datetime*>(nullptr), "literal.datetime");
        f(static_cast<ast::literal::interval*>(nullptr), "literal.interval");
        f(static_cast<ast::literal::numeric*>(nullptr), "literal.numeric");
        f(static_cast<ast::literal::string*>(nullptr), "literal.string");
        f(static_cast<ast::name::qualified*>(nullptr), "name.qualified");
        f(static_cast<ast::name::simple*>(nullptr), "name.simple");
        f(static_cast<ast::query::binary_expression*>(nullptr), "query.binary_expression");
        f(static_cast<ast::query::grouping_column*>(nullptr), "query.grouping_column");
        f(static_cast<ast::query::query*>(nullptr), "query.query");
        f(static_cast<ast::query::select_asterisk*>(nullptr), "query.select_asterisk");
        f(static_cast<ast::query::select_column*>(nullptr), "query.select_column");
        f(static_cast<ast::query::table_reference*>(nullptr), "query.table_reference");
        f(static_cast<ast::query::table_value_constructor*>(nullptr), "query.table_value_constructor");
        f(static_cast<ast::query::with_expression*>(nullptr), "query.with_expression");
        f(static_cast<ast::scalar::between_predicate*>(nullptr), "scalar.between_predicate");
        f(static_cast<ast::scalar::binary_expression*>(nullptr), "scalar.binary_expression");
        f(static_cast<ast::scalar::builtin_function_invocation*>(nullptr), "scalar.builtin_function_invocation");
        f(static_cast<ast::scalar::builtin_set_function_invocation*>(nullptr), "scalar.builtin_set_function_invocation");
        f(static_cast<ast::scalar::case_expression*>(nullptr), "scalar.case_expression");
        f(static_cast<ast::scalar::cast_expression*>(nullptr), "scalar.cast_expression");
        f(static_cast<ast::scalar::comparison_predicate*>(nullptr), "scalar.comparison_predicate");
        f(static_cast<ast::scalar::current_of_cursor*>(nullptr), "scalar.current_of_cursor");
        f(static_cast<ast::scalar::extract_expression*>(nullptr), "scalar.extract_expression");
        f(static_cast<ast::scalar::field_reference*>(nullptr), "scalar.field_reference");
        f(static_cast<ast::scalar::function_invocation*>(nullptr), "scalar.function_invocation");
        f(static_cast<ast::scalar::host_parameter_reference*>(nullptr), "scalar.host_parameter_reference");
        f(static_cast<ast::scalar::in_predicate*>(nullptr), "scalar.in_predicate");
        f(static_cast<ast::scalar::literal_expression*>(nullptr), "scalar.literal_expression");
        f(static_cast<ast::scalar::method_invocation*>(nullptr), "scalar.method_invocation");
        f(static_cast<ast::scalar::new_invocation*>(nullptr), "scalar.new_invocation");
        f(static_cast<ast::scalar::pattern_match_predicate*>(nullptr), "scalar.pattern_match_predicate");
        f(static_cast<ast::scalar::placeholder_reference*>(nullptr), "scalar.placeholder_reference");
        f(static_cast<ast::scalar::quantified_comparison_predicate*>(nullptr), "scalar.quantified_comparison_predicate");
        f(static_cast<ast::scalar::static_method_invocation*>(nullptr), "scalar.static_method_invocation");
        f(static_cast<ast::scalar::subquery*>(nullptr), "scalar.subquery");
        f(static_cast<ast::scalar::table_predicate*>(nullptr), "scalar.table_predicate");
        f(static_cast<ast::scalar::trim_expression*>(nullptr), "scalar.trim_expression");
        f(static_cast<ast::scalar::unary_expression*>(nullptr), "scalar.unary_expression");
        f(static_cast<ast::scalar::value_constructor*>(nullptr), "scalar.value_constructor");
        f(static_cast<ast::scalar::variable_reference*>(nullptr), "scalar.variable_reference");
        f(static_cast<ast::statement::alter_index_statement*>(nullptr), "statement.alter_index_statement");
        f(static_cast<ast::statement::alter_table_statement*>(nullptr), "statement.alter_table_statement");
        f(static_cast<ast::statement::column_definition*>(nullptr), "statement.column_definition");
        f(static_cast<ast::statement::delete_statement*>(nullptr), "statement.delete_statement");
        f(static_cast<ast::statement::drop_statement*>(nullptr), "statement.drop_statement");
        f(static_cast<ast::statement::empty_statement*>(nullptr), "statement.empty_statement");
        f(static_cast<ast::statement::expression_constraint*>(nullptr), "statement.expression_constraint");
        f(static_cast<ast::statement::grant_privilege_statement*>(nullptr), "statement.grant_privilege_statement");
        f(static_cast<ast::statement::identity_constraint*>(nullptr), "statement.identity_constraint");
        f(static_cast<ast::statement::index_definition*>(nullptr), "statement.index_definition");
        f(static_cast<ast::statement::insert_statement*>(nullptr), "statement.insert_statement");
        f(static_cast<ast::statement::key_constraint*>(nullptr), "statement.key_constraint");
        f(static_cast<ast::statement::referential_constraint*>(nullptr), "statement.referential_constraint");
        f(static_cast<ast::statement::rename_column_action*>(nullptr), "statement.rename_column_action");
        f(static_cast<ast::statement::rename_index_action*>(nullptr), "statement.rename_index_action");
        f(static_cast<ast::statement::rename_table_action*>(nullptr), "statement.rename_table_action");
        f(static_cast<ast::statement::revoke_privilege_statement*>(nullptr), "statement.revoke_privilege_statement");
        f(static_cast<ast::statement::schema_definition*>(nullptr), "statement.schema_definition");
        f(static_cast<ast::statement::select_statement*>(nullptr), "statement.select_statement");
        f(static_cast<ast::statement::sequence_definition*>(nullptr), "statement.sequence_definition");
        f(static_cast<ast::statement::simple_constraint*>(nullptr), "statement.simple_constraint");
        f(static_cast<ast::statement::table_constraint_definition*>(nullptr), "statement.table_constraint_definition");
        f(static_cast<ast::statement::table_definition*>(nullptr), "statement.table_definition");
        f(static_cast<ast::statement::truncate_table_statement*>(nullptr), "statement.truncate_table_statement");
        f(static_cast<ast::statement::update_statement*>(nullptr), "statement.update_statement");
        f(static_cast<ast::statement::view_definition*>(nullptr), "statement.view_definition");
        f(static_cast<ast::table::apply*>(nullptr), "table.apply");
        f(static_cast<ast::table::join*>(nullptr), "table.join");
        f(static_cast<ast::table::join_columns*>(nullptr), "table.join_columns");
        f(static_cast<ast::table::join_condition*>(nullptr), "table.join_condition");
        f(static_cast<ast::table::subquery*>(nullptr), "table.subquery");
        f(static_cast<ast::table::table_reference*>(nullptr), "table.table_reference");
        f(static_cast<ast::table::unnest*>(nullptr), "table.unnest");
        f(static_cast<ast::type::binary_numeric*>(nullptr), "type.binary_numeric");
        f(static_cast<ast::type::bit_string*>(nullptr), "type.bit_string");
        f(static_cast<ast::type::character_string*>(nullptr), "type.character_string");
        f(static_cast<ast::type::collection*>(nullptr), "type.collection");
        f(static_cast<ast::type::datetime*>(nullptr), "type.datetime");
        f(static_cast<ast::type::decimal*>(nullptr), "type.decimal");
        f(static_cast<ast::type::interval*>(nullptr), "type.interval");
        f(static_cast<ast::type::octet_string*>(nullptr), "type.octet_string");
        f(static_cast<ast::type::row*>(nullptr), "type.row");
        f(static_cast<ast::type::simple*>(nullptr), "type.simple");
        f(static_cast<ast::type::user_defined*>(nullptr), "type.user_defined");
        f(static_cast<ast::literal::null*>(nullptr), "literal.null");
        f(static_cast<ast::literal::empty*>(nullptr), "literal.empty");
        f(static_cast<ast::literal::default_*>(nullptr), "literal.default_");
    }

private:
    mode mode_;
    std::string out_;
    std::vector<bool> first_;

    void open(char const* name) { out_ += name; out_ += "{"; first_.push_back(true); }
    void close(region_t const& r) { out_ += "}"; first_.pop_back(); region(r, true); }
    template<class T> void prop(char const* name, T const& v) {
        std::size_t n = out_.size();
        if (!first_.back()) out_ += ";";
        out_ += name; out_ += "=";
        std::size_t m = out_.size();
        put(v);
        if (out_.size() == m) { out_.resize(n); return; }   // absent
        first_.back() = false;
    }
    static std::map<std::type_index, std::function<void(printer&, ast::node const&)>> make_table() {
        std::map<std::type_index, std::function<void(printer&, ast::node const&)>> r;
        each_class([&](auto* p, char const*) {
            using T = std::remove_pointer_t<decltype(p)>;
            r[std::type_index(typeid(T))] = [](printer& pr, ast::node const& n) { pr.body(static_cast<T const&>(n)); };
        });
        return r;
    }
};

template<class T> std::string dump(T const& n, mode m) { printer p { m }; p.put_node(n); return p.str(); }

} // namespace mzdump
