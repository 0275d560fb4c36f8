// sources: src/mizugaki/ast/statement/identity_column_restart_option.cpp
// Names of enumeration constants, classes of kinds and lookup by name, as the code under test has them.
#include <cxxabi.h>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <thread>
#include <vector>
#include <mizugaki/analyzer/sql_analyzer_code.h>
#include <mizugaki/analyzer/sql_analyzer_result_kind.h>
#include <mizugaki/ast/common/null_ordering_specification.h>
#include <mizugaki/ast/common/ordering_specification.h>
#include <mizugaki/ast/literal/boolean_kind.h>
#include <mizugaki/ast/literal/kind.h>
#include <mizugaki/ast/literal/sign.h>
#include <mizugaki/ast/name/identifier_kind.h>
#include <mizugaki/ast/name/kind.h>
#include <mizugaki/ast/query/binary_operator.h>
#include <mizugaki/ast/query/grouping_element_kind.h>
#include <mizugaki/ast/query/kind.h>
#include <mizugaki/ast/query/select_element_kind.h>
#include <mizugaki/ast/scalar/between_operator.h>
#include <mizugaki/ast/scalar/binary_operator.h>
#include <mizugaki/ast/scalar/builtin_function_kind.h>
#include <mizugaki/ast/scalar/builtin_set_function_kind.h>
#include <mizugaki/ast/scalar/cast_operator.h>
#include <mizugaki/ast/scalar/comparison_operator.h>
#include <mizugaki/ast/scalar/expression_context_kind.h>
#include <mizugaki/ast/scalar/extract_field_kind.h>
#include <mizugaki/ast/scalar/kind.h>
#include <mizugaki/ast/scalar/pattern_match_operator.h>
#include <mizugaki/ast/scalar/quantifier.h>
#include <mizugaki/ast/scalar/reference_operator.h>
#include <mizugaki/ast/scalar/set_quantifier.h>
#include <mizugaki/ast/scalar/table_operator.h>
#include <mizugaki/ast/scalar/trim_specification.h>
#include <mizugaki/ast/scalar/unary_operator.h>
#include <mizugaki/ast/scalar/value_constructor_kind.h>
#include <mizugaki/ast/statement/alter_index_action_kind.h>
#include <mizugaki/ast/statement/alter_table_action_kind.h>
#include <mizugaki/ast/statement/constraint_kind.h>
#include <mizugaki/ast/statement/drop_statement_option.h>
#include <mizugaki/ast/statement/identity_column_restart_option.h>
#include <mizugaki/ast/statement/identity_generation_type.h>
#include <mizugaki/ast/statement/index_definition_option.h>
#include <mizugaki/ast/statement/insert_statement_option.h>
#include <mizugaki/ast/statement/kind.h>
#include <mizugaki/ast/statement/privilege_action_kind.h>
#include <mizugaki/ast/statement/privilege_object_kind.h>
#include <mizugaki/ast/statement/privilege_user_kind.h>
#include <mizugaki/ast/statement/referential_action.h>
#include <mizugaki/ast/statement/schema_definition_option.h>
#include <mizugaki/ast/statement/sequence_definition_option.h>
#include <mizugaki/ast/statement/table_definition_option.h>
#include <mizugaki/ast/statement/table_element_kind.h>
#include <mizugaki/ast/statement/view_definition_option.h>
#include <mizugaki/ast/table/apply_type.h>
#include <mizugaki/ast/table/join_specification_kind.h>
#include <mizugaki/ast/table/join_type.h>
#include <mizugaki/ast/table/kind.h>
#include <mizugaki/ast/type/kind.h>
#include <mizugaki/parser/sql_parser_code.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
#include <mizugaki/analyzer/details/value_context_kind.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>
using namespace mizugaki;

template<class T> std::string name_answer(T v) {
    std::string_view a = to_string_view(v);
    std::string s { a };
    std::ostringstream o;
    o << std::hex << std::showbase << std::boolalpha << "<";
    std::ostream& r = (o << v);
    o << ">";
    o << v << v;
    std::string_view b = to_string_view(v);
    bool same = &r == static_cast<std::ostream*>(&o) && b == s && o.str() == "<" + s + ">" + s + s && o.good();
    if (! same) return s + " streamed as " + o.str() + " then " + std::string { b };
    return s;
}
template<class E, E F, E L> std::string all(takatori::util::enum_set<E, F, L>) {
    std::string r;
    using U = std::underlying_type_t<E>;
    for (auto i = static_cast<U>(F); i <= static_cast<U>(L); ++i) { r += " "; r += to_string_view(static_cast<E>(i)); }
    return r;
}
template<class C, class = void> struct has_tag : std::false_type {};
template<class C> struct has_tag<C, std::void_t<decltype(C::tag)>> : std::true_type {};
template<class C> struct is_special : std::false_type {};
template<ast::literal::kind K> struct is_special<ast::literal::special<K>> : std::true_type {};
template<class C> struct type_name {};
template<class C> std::string class_of() {
    int st = 0;
    std::unique_ptr<char, void(*)(void*)> p { abi::__cxa_demangle(typeid(type_name<C>).name(), nullptr, nullptr, &st), std::free };
    std::string s { p ? p.get() : "?" };
    if constexpr (is_special<C>::value) {
        return std::string { to_string_view(C::tag) };
    }
    if (! s.empty() && s.back() == '>') s.pop_back();
    auto at = s.rfind("::");
    return at == std::string::npos ? s : s.substr(at + 2);
}
template<class C> std::string tags_of() {
    if constexpr (has_tag<C>::value) {
        return " " + std::string { to_string_view(C::tag) };
    } else {
        std::string r;
        for (auto k : C::tags) { r += " "; r += to_string_view(k); }
        return r;
    }
}
using fn = std::string (*)();
using tab = std::map<std::string, fn>;
#define NAME(e, c) m["name " #e " " #c] = [] { return " " + name_answer(e::c); };
#define SET(e, s) m["set " #e " "] = [] { return all(s {}); };
#define CLS(e, k, c, t) m["class " #e " " #k] = [] { return " " + class_of<t<e, e::k>::type>(); }; \
    m["tags " #e " " #c] = [] { return tags_of<t<e, e::k>::type>(); };

static void names(tab& m) {
    NAME(analyzer::sql_analyzer_code, unknown)
    NAME(analyzer::sql_analyzer_code, unsupported_feature)
    NAME(analyzer::sql_analyzer_code, malformed_syntax)
    NAME(analyzer::sql_analyzer_code, missing_context_of_default_value)
    NAME(analyzer::sql_analyzer_code, missing_context_of_null)
    NAME(analyzer::sql_analyzer_code, unsupported_decimal_value)
    NAME(analyzer::sql_analyzer_code, malformed_approximate_number)
    NAME(analyzer::sql_analyzer_code, unsupported_approximate_number)
    NAME(analyzer::sql_analyzer_code, malformed_quoted_string)
    NAME(analyzer::sql_analyzer_code, unsupported_string_value)
    NAME(analyzer::sql_analyzer_code, flexible_length_is_not_supported)
    NAME(analyzer::sql_analyzer_code, invalid_type_length)
    NAME(analyzer::sql_analyzer_code, invalid_numeric_scale)
    NAME(analyzer::sql_analyzer_code, catalog_not_found)
    NAME(analyzer::sql_analyzer_code, schema_not_found)
    NAME(analyzer::sql_analyzer_code, table_not_found)
    NAME(analyzer::sql_analyzer_code, index_not_found)
    NAME(analyzer::sql_analyzer_code, view_not_found)
    NAME(analyzer::sql_analyzer_code, sequence_not_found)
    NAME(analyzer::sql_analyzer_code, column_not_found)
    NAME(analyzer::sql_analyzer_code, variable_not_found)
    NAME(analyzer::sql_analyzer_code, function_not_found)
    NAME(analyzer::sql_analyzer_code, symbol_not_found)
    NAME(analyzer::sql_analyzer_code, schema_already_exists)
    NAME(analyzer::sql_analyzer_code, table_already_exists)
    NAME(analyzer::sql_analyzer_code, index_already_exists)
    NAME(analyzer::sql_analyzer_code, view_already_exists)
    NAME(analyzer::sql_analyzer_code, sequence_already_exists)
    NAME(analyzer::sql_analyzer_code, column_already_exists)
    NAME(analyzer::sql_analyzer_code, variable_already_exists)
    NAME(analyzer::sql_analyzer_code, function_already_exists)
    NAME(analyzer::sql_analyzer_code, symbol_already_exists)
    NAME(analyzer::sql_analyzer_code, primary_index_not_found)
    NAME(analyzer::sql_analyzer_code, primary_index_already_exists)
    NAME(analyzer::sql_analyzer_code, invalid_constraint)
    NAME(analyzer::sql_analyzer_code, invalid_sequence_value)
    NAME(analyzer::sql_analyzer_code, relation_ambiguous)
    NAME(analyzer::sql_analyzer_code, variable_ambiguous)
    NAME(analyzer::sql_analyzer_code, column_ambiguous)
    NAME(analyzer::sql_analyzer_code, function_ambiguous)
    NAME(analyzer::sql_analyzer_code, invalid_unsigned_integer)
    NAME(analyzer::sql_analyzer_code, inconsistent_table)
    NAME(analyzer::sql_analyzer_code, inconsistent_columns)
    NAME(analyzer::sql_analyzer_code, invalid_aggregation_column)
    NAME(analyzer::sql_analyzer_code, ambiguous_type)
    NAME(analyzer::sql_analyzer_code, inconsistent_type)
    NAME(analyzer::sql_analyzer_code, unresolved_variable)
    NAME(analyzer::sql_analyzer_code, inconsistent_elements)
    NAME(analyzer::sql_analyzer_code, inconsistent_function_type)
    NAME(analyzer::sql_analyzer_result_kind, diagnostics)
    NAME(analyzer::sql_analyzer_result_kind, execution_plan)
    NAME(analyzer::sql_analyzer_result_kind, statement)
    NAME(ast::common::null_ordering_specification, first)
    NAME(ast::common::null_ordering_specification, last)
    NAME(ast::common::ordering_specification, asc)
    NAME(ast::common::ordering_specification, desc)
    NAME(ast::literal::boolean_kind, true_)
    NAME(ast::literal::boolean_kind, false_)
    NAME(ast::literal::boolean_kind, unknown)
    NAME(ast::literal::kind, boolean)
    NAME(ast::literal::kind, exact_numeric)
    NAME(ast::literal::kind, approximate_numeric)
    NAME(ast::literal::kind, character_string)
    NAME(ast::literal::kind, bit_string)
    NAME(ast::literal::kind, hex_string)
    NAME(ast::literal::kind, date)
    NAME(ast::literal::kind, time)
    NAME(ast::literal::kind, time_with_time_zone)
    NAME(ast::literal::kind, timestamp)
    NAME(ast::literal::kind, timestamp_with_time_zone)
    NAME(ast::literal::kind, interval)
    NAME(ast::literal::kind, null)
    NAME(ast::literal::kind, empty)
    NAME(ast::literal::kind, default_)
    NAME(ast::literal::sign, plus)
    NAME(ast::literal::sign, minus)
    NAME(ast::name::identifier_kind, regular)
    NAME(ast::name::identifier_kind, delimited)
    NAME(ast::name::kind, simple)
    NAME(ast::name::kind, qualified)
    NAME(ast::query::binary_operator, union_)
    NAME(ast::query::binary_operator, outer_union)
    NAME(ast::query::binary_operator, except)
    NAME(ast::query::binary_operator, intersect)
    NAME(ast::query::grouping_element_kind, column)
    NAME(ast::query::kind, query)
    NAME(ast::query::kind, table_reference)
    NAME(ast::query::kind, table_value_constructor)
    NAME(ast::query::kind, binary_expression)
    NAME(ast::query::kind, with_expression)
    NAME(ast::query::select_element_kind, column)
    NAME(ast::query::select_element_kind, asterisk)
    NAME(ast::scalar::between_operator, asymmetric)
    NAME(ast::scalar::between_operator, symmetric)
    NAME(ast::scalar::binary_operator, plus)
    NAME(ast::scalar::binary_operator, minus)
    NAME(ast::scalar::binary_operator, asterisk)
    NAME(ast::scalar::binary_operator, solidus)
    NAME(ast::scalar::binary_operator, percent)
    NAME(ast::scalar::binary_operator, concatenation)
    NAME(ast::scalar::binary_operator, element_reference)
    NAME(ast::scalar::binary_operator, at_time_zone)
    NAME(ast::scalar::binary_operator, and_)
    NAME(ast::scalar::binary_operator, or_)
    NAME(ast::scalar::binary_operator, is)
    NAME(ast::scalar::binary_operator, is_not)
    NAME(ast::scalar::binary_operator, overlaps)
    NAME(ast::scalar::binary_operator, is_distinct_from)
    NAME(ast::scalar::binary_operator, contains)
    NAME(ast::scalar::binary_operator, is_contained_by)
    NAME(ast::scalar::binary_operator, have_elements_in_common)
    NAME(ast::scalar::builtin_function_kind, position)
    NAME(ast::scalar::builtin_function_kind, length)
    NAME(ast::scalar::builtin_function_kind, character_length)
    NAME(ast::scalar::builtin_function_kind, octet_length)
    NAME(ast::scalar::builtin_function_kind, bit_length)
    NAME(ast::scalar::builtin_function_kind, cardinality)
    NAME(ast::scalar::builtin_function_kind, abs)
    NAME(ast::scalar::builtin_function_kind, ceil)
    NAME(ast::scalar::builtin_function_kind, floor)
    NAME(ast::scalar::builtin_function_kind, mod)
    NAME(ast::scalar::builtin_function_kind, substring)
    NAME(ast::scalar::builtin_function_kind, upper)
    NAME(ast::scalar::builtin_function_kind, lower)
    NAME(ast::scalar::builtin_function_kind, convert)
    NAME(ast::scalar::builtin_function_kind, translate)
    NAME(ast::scalar::builtin_function_kind, overlay)
    NAME(ast::scalar::builtin_function_kind, current_date)
    NAME(ast::scalar::builtin_function_kind, current_time)
    NAME(ast::scalar::builtin_function_kind, localtime)
    NAME(ast::scalar::builtin_function_kind, current_timestamp)
    NAME(ast::scalar::builtin_function_kind, localtimestamp)
    NAME(ast::scalar::builtin_function_kind, nullif)
    NAME(ast::scalar::builtin_function_kind, coalesce)
    NAME(ast::scalar::builtin_function_kind, next_value_for)
    NAME(ast::scalar::builtin_function_kind, user)
    NAME(ast::scalar::builtin_function_kind, current_user)
    NAME(ast::scalar::builtin_function_kind, current_role)
    NAME(ast::scalar::builtin_function_kind, system_user)
    NAME(ast::scalar::builtin_function_kind, current_path)
    NAME(ast::scalar::builtin_set_function_kind, avg)
    NAME(ast::scalar::builtin_set_function_kind, max)
    NAME(ast::scalar::builtin_set_function_kind, min)
    NAME(ast::scalar::builtin_set_function_kind, sum)
    NAME(ast::scalar::builtin_set_function_kind, every)
    NAME(ast::scalar::builtin_set_function_kind, any)
    NAME(ast::scalar::builtin_set_function_kind, some)
    NAME(ast::scalar::builtin_set_function_kind, count)
    NAME(ast::scalar::builtin_set_function_kind, bit_and)
    NAME(ast::scalar::builtin_set_function_kind, bit_or)
    NAME(ast::scalar::builtin_set_function_kind, bool_and)
    NAME(ast::scalar::builtin_set_function_kind, bool_or)
    NAME(ast::scalar::cast_operator, cast)
    NAME(ast::scalar::cast_operator, treat)
    NAME(ast::scalar::cast_operator, generalize)
    NAME(ast::scalar::comparison_operator, equals)
    NAME(ast::scalar::comparison_operator, not_equals)
    NAME(ast::scalar::comparison_operator, not_equals_alternative)
    NAME(ast::scalar::comparison_operator, less_than)
    NAME(ast::scalar::comparison_operator, greater_than)
    NAME(ast::scalar::comparison_operator, less_than_or_equals)
    NAME(ast::scalar::comparison_operator, greater_than_or_equals)
    NAME(ast::scalar::expression_context_kind, scalar)
    NAME(ast::scalar::expression_context_kind, row)
    NAME(ast::scalar::extract_field_kind, year)
    NAME(ast::scalar::extract_field_kind, month)
    NAME(ast::scalar::extract_field_kind, day)
    NAME(ast::scalar::extract_field_kind, hour)
    NAME(ast::scalar::extract_field_kind, minute)
    NAME(ast::scalar::extract_field_kind, second)
    NAME(ast::scalar::extract_field_kind, timezone_hour)
    NAME(ast::scalar::extract_field_kind, timezone_minute)
    NAME(ast::scalar::extract_field_kind, date)
    NAME(ast::scalar::extract_field_kind, year_to_month)
    NAME(ast::scalar::extract_field_kind, year_to_day)
    NAME(ast::scalar::extract_field_kind, year_to_hour)
    NAME(ast::scalar::extract_field_kind, year_to_minute)
    NAME(ast::scalar::extract_field_kind, year_to_second)
    NAME(ast::scalar::kind, literal_expression)
    NAME(ast::scalar::kind, variable_reference)
    NAME(ast::scalar::kind, host_parameter_reference)
    NAME(ast::scalar::kind, field_reference)
    NAME(ast::scalar::kind, case_expression)
    NAME(ast::scalar::kind, cast_expression)
    NAME(ast::scalar::kind, unary_expression)
    NAME(ast::scalar::kind, binary_expression)
    NAME(ast::scalar::kind, extract_expression)
    NAME(ast::scalar::kind, trim_expression)
    NAME(ast::scalar::kind, value_constructor)
    NAME(ast::scalar::kind, subquery)
    NAME(ast::scalar::kind, comparison_predicate)
    NAME(ast::scalar::kind, quantified_comparison_predicate)
    NAME(ast::scalar::kind, between_predicate)
    NAME(ast::scalar::kind, in_predicate)
    NAME(ast::scalar::kind, pattern_match_predicate)
    NAME(ast::scalar::kind, table_predicate)
    NAME(ast::scalar::kind, function_invocation)
    NAME(ast::scalar::kind, builtin_function_invocation)
    NAME(ast::scalar::kind, builtin_set_function_invocation)
    NAME(ast::scalar::kind, new_invocation)
    NAME(ast::scalar::kind, method_invocation)
    NAME(ast::scalar::kind, static_method_invocation)
    NAME(ast::scalar::kind, current_of_cursor)
    NAME(ast::scalar::kind, placeholder_reference)
    NAME(ast::scalar::pattern_match_operator, like)
    NAME(ast::scalar::pattern_match_operator, similar_to)
    NAME(ast::scalar::quantifier, all)
    NAME(ast::scalar::quantifier, some)
    NAME(ast::scalar::quantifier, any)
    NAME(ast::scalar::reference_operator, period)
    NAME(ast::scalar::reference_operator, arrow)
    NAME(ast::scalar::set_quantifier, distinct)
    NAME(ast::scalar::set_quantifier, all)
    NAME(ast::scalar::table_operator, exists)
    NAME(ast::scalar::table_operator, unique)
    NAME(ast::scalar::trim_specification, leading)
    NAME(ast::scalar::trim_specification, trailing)
    NAME(ast::scalar::trim_specification, both)
    NAME(ast::scalar::unary_operator, plus)
    NAME(ast::scalar::unary_operator, minus)
    NAME(ast::scalar::unary_operator, not_)
    NAME(ast::scalar::unary_operator, at_local)
    NAME(ast::scalar::unary_operator, reference_resolution)
    NAME(ast::scalar::value_constructor_kind, array)
    NAME(ast::scalar::value_constructor_kind, row)
    NAME(ast::statement::alter_index_action_kind, rename_index)
    NAME(ast::statement::alter_table_action_kind, rename_table)
    NAME(ast::statement::alter_table_action_kind, rename_column)
    NAME(ast::statement::constraint_kind, check)
    NAME(ast::statement::constraint_kind, unique)
    NAME(ast::statement::constraint_kind, primary_key)
    NAME(ast::statement::constraint_kind, referential)
    NAME(ast::statement::constraint_kind, null)
    NAME(ast::statement::constraint_kind, not_null)
    NAME(ast::statement::constraint_kind, default_clause)
    NAME(ast::statement::constraint_kind, generation_clause)
    NAME(ast::statement::constraint_kind, identity_column)
    NAME(ast::statement::drop_statement_option, if_exists)
    NAME(ast::statement::drop_statement_option, restrict)
    NAME(ast::statement::drop_statement_option, cascade)
    NAME(ast::statement::identity_column_restart_option, continue_identity)
    NAME(ast::statement::identity_column_restart_option, restart_identity)
    NAME(ast::statement::identity_generation_type, always)
    NAME(ast::statement::identity_generation_type, by_default)
    NAME(ast::statement::index_definition_option, unique)
    NAME(ast::statement::index_definition_option, if_not_exists)
    NAME(ast::statement::insert_statement_option, or_replace)
    NAME(ast::statement::insert_statement_option, or_ignore)
    NAME(ast::statement::kind, select_statement)
    NAME(ast::statement::kind, insert_statement)
    NAME(ast::statement::kind, update_statement)
    NAME(ast::statement::kind, delete_statement)
    NAME(ast::statement::kind, table_definition)
    NAME(ast::statement::kind, index_definition)
    NAME(ast::statement::kind, view_definition)
    NAME(ast::statement::kind, sequence_definition)
    NAME(ast::statement::kind, schema_definition)
    NAME(ast::statement::kind, alter_table_statement)
    NAME(ast::statement::kind, alter_index_statement)
    NAME(ast::statement::kind, drop_table_statement)
    NAME(ast::statement::kind, drop_index_statement)
    NAME(ast::statement::kind, drop_view_statement)
    NAME(ast::statement::kind, drop_sequence_statement)
    NAME(ast::statement::kind, drop_schema_statement)
    NAME(ast::statement::kind, truncate_table_statement)
    NAME(ast::statement::kind, grant_privilege_statement)
    NAME(ast::statement::kind, revoke_privilege_statement)
    NAME(ast::statement::kind, empty_statement)
    NAME(ast::statement::privilege_action_kind, all_privileges)
    NAME(ast::statement::privilege_action_kind, select)
    NAME(ast::statement::privilege_action_kind, insert)
    NAME(ast::statement::privilege_action_kind, update)
    NAME(ast::statement::privilege_action_kind, delete_)
    NAME(ast::statement::privilege_object_kind, table)
    NAME(ast::statement::privilege_object_kind, schema)
    NAME(ast::statement::privilege_user_kind, identifier)
    NAME(ast::statement::privilege_user_kind, all_users)
    NAME(ast::statement::privilege_user_kind, current_user)
    NAME(ast::statement::privilege_user_kind, public_)
    NAME(ast::statement::referential_action, cascade)
    NAME(ast::statement::referential_action, set_null)
    NAME(ast::statement::referential_action, set_default)
    NAME(ast::statement::referential_action, restrict)
    NAME(ast::statement::referential_action, no_action)
    NAME(ast::statement::schema_definition_option, if_not_exists)
    NAME(ast::statement::sequence_definition_option, cycle)
    NAME(ast::statement::sequence_definition_option, no_cycle)
    NAME(ast::statement::sequence_definition_option, temporary)
    NAME(ast::statement::sequence_definition_option, if_not_exists)
    NAME(ast::statement::table_definition_option, temporary)
    NAME(ast::statement::table_definition_option, if_not_exists)
    NAME(ast::statement::table_element_kind, column_definition)
    NAME(ast::statement::table_element_kind, constraint_definition)
    NAME(ast::statement::view_definition_option, or_replace)
    NAME(ast::statement::view_definition_option, temporary)
    NAME(ast::statement::view_definition_option, recursive)
    NAME(ast::statement::view_definition_option, if_not_exists)
    NAME(ast::table::apply_type, cross)
    NAME(ast::table::apply_type, outer)
    NAME(ast::table::join_specification_kind, condition)
    NAME(ast::table::join_specification_kind, columns)
    NAME(ast::table::join_type, cross)
    NAME(ast::table::join_type, inner)
    NAME(ast::table::join_type, left_outer)
    NAME(ast::table::join_type, right_outer)
    NAME(ast::table::join_type, full_outer)
    NAME(ast::table::join_type, natural_inner)
    NAME(ast::table::join_type, natural_left_outer)
    NAME(ast::table::join_type, natural_right_outer)
    NAME(ast::table::join_type, natural_full_outer)
    NAME(ast::table::join_type, union_)
    NAME(ast::table::kind, table_reference)
    NAME(ast::table::kind, unnest)
    NAME(ast::table::kind, join)
    NAME(ast::table::kind, subquery)
    NAME(ast::table::kind, apply)
    NAME(ast::type::kind, unknown)
    NAME(ast::type::kind, character)
    NAME(ast::type::kind, character_varying)
    NAME(ast::type::kind, character_large_object)
    NAME(ast::type::kind, bit)
    NAME(ast::type::kind, bit_varying)
    NAME(ast::type::kind, octet)
    NAME(ast::type::kind, octet_varying)
    NAME(ast::type::kind, binary_large_object)
    NAME(ast::type::kind, numeric)
    NAME(ast::type::kind, decimal)
    NAME(ast::type::kind, tiny_integer)
    NAME(ast::type::kind, small_integer)
    NAME(ast::type::kind, integer)
    NAME(ast::type::kind, big_integer)
    NAME(ast::type::kind, float_)
    NAME(ast::type::kind, real)
    NAME(ast::type::kind, double_precision)
    NAME(ast::type::kind, binary_integer)
    NAME(ast::type::kind, binary_float)
    NAME(ast::type::kind, boolean)
    NAME(ast::type::kind, date)
    NAME(ast::type::kind, time)
    NAME(ast::type::kind, timestamp)
    NAME(ast::type::kind, interval)
    NAME(ast::type::kind, row)
    NAME(ast::type::kind, user_defined)
    NAME(ast::type::kind, collection)
    NAME(parser::sql_parser_code, unknown)
    NAME(parser::sql_parser_code, system)
    NAME(parser::sql_parser_code, syntax_error)
    NAME(parser::sql_parser_code, unsupported_feature)
    NAME(parser::sql_parser_code, invalid_character)
    NAME(parser::sql_parser_code, invalid_token)
    NAME(parser::sql_parser_code, unexpected_token)
    NAME(parser::sql_parser_code, unexpected_eof)
    NAME(parser::sql_parser_code, exceed_number_of_elements)
    NAME(parser::sql_parser_element_kind, statement)
    NAME(parser::sql_parser_element_kind, schema_element_definition)
    NAME(parser::sql_parser_element_kind, table_element_definition)
    NAME(parser::sql_parser_element_kind, column_constraint_definition)
    NAME(parser::sql_parser_element_kind, column_reference)
    NAME(parser::sql_parser_element_kind, storage_parameter)
    NAME(parser::sql_parser_element_kind, set_clause)
    NAME(parser::sql_parser_element_kind, with_element)
    NAME(parser::sql_parser_element_kind, select_element)
    NAME(parser::sql_parser_element_kind, table_reference)
    NAME(parser::sql_parser_element_kind, grouping_element)
    NAME(parser::sql_parser_element_kind, ordering_element)
    NAME(parser::sql_parser_element_kind, field_definition)
    NAME(parser::sql_parser_element_kind, row_expression)
    NAME(parser::sql_parser_element_kind, scalar_expression)
    NAME(parser::sql_parser_element_kind, when_clause)
    NAME(parser::sql_parser_element_kind, string_literal_concatenation)
    NAME(parser::sql_parser_element_kind, privilege_action)
    NAME(parser::sql_parser_element_kind, privilege_object)
    NAME(parser::sql_parser_element_kind, privilege_user)
    NAME(analyzer::details::value_context_kind, unspecified)
    NAME(analyzer::details::value_context_kind, scalar)
    NAME(analyzer::details::value_context_kind, row)
}
static void sets(tab& m) {
    SET(ast::common::ordering_specification, ast::common::ordering_specification_set)
    SET(ast::literal::boolean_kind, ast::literal::boolean_kind_set)
    SET(ast::literal::kind, ast::literal::kind_set)
    SET(ast::query::binary_operator, ast::query::binary_operator_set)
    SET(ast::query::grouping_element_kind, ast::query::grouping_element_kind_set)
    SET(ast::query::kind, ast::query::kind_set)
    SET(ast::query::select_element_kind, ast::query::select_element_kind_set)
    SET(ast::scalar::between_operator, ast::scalar::between_operator_set)
    SET(ast::scalar::binary_operator, ast::scalar::binary_operator_set)
    SET(ast::scalar::builtin_function_kind, ast::scalar::builtin_function_kind_set)
    SET(ast::scalar::builtin_set_function_kind, ast::scalar::builtin_set_function_kind_set)
    SET(ast::scalar::cast_operator, ast::scalar::cast_operator_set)
    SET(ast::scalar::comparison_operator, ast::scalar::comparison_operator_set)
    SET(ast::scalar::extract_field_kind, ast::scalar::extract_field_kind_set)
    SET(ast::scalar::kind, ast::scalar::kind_set)
    SET(ast::scalar::pattern_match_operator, ast::scalar::pattern_match_operator_set)
    SET(ast::scalar::quantifier, ast::scalar::quantifier_set)
    SET(ast::scalar::reference_operator, ast::scalar::reference_operator_set)
    SET(ast::scalar::set_quantifier, ast::scalar::set_quantifier_set)
    SET(ast::scalar::table_operator, ast::scalar::table_operator_set)
    SET(ast::scalar::trim_specification, ast::scalar::trim_specification_set)
    SET(ast::scalar::unary_operator, ast::scalar::unary_operator_set)
    SET(ast::scalar::value_constructor_kind, ast::scalar::value_constructor_kind_set)
    SET(ast::statement::constraint_kind, ast::statement::constraint_kind_set)
    SET(ast::statement::insert_statement_option, ast::statement::insert_statement_option_set)
    SET(ast::statement::kind, ast::statement::kind_set)
    SET(ast::statement::table_element_kind, ast::statement::table_element_kind_set)
    SET(ast::table::apply_type, ast::table::apply_kind_set)
    SET(ast::table::join_specification_kind, ast::table::join_specification_kind_set)
    SET(ast::table::join_type, ast::table::join_kind_set)
    SET(ast::table::kind, ast::table::kind_set)
    SET(ast::type::kind, ast::type::kind_set)
}
static void classes(tab& m) {
    CLS(ast::literal::kind, boolean, boolean, ast::literal::type_of)
    CLS(ast::literal::kind, exact_numeric, numeric, ast::literal::type_of)
    CLS(ast::literal::kind, approximate_numeric, numeric, ast::literal::type_of)
    CLS(ast::literal::kind, character_string, string, ast::literal::type_of)
    CLS(ast::literal::kind, bit_string, string, ast::literal::type_of)
    CLS(ast::literal::kind, hex_string, string, ast::literal::type_of)
    CLS(ast::literal::kind, date, datetime, ast::literal::type_of)
    CLS(ast::literal::kind, time, datetime, ast::literal::type_of)
    CLS(ast::literal::kind, time_with_time_zone, datetime, ast::literal::type_of)
    CLS(ast::literal::kind, timestamp, datetime, ast::literal::type_of)
    CLS(ast::literal::kind, timestamp_with_time_zone, datetime, ast::literal::type_of)
    CLS(ast::literal::kind, interval, interval, ast::literal::type_of)
    CLS(ast::literal::kind, null, null, ast::literal::type_of)
    CLS(ast::literal::kind, empty, empty, ast::literal::type_of)
    CLS(ast::literal::kind, default_, default, ast::literal::type_of)
    CLS(ast::name::kind, simple, simple, ast::name::type_of)
    CLS(ast::name::kind, qualified, qualified, ast::name::type_of)
    CLS(ast::query::grouping_element_kind, column, grouping_column, ast::query::type_of)
    CLS(ast::query::kind, query, query, ast::query::type_of)
    CLS(ast::query::kind, table_reference, table_reference, ast::query::type_of)
    CLS(ast::query::kind, table_value_constructor, table_value_constructor, ast::query::type_of)
    CLS(ast::query::kind, binary_expression, binary_expression, ast::query::type_of)
    CLS(ast::query::kind, with_expression, with_expression, ast::query::type_of)
    CLS(ast::query::select_element_kind, column, select_column, ast::query::type_of)
    CLS(ast::query::select_element_kind, asterisk, select_asterisk, ast::query::type_of)
    CLS(ast::scalar::kind, literal_expression, literal_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, variable_reference, variable_reference, ast::scalar::type_of)
    CLS(ast::scalar::kind, host_parameter_reference, host_parameter_reference, ast::scalar::type_of)
    CLS(ast::scalar::kind, field_reference, field_reference, ast::scalar::type_of)
    CLS(ast::scalar::kind, subquery, subquery, ast::scalar::type_of)
    CLS(ast::scalar::kind, case_expression, case_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, cast_expression, cast_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, unary_expression, unary_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, binary_expression, binary_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, extract_expression, extract_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, trim_expression, trim_expression, ast::scalar::type_of)
    CLS(ast::scalar::kind, value_constructor, value_constructor, ast::scalar::type_of)
    CLS(ast::scalar::kind, comparison_predicate, comparison_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, quantified_comparison_predicate, quantified_comparison_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, between_predicate, between_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, in_predicate, in_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, pattern_match_predicate, pattern_match_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, table_predicate, table_predicate, ast::scalar::type_of)
    CLS(ast::scalar::kind, function_invocation, function_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, builtin_function_invocation, builtin_function_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, builtin_set_function_invocation, builtin_set_function_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, new_invocation, new_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, method_invocation, method_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, static_method_invocation, static_method_invocation, ast::scalar::type_of)
    CLS(ast::scalar::kind, current_of_cursor, current_of_cursor, ast::scalar::type_of)
    CLS(ast::scalar::kind, placeholder_reference, placeholder_reference, ast::scalar::type_of)
    CLS(ast::statement::constraint_kind, check, expression_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, unique, key_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, primary_key, key_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, referential, referential_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, null, simple_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, not_null, simple_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, default_clause, expression_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, generation_clause, expression_constraint, ast::statement::type_of)
    CLS(ast::statement::constraint_kind, identity_column, identity_constraint, ast::statement::type_of)
    CLS(ast::statement::kind, select_statement, select_statement, ast::statement::type_of)
    CLS(ast::statement::kind, insert_statement, insert_statement, ast::statement::type_of)
    CLS(ast::statement::kind, update_statement, update_statement, ast::statement::type_of)
    CLS(ast::statement::kind, delete_statement, delete_statement, ast::statement::type_of)
    CLS(ast::statement::kind, table_definition, table_definition, ast::statement::type_of)
    CLS(ast::statement::kind, index_definition, index_definition, ast::statement::type_of)
    CLS(ast::statement::kind, view_definition, view_definition, ast::statement::type_of)
    CLS(ast::statement::kind, sequence_definition, sequence_definition, ast::statement::type_of)
    CLS(ast::statement::kind, schema_definition, schema_definition, ast::statement::type_of)
    CLS(ast::statement::kind, alter_table_statement, alter_table_statement, ast::statement::type_of)
    CLS(ast::statement::kind, alter_index_statement, alter_index_statement, ast::statement::type_of)
    CLS(ast::statement::kind, drop_table_statement, drop_statement, ast::statement::type_of)
    CLS(ast::statement::kind, drop_index_statement, drop_statement, ast::statement::type_of)
    CLS(ast::statement::kind, drop_view_statement, drop_statement, ast::statement::type_of)
    CLS(ast::statement::kind, drop_sequence_statement, drop_statement, ast::statement::type_of)
    CLS(ast::statement::kind, drop_schema_statement, drop_statement, ast::statement::type_of)
    CLS(ast::statement::kind, truncate_table_statement, truncate_table_statement, ast::statement::type_of)
    CLS(ast::statement::kind, grant_privilege_statement, grant_privilege_statement, ast::statement::type_of)
    CLS(ast::statement::kind, revoke_privilege_statement, revoke_privilege_statement, ast::statement::type_of)
    CLS(ast::statement::kind, empty_statement, empty_statement, ast::statement::type_of)
    CLS(ast::statement::table_element_kind, column_definition, column_definition, ast::statement::type_of)
    CLS(ast::statement::table_element_kind, constraint_definition, table_constraint_definition, ast::statement::type_of)
    CLS(ast::table::join_specification_kind, condition, join_condition, ast::table::type_of)
    CLS(ast::table::join_specification_kind, columns, join_columns, ast::table::type_of)
    CLS(ast::table::kind, table_reference, table_reference, ast::table::type_of)
    CLS(ast::table::kind, unnest, unnest, ast::table::type_of)
    CLS(ast::table::kind, join, join, ast::table::type_of)
    CLS(ast::table::kind, subquery, subquery, ast::table::type_of)
    CLS(ast::table::kind, apply, apply, ast::table::type_of)
    CLS(ast::type::kind, unknown, simple, ast::type::type_of)
    CLS(ast::type::kind, character, character_string, ast::type::type_of)
    CLS(ast::type::kind, character_varying, character_string, ast::type::type_of)
    CLS(ast::type::kind, character_large_object, simple, ast::type::type_of)
    CLS(ast::type::kind, bit, bit_string, ast::type::type_of)
    CLS(ast::type::kind, bit_varying, bit_string, ast::type::type_of)
    CLS(ast::type::kind, octet, octet_string, ast::type::type_of)
    CLS(ast::type::kind, octet_varying, octet_string, ast::type::type_of)
    CLS(ast::type::kind, binary_large_object, simple, ast::type::type_of)
    CLS(ast::type::kind, numeric, decimal, ast::type::type_of)
    CLS(ast::type::kind, decimal, decimal, ast::type::type_of)
    CLS(ast::type::kind, tiny_integer, simple, ast::type::type_of)
    CLS(ast::type::kind, small_integer, simple, ast::type::type_of)
    CLS(ast::type::kind, integer, simple, ast::type::type_of)
    CLS(ast::type::kind, big_integer, simple, ast::type::type_of)
    CLS(ast::type::kind, float_, simple, ast::type::type_of)
    CLS(ast::type::kind, real, simple, ast::type::type_of)
    CLS(ast::type::kind, double_precision, simple, ast::type::type_of)
    CLS(ast::type::kind, binary_integer, binary_numeric, ast::type::type_of)
    CLS(ast::type::kind, binary_float, binary_numeric, ast::type::type_of)
    CLS(ast::type::kind, boolean, simple, ast::type::type_of)
    CLS(ast::type::kind, date, simple, ast::type::type_of)
    CLS(ast::type::kind, time, datetime, ast::type::type_of)
    CLS(ast::type::kind, timestamp, datetime, ast::type::type_of)
    CLS(ast::type::kind, interval, interval, ast::type::type_of)
    CLS(ast::type::kind, row, row, ast::type::type_of)
    CLS(ast::type::kind, user_defined, user_defined, ast::type::type_of)
    CLS(ast::type::kind, collection, collection, ast::type::type_of)
}
static std::string unhex(std::string const& h) {
    std::string r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static std::string find(std::string const& s) {
    // the characters after the view must not matter
    static char const* const tails[] = { "_definition", "s", "", " " };
    std::string answer;
    for (auto* t : tails) {
        std::string buffer = s + t;
        auto r = parser::find_sql_parser_element_kind(std::string_view { buffer.data(), s.size() });
        std::string x = r ? " " + std::string { to_string_view(*r) } : " ";
        if (t == tails[0]) { answer = x; }
        else if (x != answer) { return answer + " or" + x; }
    }
    return answer;
}
static std::string each() {
    std::string r;
    using K = parser::sql_parser_element_kind;
    for (auto i = static_cast<std::size_t>(parser::sql_parser_element_kind_first);
            i <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++i) {
        r += " "; r += to_string_view(static_cast<K>(i));
    }
    return r;
}
static std::string answer(tab const& m, std::string const& line) {
    if (line.rfind("find ", 0) == 0) return find(unhex(line.substr(5)));
    if (line == "each") return each();
    auto it = m.find(line);
    return it == m.end() ? "?" : it->second();
}
int main(int argc, char** argv) {
    tab m;
    names(m); sets(m); classes(m);
    std::vector<std::string> lines;
    if (argc < 2) {
        for (std::string line; std::getline(std::cin, line);) std::cout << answer(m, line) << std::endl;
        return 0;
    }
    for (std::string line; std::getline(std::cin, line);) lines.push_back(line);
    std::size_t n = static_cast<std::size_t>(std::atoi(argv[1]));
    std::vector<std::string> out(lines.size());
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < n; ++t) {
        ts.emplace_back([&, t] { for (std::size_t i = t; i < lines.size(); i += n) out[i] = answer(m, lines[i]); });
    }
    for (auto& t : ts) t.join();
    for (auto& s : out) std::cout << s << "\n";
    return 0;
}
