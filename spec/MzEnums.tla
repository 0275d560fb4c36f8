------------------------------ MODULE MzEnums ------------------------------
(***************************************************************************)
(* The public enumerations: their constants, the printed name of each, and *)
(* which syntax tree class each kind constant stands for.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

N(c)    == <<c, c>>            \* printed as written
U(c, n) == <<c, n>>            \* printed differently (reserved words of C++, phrases)

\* id, constants in declaration order, name of the covering set type or ""
En(id, cs, set) == [id |-> id, cs |-> cs, set |-> set]

Enums == <<
  En("analyzer::sql_analyzer_code", <<N("unknown"), N("unsupported_feature"), N("malformed_syntax"), N("missing_context_of_default_value"), N("missing_context_of_null"), N("unsupported_decimal_value"), N("malformed_approximate_number"), N("unsupported_approximate_number"), N("malformed_quoted_string"), N("unsupported_string_value"), N("flexible_length_is_not_supported"), N("invalid_type_length"), N("invalid_numeric_scale"), N("catalog_not_found"), N("schema_not_found"), N("table_not_found"), N("index_not_found"), N("view_not_found"), N("sequence_not_found"), N("column_not_found"), N("variable_not_found"), N("function_not_found"), N("symbol_not_found"), N("schema_already_exists"), N("table_already_exists"), N("index_already_exists"), N("view_already_exists"), N("sequence_already_exists"), N("column_already_exists"), N("variable_already_exists"), N("function_already_exists"), N("symbol_already_exists"), N("primary_index_not_found"), N("primary_index_already_exists"), N("invalid_constraint"), N("invalid_sequence_value"), N("relation_ambiguous"), N("variable_ambiguous"), N("column_ambiguous"), N("function_ambiguous"), N("invalid_unsigned_integer"), N("inconsistent_table"), N("inconsistent_columns"), N("invalid_aggregation_column"), N("ambiguous_type"), N("inconsistent_type"), N("unresolved_variable"), N("inconsistent_elements"), N("inconsistent_function_type")>>, ""),
  En("analyzer::sql_analyzer_result_kind", <<N("diagnostics"), N("execution_plan"), N("statement")>>, ""),
  En("ast::common::null_ordering_specification", <<N("first"), N("last")>>, ""),
  En("ast::common::ordering_specification", <<N("asc"), N("desc")>>, "ordering_specification_set"),
  En("ast::literal::boolean_kind", <<U("true_", "TRUE"), U("false_", "FALSE"), U("unknown", "UNKNOWN")>>, "boolean_kind_set"),
  En("ast::literal::kind", <<N("boolean"), N("exact_numeric"), N("approximate_numeric"), N("character_string"), N("bit_string"), N("hex_string"), N("date"), N("time"), N("time_with_time_zone"), N("timestamp"), N("timestamp_with_time_zone"), N("interval"), N("null"), N("empty"), U("default_", "default")>>, "kind_set"),
  En("ast::literal::sign", <<N("plus"), N("minus")>>, ""),
  En("ast::name::identifier_kind", <<N("regular"), N("delimited")>>, ""),
  En("ast::name::kind", <<N("simple"), N("qualified")>>, ""),
  En("ast::query::binary_operator", <<U("union_", "union"), N("outer_union"), N("except"), N("intersect")>>, "binary_operator_set"),
  En("ast::query::grouping_element_kind", <<N("column")>>, "grouping_element_kind_set"),
  En("ast::query::kind", <<N("query"), N("table_reference"), N("table_value_constructor"), N("binary_expression"), N("with_expression")>>, "kind_set"),
  En("ast::query::select_element_kind", <<N("column"), N("asterisk")>>, "select_element_kind_set"),
  En("ast::scalar::between_operator", <<N("asymmetric"), N("symmetric")>>, "between_operator_set"),
  En("ast::scalar::binary_operator", <<N("plus"), N("minus"), N("asterisk"), N("solidus"), N("percent"), N("concatenation"), N("element_reference"), N("at_time_zone"), U("and_", "and"), U("or_", "or"), N("is"), N("is_not"), N("overlaps"), N("is_distinct_from"), N("contains"), N("is_contained_by"), N("have_elements_in_common")>>, "binary_operator_set"),
  En("ast::scalar::builtin_function_kind", <<N("position"), N("length"), N("character_length"), N("octet_length"), N("bit_length"), N("cardinality"), N("abs"), N("ceil"), N("floor"), N("mod"), N("substring"), N("upper"), N("lower"), N("convert"), N("translate"), N("overlay"), N("current_date"), N("current_time"), N("localtime"), N("current_timestamp"), N("localtimestamp"), N("nullif"), N("coalesce"), N("next_value_for"), N("user"), N("current_user"), N("current_role"), N("system_user"), N("current_path")>>, "builtin_function_kind_set"),
  En("ast::scalar::builtin_set_function_kind", <<N("avg"), N("max"), N("min"), N("sum"), N("every"), N("any"), N("some"), N("count"), N("bit_and"), N("bit_or"), N("bool_and"), N("bool_or")>>, "builtin_set_function_kind_set"),
  En("ast::scalar::cast_operator", <<N("cast"), N("treat"), N("generalize")>>, "cast_operator_set"),
  En("ast::scalar::comparison_operator", <<N("equals"), N("not_equals"), N("not_equals_alternative"), N("less_than"), N("greater_than"), N("less_than_or_equals"), N("greater_than_or_equals")>>, "comparison_operator_set"),
  En("ast::scalar::expression_context_kind", <<N("scalar"), N("row")>>, ""),
  En("ast::scalar::extract_field_kind", <<N("year"), N("month"), N("day"), N("hour"), N("minute"), N("second"), N("timezone_hour"), N("timezone_minute"), N("date"), U("year_to_month", "year to month"), U("year_to_day", "year to day"), U("year_to_hour", "year to hour"), U("year_to_minute", "year to minute"), U("year_to_second", "year to second")>>, "extract_field_kind_set"),
  En("ast::scalar::kind", <<N("literal_expression"), N("variable_reference"), N("host_parameter_reference"), N("field_reference"), N("case_expression"), N("cast_expression"), N("unary_expression"), N("binary_expression"), N("extract_expression"), N("trim_expression"), N("value_constructor"), N("subquery"), N("comparison_predicate"), N("quantified_comparison_predicate"), N("between_predicate"), N("in_predicate"), N("pattern_match_predicate"), N("table_predicate"), N("function_invocation"), N("builtin_function_invocation"), N("builtin_set_function_invocation"), N("new_invocation"), N("method_invocation"), N("static_method_invocation"), N("current_of_cursor"), N("placeholder_reference")>>, "kind_set"),
  En("ast::scalar::pattern_match_operator", <<N("like"), N("similar_to")>>, "pattern_match_operator_set"),
  En("ast::scalar::quantifier", <<N("all"), N("some"), N("any")>>, "quantifier_set"),
  En("ast::scalar::reference_operator", <<N("period"), N("arrow")>>, "reference_operator_set"),
  En("ast::scalar::set_quantifier", <<N("distinct"), N("all")>>, "set_quantifier_set"),
  En("ast::scalar::table_operator", <<N("exists"), N("unique")>>, "table_operator_set"),
  En("ast::scalar::trim_specification", <<N("leading"), N("trailing"), N("both")>>, "trim_specification_set"),
  En("ast::scalar::unary_operator", <<N("plus"), N("minus"), U("not_", "not"), N("at_local"), N("reference_resolution")>>, "unary_operator_set"),
  En("ast::scalar::value_constructor_kind", <<N("array"), N("row")>>, "value_constructor_kind_set"),
  En("ast::statement::alter_index_action_kind", <<N("rename_index")>>, ""),
  En("ast::statement::alter_table_action_kind", <<N("rename_table"), N("rename_column")>>, ""),
  En("ast::statement::constraint_kind", <<N("check"), N("unique"), N("primary_key"), N("referential"), N("null"), N("not_null"), N("default_clause"), N("generation_clause"), N("identity_column")>>, "constraint_kind_set"),
  En("ast::statement::drop_statement_option", <<N("if_exists"), N("restrict"), N("cascade")>>, ""),
  En("ast::statement::identity_column_restart_option", <<N("continue_identity"), N("restart_identity")>>, ""),
  En("ast::statement::identity_generation_type", <<N("always"), N("by_default")>>, ""),
  En("ast::statement::index_definition_option", <<N("unique"), N("if_not_exists")>>, ""),
  En("ast::statement::insert_statement_option", <<N("or_replace"), N("or_ignore")>>, "insert_statement_option_set"),
  En("ast::statement::kind", <<N("select_statement"), N("insert_statement"), N("update_statement"), N("delete_statement"), N("table_definition"), N("index_definition"), N("view_definition"), N("sequence_definition"), N("schema_definition"), N("alter_table_statement"), N("alter_index_statement"), N("drop_table_statement"), N("drop_index_statement"), N("drop_view_statement"), N("drop_sequence_statement"), N("drop_schema_statement"), N("truncate_table_statement"), N("grant_privilege_statement"), N("revoke_privilege_statement"), N("empty_statement")>>, "kind_set"),
  En("ast::statement::privilege_action_kind", <<N("all_privileges"), N("select"), N("insert"), N("update"), U("delete_", "delete")>>, ""),
  En("ast::statement::privilege_object_kind", <<N("table"), N("schema")>>, ""),
  En("ast::statement::privilege_user_kind", <<N("identifier"), N("all_users"), N("current_user"), U("public_", "public")>>, ""),
  En("ast::statement::referential_action", <<N("cascade"), N("set_null"), N("set_default"), N("restrict"), N("no_action")>>, ""),
  En("ast::statement::schema_definition_option", <<N("if_not_exists")>>, ""),
  En("ast::statement::sequence_definition_option", <<N("cycle"), N("no_cycle"), N("temporary"), N("if_not_exists")>>, ""),
  En("ast::statement::table_definition_option", <<N("temporary"), N("if_not_exists")>>, ""),
  En("ast::statement::table_element_kind", <<N("column_definition"), N("constraint_definition")>>, "table_element_kind_set"),
  En("ast::statement::view_definition_option", <<N("or_replace"), N("temporary"), N("recursive"), N("if_not_exists")>>, ""),
  En("ast::table::apply_type", <<N("cross"), N("outer")>>, "apply_kind_set"),
  En("ast::table::join_specification_kind", <<N("condition"), N("columns")>>, "join_specification_kind_set"),
  En("ast::table::join_type", <<N("cross"), N("inner"), N("left_outer"), N("right_outer"), N("full_outer"), N("natural_inner"), N("natural_left_outer"), N("natural_right_outer"), N("natural_full_outer"), U("union_", "union")>>, "join_kind_set"),
  En("ast::table::kind", <<N("table_reference"), N("unnest"), N("join"), N("subquery"), N("apply")>>, "kind_set"),
  En("ast::type::kind", <<N("unknown"), N("character"), N("character_varying"), N("character_large_object"), N("bit"), N("bit_varying"), N("octet"), N("octet_varying"), N("binary_large_object"), N("numeric"), N("decimal"), N("tiny_integer"), N("small_integer"), N("integer"), N("big_integer"), U("float_", "float"), N("real"), N("double_precision"), N("binary_integer"), N("binary_float"), N("boolean"), N("date"), N("time"), N("timestamp"), N("interval"), N("row"), N("user_defined"), N("collection")>>, "kind_set"),
  En("parser::sql_parser_code", <<N("unknown"), N("system"), N("syntax_error"), N("unsupported_feature"), N("invalid_character"), N("invalid_token"), N("unexpected_token"), N("unexpected_eof"), N("exceed_number_of_elements")>>, ""),
  En("parser::sql_parser_element_kind", <<N("statement"), N("schema_element_definition"), N("table_element_definition"), N("column_constraint_definition"), N("column_reference"), N("storage_parameter"), N("set_clause"), N("with_element"), N("select_element"), N("table_reference"), N("grouping_element"), N("ordering_element"), N("field_definition"), N("row_expression"), N("scalar_expression"), N("when_clause"), N("string_literal_concatenation"), N("privilege_action"), N("privilege_object"), N("privilege_user")>>, ""),
  En("analyzer::details::value_context_kind", <<N("unspecified"), N("scalar"), N("row")>>, "")
>>

\* kind enumeration -> class of each kind
Fam(id, cs) == [id |-> id, cs |-> cs]
Families == <<
  Fam("ast::literal::kind", <<<<"boolean", "boolean">>, <<"exact_numeric", "numeric">>, <<"approximate_numeric", "numeric">>, <<"character_string", "string">>, <<"bit_string", "string">>, <<"hex_string", "string">>, <<"date", "datetime">>, <<"time", "datetime">>, <<"time_with_time_zone", "datetime">>, <<"timestamp", "datetime">>, <<"timestamp_with_time_zone", "datetime">>, <<"interval", "interval">>, <<"null", "null">>, <<"empty", "empty">>, <<"default_", "default">>>>),
  Fam("ast::name::kind", <<<<"simple", "simple">>, <<"qualified", "qualified">>>>),
  Fam("ast::query::grouping_element_kind", <<<<"column", "grouping_column">>>>),
  Fam("ast::query::kind", <<<<"query", "query">>, <<"table_reference", "table_reference">>, <<"table_value_constructor", "table_value_constructor">>, <<"binary_expression", "binary_expression">>, <<"with_expression", "with_expression">>>>),
  Fam("ast::query::select_element_kind", <<<<"column", "select_column">>, <<"asterisk", "select_asterisk">>>>),
  Fam("ast::scalar::kind", <<<<"literal_expression", "literal_expression">>, <<"variable_reference", "variable_reference">>, <<"host_parameter_reference", "host_parameter_reference">>, <<"field_reference", "field_reference">>, <<"subquery", "subquery">>, <<"case_expression", "case_expression">>, <<"cast_expression", "cast_expression">>, <<"unary_expression", "unary_expression">>, <<"binary_expression", "binary_expression">>, <<"extract_expression", "extract_expression">>, <<"trim_expression", "trim_expression">>, <<"value_constructor", "value_constructor">>, <<"comparison_predicate", "comparison_predicate">>, <<"quantified_comparison_predicate", "quantified_comparison_predicate">>, <<"between_predicate", "between_predicate">>, <<"in_predicate", "in_predicate">>, <<"pattern_match_predicate", "pattern_match_predicate">>, <<"table_predicate", "table_predicate">>, <<"function_invocation", "function_invocation">>, <<"builtin_function_invocation", "builtin_function_invocation">>, <<"builtin_set_function_invocation", "builtin_set_function_invocation">>, <<"new_invocation", "new_invocation">>, <<"method_invocation", "method_invocation">>, <<"static_method_invocation", "static_method_invocation">>, <<"current_of_cursor", "current_of_cursor">>, <<"placeholder_reference", "placeholder_reference">>>>),
  Fam("ast::statement::constraint_kind", <<<<"check", "expression_constraint">>, <<"unique", "key_constraint">>, <<"primary_key", "key_constraint">>, <<"referential", "referential_constraint">>, <<"null", "simple_constraint">>, <<"not_null", "simple_constraint">>, <<"default_clause", "expression_constraint">>, <<"generation_clause", "expression_constraint">>, <<"identity_column", "identity_constraint">>>>),
  Fam("ast::statement::kind", <<<<"select_statement", "select_statement">>, <<"insert_statement", "insert_statement">>, <<"update_statement", "update_statement">>, <<"delete_statement", "delete_statement">>, <<"table_definition", "table_definition">>, <<"index_definition", "index_definition">>, <<"view_definition", "view_definition">>, <<"sequence_definition", "sequence_definition">>, <<"schema_definition", "schema_definition">>, <<"alter_table_statement", "alter_table_statement">>, <<"alter_index_statement", "alter_index_statement">>, <<"drop_table_statement", "drop_statement">>, <<"drop_index_statement", "drop_statement">>, <<"drop_view_statement", "drop_statement">>, <<"drop_sequence_statement", "drop_statement">>, <<"drop_schema_statement", "drop_statement">>, <<"truncate_table_statement", "truncate_table_statement">>, <<"grant_privilege_statement", "grant_privilege_statement">>, <<"revoke_privilege_statement", "revoke_privilege_statement">>, <<"empty_statement", "empty_statement">>>>),
  Fam("ast::statement::table_element_kind", <<<<"column_definition", "column_definition">>, <<"constraint_definition", "table_constraint_definition">>>>),
  Fam("ast::table::join_specification_kind", <<<<"condition", "join_condition">>, <<"columns", "join_columns">>>>),
  Fam("ast::table::kind", <<<<"table_reference", "table_reference">>, <<"unnest", "unnest">>, <<"join", "join">>, <<"subquery", "subquery">>, <<"apply", "apply">>>>),
  Fam("ast::type::kind", <<<<"unknown", "simple">>, <<"character", "character_string">>, <<"character_varying", "character_string">>, <<"character_large_object", "simple">>, <<"bit", "bit_string">>, <<"bit_varying", "bit_string">>, <<"octet", "octet_string">>, <<"octet_varying", "octet_string">>, <<"binary_large_object", "simple">>, <<"numeric", "decimal">>, <<"decimal", "decimal">>, <<"tiny_integer", "simple">>, <<"small_integer", "simple">>, <<"integer", "simple">>, <<"big_integer", "simple">>, <<"float_", "simple">>, <<"real", "simple">>, <<"double_precision", "simple">>, <<"binary_integer", "binary_numeric">>, <<"binary_float", "binary_numeric">>, <<"boolean", "simple">>, <<"date", "simple">>, <<"time", "datetime">>, <<"timestamp", "datetime">>, <<"interval", "interval">>, <<"row", "row">>, <<"user_defined", "user_defined">>, <<"collection", "collection">>>>)
>>

-----------------------------------------------------------------------------
\* class of the syntax tree a kind stands for, kinds of a class
EnumOf(id) == CHOOSE i \in 1..Len(Enums) : Enums[i].id = id
ClassOf(f, k) == Families[f].cs[CHOOSE i \in 1..Len(Families[f].cs) : Families[f].cs[i][1] = k][2]
Classes(f) == {Families[f].cs[i][2] : i \in 1..Len(Families[f].cs)}
\* the constants of the family's enumeration that stand for class c, in declaration order
KindsOf(f, c) == SelectSeq(Enums[EnumOf(Families[f].id)].cs, LAMBDA p : ClassOf(f, p[1]) = c)
=============================================================================
