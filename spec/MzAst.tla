------------------------------- MODULE MzAst -------------------------------
(***************************************************************************)
(* Syntax trees as values: the classes, their components, and what it      *)
(* means for two trees to be equal, to be copies and to look alike.        *)
(*                                                                         *)
(* A value is                                                              *)
(*   <<"t", s>>      text              <<"b", x>>   truth value            *)
(*   <<"n", k>>      number            <<"e", c>>   constant               *)
(*   <<"m", v, r>>   v with the source range r                             *)
(*   <<"d", r>>      a source range    <<"-">>      absent                 *)
(*   <<"l", vs>>     list              <<"N", c, vs, r>>  object of class  *)
(*                                     c with components vs and range r    *)
(* Texts are written with %XX for anything but letters and digits.         *)
(*                                                                         *)
(* The machine starts from an object with every component in place and     *)
(* alters components, each at most once: every object reached differs from *)
(* the start in a known set of components.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzEnums

CONSTANTS OutFile, Mode, Depth, Part, Parts

\* ---- types of components
Text == <<"text">>
Bool == <<"bool">>
Num  == <<"num">>
Span == <<"span">>
Enum(id) == <<"enum", id>>
Kind(id, cs) == <<"kind", id, cs>>     \* the constants the class allows
Mark(t) == <<"mark", t>>               \* with its own source range
Opt(t)  == <<"opt", t>>
ListOf(t) == <<"seq", t>>
Ref(f)  == <<"ref", f>>                \* an owned object of family f
Elem(c) == <<"elem", c>>               \* an embedded object of class c

P(n, t) == [n |-> n, t |-> t]
C(c, f, ps) == [c |-> c, f |-> f, ps |-> ps]

Schema == <<
  C("compilation_unit", "element", <<P("statements", ListOf(Ref("statement.statement")))>>),
  C("literal.boolean", "literal.literal", <<P("value", Enum("ast::literal::boolean_kind"))>>),
  C("literal.datetime", "literal.literal", <<P("value", Mark(Text)), P("value_kind", Mark(Kind("ast::literal::kind", <<"date", "time", "time_with_time_zone", "timestamp", "timestamp_with_time_zone">>)))>>),
  C("literal.interval", "literal.literal", <<P("sign", Opt(Mark(Enum("ast::literal::sign")))), P("value", Mark(Text))>>),
  C("literal.numeric", "literal.literal", <<P("sign", Opt(Mark(Enum("ast::literal::sign")))), P("unsigned_value", Mark(Text)), P("value_kind", Kind("ast::literal::kind", <<"exact_numeric", "approximate_numeric">>))>>),
  C("literal.string", "literal.literal", <<P("concatenations", ListOf(Mark(Text))), P("value", Mark(Text)), P("value_kind", Mark(Kind("ast::literal::kind", <<"character_string", "bit_string", "hex_string">>)))>>),
  C("name.qualified", "name.name", <<P("last", Ref("name.simple")), P("qualifier", Ref("name.name"))>>),
  C("name.simple", "name.name", <<P("identifier", Text), P("identifier_kind", Enum("ast::name::identifier_kind"))>>),
  C("query.binary_expression", "query.expression", <<P("corresponding", Opt(Elem("query.corresponding_clause"))), P("left", Ref("query.expression")), P("operator_kind", Mark(Enum("ast::query::binary_operator"))), P("quantifier", Opt(Mark(Enum("ast::scalar::set_quantifier")))), P("right", Ref("query.expression"))>>),
  C("query.grouping_column", "query.grouping_element", <<P("collation", Opt(Ref("name.name"))), P("column", Ref("scalar.expression"))>>),
  C("query.query", "query.expression", <<P("elements", ListOf(Ref("query.select_element"))), P("from", ListOf(Ref("table.expression"))), P("group_by", Opt(Elem("query.group_by_clause"))), P("having", Opt(Ref("scalar.expression"))), P("limit", Opt(Ref("scalar.expression"))), P("order_by", ListOf(Elem("common.sort_element"))), P("quantifier", Opt(Mark(Enum("ast::scalar::set_quantifier")))), P("where", Opt(Ref("scalar.expression")))>>),
  C("query.select_asterisk", "query.select_element", <<P("qualifier", Opt(Ref("scalar.expression")))>>),
  C("query.select_column", "query.select_element", <<P("name", Opt(Ref("name.simple"))), P("value", Ref("scalar.expression"))>>),
  C("query.table_reference", "query.expression", <<P("name", Ref("name.name"))>>),
  C("query.table_value_constructor", "query.expression", <<P("elements", ListOf(Ref("scalar.expression")))>>),
  C("query.with_expression", "query.expression", <<P("elements", ListOf(Elem("query.with_element"))), P("expression", Ref("query.expression")), P("is_recursive", Mark(Bool))>>),
  C("scalar.between_predicate", "scalar.expression", <<P("is_not", Mark(Bool)), P("left", Ref("scalar.expression")), P("operator_kind", Opt(Mark(Enum("ast::scalar::between_operator")))), P("right", Ref("scalar.expression")), P("target", Ref("scalar.expression"))>>),
  C("scalar.binary_expression", "scalar.expression", <<P("left", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::binary_operator"))), P("right", Ref("scalar.expression"))>>),
  C("scalar.builtin_function_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("function", Mark(Enum("ast::scalar::builtin_function_kind")))>>),
  C("scalar.builtin_set_function_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("function", Mark(Enum("ast::scalar::builtin_set_function_kind"))), P("quantifier", Opt(Mark(Enum("ast::scalar::set_quantifier"))))>>),
  C("scalar.case_expression", "scalar.expression", <<P("default_result", Opt(Ref("scalar.expression"))), P("operand", Opt(Ref("scalar.expression"))), P("when_clauses", ListOf(Elem("scalar.case_when_clause")))>>),
  C("scalar.cast_expression", "scalar.expression", <<P("operand", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::cast_operator"))), P("type", Ref("type.type"))>>),
  C("scalar.comparison_predicate", "scalar.expression", <<P("left", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::comparison_operator"))), P("right", Ref("scalar.expression"))>>),
  C("scalar.current_of_cursor", "scalar.expression", <<P("name", Ref("name.name"))>>),
  C("scalar.extract_expression", "scalar.expression", <<P("field", Mark(Enum("ast::scalar::extract_field_kind"))), P("operand", Ref("scalar.expression")), P("subsecond_digits", Opt(Mark(Num)))>>),
  C("scalar.field_reference", "scalar.expression", <<P("name", Ref("name.simple")), P("operator_kind", Mark(Enum("ast::scalar::reference_operator"))), P("value", Ref("scalar.expression"))>>),
  C("scalar.function_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("name", Ref("name.name"))>>),
  C("scalar.host_parameter_reference", "scalar.expression", <<P("name", Ref("name.simple"))>>),
  C("scalar.in_predicate", "scalar.expression", <<P("is_not", Mark(Bool)), P("left", Ref("scalar.expression")), P("right", Ref("query.expression"))>>),
  C("scalar.literal_expression", "scalar.expression", <<P("value", Ref("literal.literal"))>>),
  C("scalar.method_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("name", Ref("name.simple")), P("operator_kind", Mark(Enum("ast::scalar::reference_operator"))), P("value", Ref("scalar.expression"))>>),
  C("scalar.new_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("type", Ref("type.type"))>>),
  C("scalar.pattern_match_predicate", "scalar.expression", <<P("escape", Opt(Ref("scalar.expression"))), P("is_not", Mark(Bool)), P("match_value", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::pattern_match_operator"))), P("pattern", Ref("scalar.expression"))>>),
  C("scalar.placeholder_reference", "scalar.expression", <<P("index", Num)>>),
  C("scalar.quantified_comparison_predicate", "scalar.expression", <<P("left", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::comparison_operator"))), P("quantifier", Mark(Enum("ast::scalar::quantifier"))), P("right", Ref("query.expression"))>>),
  C("scalar.static_method_invocation", "scalar.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("name", Ref("name.simple")), P("type", Ref("type.type"))>>),
  C("scalar.subquery", "scalar.expression", <<P("context_kind", Enum("ast::scalar::expression_context_kind")), P("query", Ref("query.expression"))>>),
  C("scalar.table_predicate", "scalar.expression", <<P("operand", Ref("query.expression")), P("operator_kind", Mark(Enum("ast::scalar::table_operator")))>>),
  C("scalar.trim_expression", "scalar.expression", <<P("character", Opt(Ref("scalar.expression"))), P("source", Ref("scalar.expression")), P("specification", Opt(Mark(Enum("ast::scalar::trim_specification"))))>>),
  C("scalar.unary_expression", "scalar.expression", <<P("operand", Ref("scalar.expression")), P("operator_kind", Mark(Enum("ast::scalar::unary_operator")))>>),
  C("scalar.value_constructor", "scalar.expression", <<P("elements", ListOf(Ref("scalar.expression"))), P("operator_kind", Mark(Enum("ast::scalar::value_constructor_kind")))>>),
  C("scalar.variable_reference", "scalar.expression", <<P("name", Ref("name.name"))>>),
  C("statement.alter_index_statement", "statement.statement", <<P("action", Ref("statement.alter_index_action")), P("if_exists", Mark(Bool)), P("name", Ref("name.name"))>>),
  C("statement.alter_table_statement", "statement.statement", <<P("action", Ref("statement.alter_table_action")), P("if_exists", Mark(Bool)), P("name", Ref("name.name"))>>),
  C("statement.column_definition", "statement.table_element", <<P("constraints", ListOf(Elem("statement.column_constraint_definition"))), P("description", Span), P("name", Ref("name.simple")), P("type", Ref("type.type"))>>),
  C("statement.delete_statement", "statement.statement", <<P("alias_name", Opt(Ref("name.simple"))), P("table_name", Ref("name.name")), P("where", Opt(Ref("scalar.expression")))>>),
  C("statement.drop_statement", "statement.statement", <<P("name", Ref("name.name")), P("options", ListOf(Mark(Enum("ast::statement::drop_statement_option")))), P("statement_kind", Mark(Kind("ast::statement::kind", <<"drop_table_statement", "drop_index_statement", "drop_view_statement", "drop_sequence_statement", "drop_schema_statement">>)))>>),
  C("statement.empty_statement", "statement.statement", <<>>),
  C("statement.expression_constraint", "statement.constraint", <<P("constraint_kind", Mark(Kind("ast::statement::constraint_kind", <<"check", "default_clause", "generation_clause">>))), P("expression", Ref("scalar.expression"))>>),
  C("statement.grant_privilege_statement", "statement.statement", <<P("actions", ListOf(Elem("statement.privilege_action"))), P("objects", ListOf(Elem("statement.privilege_object"))), P("users", ListOf(Elem("statement.privilege_user")))>>),
  C("statement.identity_constraint", "statement.constraint", <<P("cycle", Opt(Mark(Bool))), P("generation", Mark(Enum("ast::statement::identity_generation_type"))), P("increment_value", Opt(Ref("scalar.expression"))), P("initial_value", Opt(Ref("scalar.expression"))), P("max_value", Opt(Ref("scalar.expression"))), P("min_value", Opt(Ref("scalar.expression")))>>),
  C("statement.index_definition", "statement.statement", <<P("description", Span), P("keys", ListOf(Elem("common.sort_element"))), P("name", Opt(Ref("name.name"))), P("options", ListOf(Mark(Enum("ast::statement::index_definition_option")))), P("parameters", ListOf(Elem("statement.storage_parameter"))), P("predicate", Opt(Ref("scalar.expression"))), P("table_name", Ref("name.name")), P("values", ListOf(Ref("scalar.expression")))>>),
  C("statement.insert_statement", "statement.statement", <<P("columns", ListOf(Ref("name.simple"))), P("expression", Opt(Ref("query.expression"))), P("options", ListOf(Mark(Enum("ast::statement::insert_statement_option")))), P("table_name", Ref("name.name"))>>),
  C("statement.key_constraint", "statement.constraint", <<P("constraint_kind", Mark(Kind("ast::statement::constraint_kind", <<"unique", "primary_key">>))), P("key", ListOf(Elem("common.sort_element"))), P("parameters", ListOf(Elem("statement.storage_parameter"))), P("values", ListOf(Ref("scalar.expression")))>>),
  C("statement.referential_constraint", "statement.constraint", <<P("columns", ListOf(Ref("name.simple"))), P("on_delete", Opt(Mark(Enum("ast::statement::referential_action")))), P("on_update", Opt(Mark(Enum("ast::statement::referential_action")))), P("target", Ref("name.name")), P("target_columns", ListOf(Ref("name.simple")))>>),
  C("statement.rename_column_action", "statement.alter_table_action", <<P("column_name", Ref("name.simple")), P("if_exists", Mark(Bool)), P("replacement", Ref("name.simple"))>>),
  C("statement.rename_index_action", "statement.alter_index_action", <<P("replacement", Ref("name.simple"))>>),
  C("statement.rename_table_action", "statement.alter_table_action", <<P("replacement", Ref("name.simple"))>>),
  C("statement.revoke_privilege_statement", "statement.statement", <<P("actions", ListOf(Elem("statement.privilege_action"))), P("objects", ListOf(Elem("statement.privilege_object"))), P("users", ListOf(Elem("statement.privilege_user")))>>),
  C("statement.schema_definition", "statement.statement", <<P("description", Span), P("elements", ListOf(Ref("statement.statement"))), P("name", Opt(Ref("name.name"))), P("options", ListOf(Mark(Enum("ast::statement::schema_definition_option")))), P("user_name", Opt(Ref("name.simple")))>>),
  C("statement.select_statement", "statement.statement", <<P("expression", Ref("query.expression")), P("targets", ListOf(Elem("common.target_element")))>>),
  C("statement.sequence_definition", "statement.statement", <<P("description", Span), P("increment_value", Opt(Ref("scalar.expression"))), P("initial_value", Opt(Ref("scalar.expression"))), P("max_value", Opt(Ref("scalar.expression"))), P("min_value", Opt(Ref("scalar.expression"))), P("name", Ref("name.name")), P("options", ListOf(Mark(Enum("ast::statement::sequence_definition_option")))), P("owner", Opt(Ref("name.name"))), P("type", Opt(Ref("type.type")))>>),
  C("statement.simple_constraint", "statement.constraint", <<P("constraint_kind", Mark(Kind("ast::statement::constraint_kind", <<"null", "not_null">>)))>>),
  C("statement.table_constraint_definition", "statement.table_element", <<P("body", Ref("statement.constraint")), P("name", Opt(Ref("name.name")))>>),
  C("statement.table_definition", "statement.statement", <<P("description", Span), P("elements", ListOf(Ref("statement.table_element"))), P("name", Ref("name.name")), P("options", ListOf(Mark(Enum("ast::statement::table_definition_option")))), P("parameters", ListOf(Elem("statement.storage_parameter")))>>),
  C("statement.truncate_table_statement", "statement.statement", <<P("identity_column_option", Opt(Mark(Enum("ast::statement::identity_column_restart_option")))), P("name", Ref("name.name"))>>),
  C("statement.update_statement", "statement.statement", <<P("alias_name", Opt(Ref("name.simple"))), P("elements", ListOf(Elem("statement.set_element"))), P("table_name", Ref("name.name")), P("where", Opt(Ref("scalar.expression")))>>),
  C("statement.view_definition", "statement.statement", <<P("columns", ListOf(Ref("name.simple"))), P("description", Span), P("name", Ref("name.name")), P("options", ListOf(Mark(Enum("ast::statement::view_definition_option")))), P("parameters", ListOf(Elem("statement.storage_parameter"))), P("query", Ref("query.expression"))>>),
  C("table.apply", "table.expression", <<P("arguments", ListOf(Ref("scalar.expression"))), P("correlation", Elem("table.correlation_clause")), P("name", Ref("name.name")), P("operand", Ref("table.expression")), P("operator_kind", Opt(Mark(Enum("ast::table::apply_type"))))>>),
  C("table.join", "table.expression", <<P("left", Ref("table.expression")), P("operator_kind", Mark(Enum("ast::table::join_type"))), P("right", Ref("table.expression")), P("specification", Opt(Ref("table.join_specification")))>>),
  C("table.join_columns", "table.join_specification", <<P("columns", ListOf(Ref("name.simple")))>>),
  C("table.join_condition", "table.join_specification", <<P("expression", Ref("scalar.expression"))>>),
  C("table.subquery", "table.expression", <<P("correlation", Elem("table.correlation_clause")), P("expression", Ref("query.expression")), P("is_lateral", Mark(Bool))>>),
  C("table.table_reference", "table.expression", <<P("correlation", Opt(Elem("table.correlation_clause"))), P("is_only", Mark(Bool)), P("name", Ref("name.name"))>>),
  C("table.unnest", "table.expression", <<P("correlation", Elem("table.correlation_clause")), P("expression", Ref("scalar.expression")), P("with_ordinality", Mark(Bool))>>),
  C("type.binary_numeric", "type.type", <<P("precision", Opt(Mark(Num))), P("type_kind", Mark(Kind("ast::type::kind", <<"binary_integer", "binary_float">>)))>>),
  C("type.bit_string", "type.type", <<P("length", Opt(Mark(Num))), P("type_kind", Mark(Kind("ast::type::kind", <<"bit", "bit_varying">>)))>>),
  C("type.character_string", "type.type", <<P("length", Opt(Mark(Num))), P("type_kind", Mark(Kind("ast::type::kind", <<"character", "character_varying">>)))>>),
  C("type.collection", "type.type", <<P("element", Ref("type.type")), P("length", Opt(Mark(Num)))>>),
  C("type.datetime", "type.type", <<P("has_time_zone", Opt(Mark(Bool))), P("type_kind", Mark(Kind("ast::type::kind", <<"time", "timestamp">>)))>>),
  C("type.decimal", "type.type", <<P("precision", Opt(Mark(Num))), P("scale", Opt(Mark(Num))), P("type_kind", Mark(Kind("ast::type::kind", <<"decimal", "numeric">>)))>>),
  C("type.interval", "type.type", <<>>),
  C("type.octet_string", "type.type", <<P("length", Opt(Mark(Num))), P("type_kind", Mark(Kind("ast::type::kind", <<"octet", "octet_varying">>)))>>),
  C("type.row", "type.type", <<P("elements", ListOf(Elem("type.field_definition")))>>),
  C("type.simple", "type.type", <<P("type_kind", Kind("ast::type::kind", <<"boolean", "unknown", "tiny_integer", "small_integer", "integer", "big_integer", "float_", "real", "double_precision", "date", "binary_large_object", "character_large_object">>))>>),
  C("type.user_defined", "type.type", <<P("name", Ref("name.name"))>>),
  C("literal.null", "literal.literal", <<>>),
  C("literal.empty", "literal.literal", <<>>),
  C("literal.default_", "literal.literal", <<>>),
  C("common.sort_element", "element", <<P("collation", Opt(Ref("name.name"))), P("direction", Opt(Mark(Enum("ast::common::ordering_specification")))), P("key", Ref("scalar.expression")), P("null_location", Opt(Mark(Enum("ast::common::null_ordering_specification"))))>>),
  C("common.target_element", "element", <<P("indicator", Opt(Ref("name.simple"))), P("target", Ref("name.name"))>>),
  C("query.corresponding_clause", "element", <<P("column_names", ListOf(Ref("name.simple")))>>),
  C("query.group_by_clause", "element", <<P("elements", ListOf(Ref("query.grouping_element")))>>),
  C("query.with_element", "element", <<P("column_names", ListOf(Ref("name.simple"))), P("expression", Ref("query.expression")), P("name", Ref("name.simple"))>>),
  C("scalar.case_when_clause", "element", <<P("result", Ref("scalar.expression")), P("when", Ref("scalar.expression"))>>),
  C("statement.column_constraint_definition", "element", <<P("body", Ref("statement.constraint")), P("name", Opt(Ref("name.name")))>>),
  C("statement.privilege_action", "element", <<P("action_kind", Mark(Enum("ast::statement::privilege_action_kind")))>>),
  C("statement.privilege_object", "element", <<P("object_kind", Opt(Mark(Enum("ast::statement::privilege_object_kind")))), P("object_name", Ref("name.name"))>>),
  C("statement.privilege_user", "element", <<P("authorization_identifier", Opt(Ref("name.simple"))), P("user_kind", Enum("ast::statement::privilege_user_kind"))>>),
  C("statement.set_element", "element", <<P("target", Ref("name.name")), P("value", Ref("scalar.expression"))>>),
  C("statement.storage_parameter", "element", <<P("name", Ref("name.name")), P("value", Opt(Ref("scalar.expression")))>>),
  C("table.correlation_clause", "element", <<P("column_names", ListOf(Ref("name.simple"))), P("correlation_name", Ref("name.simple"))>>),
  C("type.field_definition", "element", <<P("collation", Opt(Ref("name.name"))), P("name", Ref("name.simple")), P("type", Ref("type.type"))>>)
>>

Names == { Schema[i].c : i \in 1..Len(Schema) }
At == [ c \in Names |-> CHOOSE i \in 1..Len(Schema) : Schema[i].c = c ]
CompsOf == [ c \in Names |-> Schema[At[c]].ps ]
Comps(c) == CompsOf[c]
FamilyOf(c) == Schema[At[c]].f
MembersOf == [ f \in { Schema[i].f : i \in 1..Len(Schema) } \cup Names |-> { Schema[i].c : i \in { j \in 1..Len(Schema) : Schema[j].f = f \/ Schema[j].c = f } } ]
Members(f) == MembersOf[f]

\* the kind an object of each family reports
KindEnum(f) ==
    CASE f = "literal.literal" -> "ast::literal::kind" [] f = "name.name" -> "ast::name::kind"
      [] f = "query.expression" -> "ast::query::kind" [] f = "query.grouping_element" -> "ast::query::grouping_element_kind"
      [] f = "query.select_element" -> "ast::query::select_element_kind" [] f = "scalar.expression" -> "ast::scalar::kind"
      [] f = "statement.statement" -> "ast::statement::kind" [] f = "statement.table_element" -> "ast::statement::table_element_kind"
      [] f = "statement.constraint" -> "ast::statement::constraint_kind" [] f = "table.expression" -> "ast::table::kind"
      [] f = "table.join_specification" -> "ast::table::join_specification_kind" [] f = "type.type" -> "ast::type::kind"
      [] f = "statement.alter_table_action" -> "ast::statement::alter_table_action_kind"
      [] f = "statement.alter_index_action" -> "ast::statement::alter_index_action_kind"
      [] OTHER -> ""
ActionKinds == <<Fam("ast::statement::alter_table_action_kind", <<<<"rename_table", "rename_table_action">>, <<"rename_column", "rename_column_action">>>>),
                 Fam("ast::statement::alter_index_action_kind", <<<<"rename_index", "rename_index_action">>>>)>>
KindFamilies == Families \o ActionKinds
Space(f) == CASE f \in {"literal.literal"} -> "literal." [] f = "name.name" -> "name."
              [] f \in {"query.expression", "query.grouping_element", "query.select_element"} -> "query." [] f = "scalar.expression" -> "scalar."
              [] f \in {"table.expression", "table.join_specification"} -> "table." [] f = "type.type" -> "type." [] OTHER -> "statement."
\* the kinds that stand for class c
KindsOfClass == [ c \in { x \in Names : KindEnum(FamilyOf(x)) # "" } |->
                    LET f == CHOOSE i \in 1..Len(KindFamilies) : KindFamilies[i].id = KindEnum(FamilyOf(c)) IN
                    { KindFamilies[f].cs[j][1] : j \in { x \in 1..Len(KindFamilies[f].cs) :
                        Space(FamilyOf(c)) \o KindFamilies[f].cs[x][2] = (IF c = "literal.default_" THEN "literal.default" ELSE c) } } ]
KindCompOf == [ c \in Names |-> { i \in 1..Len(Comps(c)) : Comps(c)[i].t[1] = "kind" \/ (Comps(c)[i].t[1] = "mark" /\ Comps(c)[i].t[2][1] = "kind") } ]
KindComp(c) == KindCompOf[c]
Bare(v) == IF v[1] = "m" THEN v[2] ELSE v
\* the kind an object reports
KindOf(v) == IF KindEnum(FamilyOf(v[2])) = "" THEN ""
             ELSE IF KindComp(v[2]) # {} THEN Bare(v[3][CHOOSE i \in KindComp(v[2]) : TRUE])[2]
             ELSE CHOOSE k \in KindsOfClass[v[2]] : TRUE

\* ---- what trees have in common
RECURSIVE Erase(_), Shape(_)
\* without source ranges
Erase(v) ==
    CASE v[1] = "m" -> Erase(v[2])
      [] v[1] = "d" -> <<"d">>
      [] v[1] = "l" -> <<"l", [ i \in 1..Len(v[2]) |-> Erase(v[2][i]) ]>>
      [] v[1] = "N" -> <<"N", v[2], [ i \in 1..Len(v[3]) |-> Erase(v[3][i]) ]>>
      [] OTHER -> v
\* what is printed: without the ranges of objects and words, but with those that are components
Shape(v) ==
    CASE v[1] = "m" -> Shape(v[2])
      [] v[1] = "l" -> <<"l", [ i \in 1..Len(v[2]) |-> Shape(v[2][i]) ]>>
      [] v[1] = "N" -> <<"N", v[2], [ i \in 1..Len(v[3]) |-> Shape(v[3][i]) ]>>
      [] OTHER -> v
Equal(v, w) == Erase(v) = Erase(w)

\* ---- objects to start from
LeafClass(f) ==
    CASE f = "literal.literal" -> "literal.interval" [] f = "name.name" -> "name.simple" [] f = "name.simple" -> "name.simple"
      [] f = "query.expression" -> "query.table_reference" [] f = "query.grouping_element" -> "query.grouping_column"
      [] f = "query.select_element" -> "query.select_asterisk" [] f = "scalar.expression" -> "scalar.variable_reference"
      [] f = "statement.statement" -> "statement.truncate_table_statement" [] f = "statement.table_element" -> "statement.table_constraint_definition"
      [] f = "statement.constraint" -> "statement.expression_constraint" [] f = "table.expression" -> "table.unnest"
      [] f = "table.join_specification" -> "table.join_columns" [] f = "type.type" -> "type.user_defined"
      [] f = "statement.alter_table_action" -> "statement.rename_table_action"
      [] f = "statement.alter_index_action" -> "statement.rename_index_action"
ConstantsOf == [ id \in { Enums[i].id : i \in 1..Len(Enums) } |-> LET cs == Enums[EnumOf(id)].cs IN [ i \in 1..Len(cs) |-> cs[i][1] ] ]
Constants(t) == IF t[1] = "kind" THEN t[3] ELSE ConstantsOf[t[2]]

RECURSIVE Plain(_, _), Def(_, _)
\* the value of type t marked with the text s
Def(t, s) ==
    CASE t[1] = "text" -> <<"t", s>>
      [] t[1] = "bool" -> <<"b", 0>>
      [] t[1] = "num"  -> <<"n", 1>>
      [] t[1] = "span" -> <<"d", <<>>>>
      [] t[1] \in {"enum", "kind"} -> <<"e", Constants(t)[1]>>
      [] t[1] = "mark" -> <<"m", Def(t[2], s), <<>>>>
      [] t[1] = "opt"  -> Def(t[2], s)
      [] t[1] = "seq"  -> <<"l", <<Def(t[2], s)>>>>
      [] t[1] = "ref"  -> Plain(LeafClass(t[2]), s)
      [] t[1] = "elem" -> Plain(t[2], s)
Plain(c, s) == <<"N", c, [ i \in 1..Len(Comps(c)) |-> Def(Comps(c)[i].t, s \o ToString(i)) ], <<>>>>

List(vs) == <<"l", vs>>
Capital(s) == CASE SubSeq(s, 1, 1) = "a" -> "A" \o SubSeq(s, 2, Len(s)) [] OTHER -> "Z" \o s
RECURSIVE Few(_, _), Alts(_, _)
NoName(k) == <<"N", "statement.privilege_user", << <<"-">>, <<"e", k>> >>, <<>>>>
\* a few other values of type t
Few(t, s) ==
    CASE t[1] = "text" -> {<<"t", "">>, <<"t", s \o "x">>}
      [] t[1] = "bool" -> {<<"b", 1>>}
      [] t[1] = "num"  -> {<<"n", 0>>, <<"n", 2>>}
      [] t[1] = "span" -> {<<"d", <<7, 9>>>>}
      [] t[1] \in {"enum", "kind"} -> LET n == Len(Constants(t)) IN IF n = 1 THEN {} ELSE {<<"e", Constants(t)[2]>>, <<"e", Constants(t)[n]>>}
      [] t[1] = "mark" -> { <<"m", v, <<>>>> : v \in Few(t[2], s) }
      [] t[1] = "opt"  -> {<<"-">>} \cup Few(t[2], s)
      [] t[1] = "seq"  -> {List(<<>>), List(<<Def(t[2], s), Def(t[2], s \o "y")>>), List(<<Def(t[2], s \o "y"), Def(t[2], s)>>)}
                          \cup { List(<<v>>) : v \in { Def(t[2], s \o "y") } \ { Def(t[2], s) } }
      [] t[1] = "ref"  -> {Plain(LeafClass(t[2]), s \o "x")}
      [] t[1] = "elem" -> {Plain(t[2], s \o "x")} \cup (IF t[2] = "statement.privilege_user" THEN { NoName(k) : k \in {"all_users", "current_user", "public_"} } ELSE {})
\* an object of class c with one component altered
OneOther(c, s) == LET p == Plain(c, s) IN UNION { { <<"N", c, [ j \in 1..Len(Comps(c)) |-> IF j = i THEN v ELSE p[3][j] ], <<>>>> :
                            v \in Few(Comps(c)[i].t, s \o ToString(i)) } : i \in 1..Len(Comps(c)) }
Long(t, s, n, x) == List([ i \in 1..n |-> Def(t, IF i = n THEN s \o x ELSE s \o ToString(i % 10)) ])
\* all other values of type t that are worth telling apart
Alts(t, s) ==
    CASE t[1] = "text" -> { <<"t", x>> : x \in {"", s \o "x", s \o s, Capital(s), SubSeq(s, 1, Len(s) - 1), s \o "%20", "%20" \o s, s \o "%00", s \o "%00x", s \o "%27",
                                                "%22" \o s \o "%22", "%2d" \o s, "0", "00", "1%2e0", s \o "%e3%81%82", "%2a", "null", "true", "x%5c", "x%2cy",
                                                s \o "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaax", s \o "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay"} } \ {<<"t", s>>}
      [] t[1] = "num"  -> {<<"n", 0>>, <<"n", 2>>, <<"n", 10>>, <<"n", 255>>, <<"n", 256>>, <<"n", 257>>, <<"n", 65537>>, <<"n", -1>>}
      [] t[1] = "span" -> {<<"d", <<7, 9>>>>, <<"d", <<0, 3>>>>}
      [] t[1] \in {"enum", "kind"} -> { <<"e", Constants(t)[i]>> : i \in 2..Len(Constants(t)) }
      [] t[1] = "mark" -> { <<"m", v, <<>>>> : v \in Alts(t[2], s) }
      [] t[1] = "opt"  -> {<<"-">>} \cup Alts(t[2], s)
      [] t[1] = "seq"  -> LET a == Def(t[2], s)  fs == Few(t[2], s) IN
                          Few(t, s) \cup { List(<<v>>) : v \in Alts(t[2], s) }
                          \cup UNION { { List(<<a, v>>), List(<<v, a>>), List(<<a, a, v>>), List(<<a, v, a>>) } : v \in fs }
                          \cup { List(<<a, a>>), List(<<a, a, a>>), Long(t[2], s, 9, "p"), Long(t[2], s, 9, "q"), Long(t[2], s, 20, "p"), Long(t[2], s, 20, "q") }
      [] t[1] = "ref"  -> { Plain(c, s) : c \in Members(t[2]) } \cup OneOther(LeafClass(t[2]), s) \cup Few(t, s)
      [] t[1] = "elem" -> OneOther(t[2], s) \cup Few(t, s)
      [] OTHER -> Few(t, s)

\* only a user given by name has a name
RECURSIVE Legal(_)
Legal(v) == CASE v[1] = "m" -> Legal(v[2])
              [] v[1] = "l" -> \A i \in 1..Len(v[2]) : Legal(v[2][i])
              [] v[1] = "N" -> /\ v[2] = "statement.privilege_user" => (v[3][1] # <<"-">> <=> v[3][2] = <<"e", "identifier">>)
                               /\ \A i \in 1..Len(v[3]) : Legal(v[3][i])
              [] OTHER -> TRUE

\* ---- the machine
VARIABLES val, done
vars == <<val, done>>

Mine == { i \in 1..Len(Schema) : i % Parts = Part }
\* ---- places: a range for every object and word
RECURSIVE Locate(_, _)
Locate(v, k) ==
    CASE v[1] = "m" -> <<"m", Locate(v[2], k), <<k, k + 1>>>>
      [] v[1] = "l" -> <<"l", [ i \in 1..Len(v[2]) |-> Locate(v[2][i], k + i) ]>>
      [] v[1] = "N" -> <<"N", v[2], [ i \in 1..Len(v[3]) |-> Locate(v[3][i], (k * 8 + i * 3) % 100000000) ], <<k, k + 2>>>>
      [] OTHER -> v

\* ---- ranges of all sorts: kept, none, without length, at the begin, far away, mixed
Sort(r, k) == IF r = <<>> THEN r
              ELSE CASE k = 2 -> <<>> [] k = 3 -> <<r[1], r[1]>> [] k = 4 -> <<0, r[2]>> [] k = 5 -> <<r[1] + 2000000000, r[2] + 2000000000>>
                     [] k = 6 -> (CASE r[1] % 4 = 0 -> <<>> [] r[1] % 4 = 1 -> <<r[1], r[1]>> [] r[1] % 4 = 2 -> <<0, 0>> [] OTHER -> r)
                     [] OTHER -> r
RECURSIVE Sorted(_, _)
Sorted(v, k) ==
    CASE v[1] = "m" -> <<"m", Sorted(v[2], k), Sort(v[3], k)>>
      [] v[1] = "l" -> <<"l", [ i \in 1..Len(v[2]) |-> Sorted(v[2][i], k) ]>>
      [] v[1] = "N" -> <<"N", v[2], [ i \in 1..Len(v[3]) |-> Sorted(v[3][i], k) ], IF v[2] = "compilation_unit" THEN v[4] ELSE Sort(v[4], k)>>
      [] OTHER -> v


Sparse(c) == <<"N", c, [ i \in 1..Len(Comps(c)) |->
                 LET t == Comps(c)[i].t IN
                 CASE t[1] = "opt" -> <<"-">> [] t[1] = "seq" -> List(<<>>) [] OTHER -> Def(t, "a" \o ToString(i)) ], <<>>>>

Init == /\ done = {}
        /\ \E i \in Mine : val \in (IF Mode = "place" THEN { Sorted(Locate(v, 1), k) : v \in {Plain(Schema[i].c, "a")} \cup Few(<<"elem", Schema[i].c>>, "b"), k \in 2..6 }
                                ELSE IF Mode = "single" THEN {Plain(Schema[i].c, "a")} ELSE {Plain(Schema[i].c, "a"), Sparse(Schema[i].c)})
Others(i) == LET t == Comps(val[2])[i].t  s == "a" \o ToString(i) IN
             (IF Mode = "single" THEN Alts(t, s) ELSE Few(t, s) \cup {Def(t, s)}) \ {val[3][i]}
Alter(i) == /\ i \notin done
            /\ \E v \in Others(i) : val' = [val EXCEPT ![3][i] = v]
            /\ done' = done \cup {i}
Next == /\ Mode # "place" /\ Cardinality(done) < Depth
        /\ \E i \in 1..Len(val[3]) : Alter(i)
Spec == Init /\ [][Next]_vars

\* ---- what holds of these values
Starts == IF Mode = "single" THEN {Plain(val[2], "a")} ELSE {Plain(val[2], "a"), Sparse(val[2])}
\* an altered component is seen by equality, unless it is a source range, and by print
Seen == Mode = "place" \/ \E w \in Starts :
          LET D == { i \in 1..Len(val[3]) : val[3][i] # w[3][i] } IN
          /\ D \subseteq done
          /\ Equal(val, w) <=> \A i \in D : Erase(val[3][i]) = Erase(w[3][i])
          /\ (Shape(val) = Shape(w)) <=> D = {}
          /\ \A i \in D : Comps(val[2])[i].t[1] # "span" => ~Equal(val, w)
\* an object reports one of the kinds of its class
KindRight == KindEnum(FamilyOf(val[2])) # "" => KindOf(val) \in KindsOfClass[val[2]]

Emit == Legal(val) => CSVWrite("%1$s", <<ToJson([c |-> val[2], f |-> FamilyOf(val[2]), k |-> KindOf(val), t |-> IF Mode = "place" THEN val ELSE Locate(val, 1), q |-> Erase(val), p |-> Shape(val)])>>, OutFile)
=============================================================================
