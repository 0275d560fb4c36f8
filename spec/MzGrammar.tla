------------------------------ MODULE MzGrammar ------------------------------
(***************************************************************************)
(* The SQL language accepted by mizugaki, as data: one record per          *)
(* production, with the meaning of the production attached.                *)
(*                                                                         *)
(*   R(lhs, rhs, act)    act says what the left hand side denotes, given   *)
(*                       the denotations of the right hand side symbols.   *)
(*                                                                         *)
(* Terminals are named as in diagnostics ("SELECT", "(", "<identifier>").  *)
(* The grammar is stratified (boolean_term, boolean_factor, scalar_term,   *)
(* scalar_factor) instead of using precedence declarations: operator       *)
(* grouping is therefore part of the grammar itself.                       *)
(* The meaning of the act constructors is given in MzAction.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(l, r, t)      == [lhs |-> l, rhs |-> r, act |-> t]
F(n, v)         == [n |-> n, v |-> v]
\* ---- what a production denotes
Program(i)      == [o |-> "up", i |-> i]                \* the whole text
Up(i)           == [o |-> "up", i |-> i]                \* same as its i-th symbol
Non             == [o |-> "non"]                        \* nothing
Fls             == [o |-> "sc", s |-> "false"]          \* flag off
Tru             == [o |-> "sc", s |-> "true"]           \* flag on
K(s)            == [o |-> "sc", s |-> s]                \* a constant choice
One(i)          == [o |-> "one", i |-> i]               \* singleton list
OneN(n)         == [o |-> "onen", n |-> n]              \* singleton list of a fresh element
Snoc(i, j, k, l) == [o |-> "snoc", i |-> i, j |-> j, k |-> k, l |-> l]  \* list i grows by j; limit kind k, blamed at l
RegId(i)        == [o |-> "regid", i |-> i]             \* regular identifier
DelId(i)        == [o |-> "delid", i |-> i]             \* delimited identifier
N(k, fs)        == [o |-> "node", k |-> k, fs |-> fs]   \* a fresh node with components fs
At(n, i, j)     == [o |-> "at", n |-> n, i |-> i, j |-> j] \* node n, placed at symbols i..j
Fold(n)         == [o |-> "fold", n |-> n]              \* sign application
NoWith(i)       == [o |-> "nowith", i |-> i]            \* query operand: WITH not allowed
Chain(i, j)     == [o |-> "chain", i |-> i, j |-> j]    \* i . j
ChainCall(i, j, l)  == [o |-> "chaincall", i |-> i, j |-> j, l |-> l]   \* i . j ( l )
StaticCall(i, j, l) == [o |-> "staticcall", i |-> i, j |-> j, l |-> l]  \* i :: j ( l )
Paren(i)        == [o |-> "paren", i |-> i]             \* ( list )
Rec(fs)         == [o |-> "rec", fs |-> fs]             \* unordered option record
Rec1(n, v, i)   == [o |-> "rec1", n |-> n, v |-> v, i |-> i] \* one option, keyword at i
RecAdd(i, j)    == [o |-> "recadd", i |-> i, j |-> j]   \* add option j to record i, no duplicates
Size(i)         == [o |-> "size", i |-> i]              \* a size
Mark(i)         == [o |-> "mark", i |-> i]              \* positional placeholder
\* ---- component values
A(i)            == [o |-> "a", i |-> i]                 \* the denotation of symbol i, absent if nothing
A0              == [o |-> "a0"]                         \* absent
L(i)            == [o |-> "l", i |-> i]                 \* list denoted by symbol i
L0              == [o |-> "ll", es |-> <<>>]            \* empty list
LL(es)          == [o |-> "ll", es |-> es]              \* list of the present values among es
Kx(s)           == [o |-> "k", s |-> s]
Bx(s)           == [o |-> "k", s |-> s]
If(i, s)        == [o |-> "if", i |-> i, s |-> s]       \* constant s if symbol i is on
Cond(i, s, u)   == [o |-> "cond", i |-> i, s |-> s, u |-> u] \* s if symbol i is on, else u
Opt(i, n)       == [o |-> "s", i |-> i, n |-> n]        \* option n of record i
SIf(i, n, s, u) == [o |-> "sif", i |-> i, n |-> n, s |-> s, u |-> u]
Desc(i)         == [o |-> "desc", i |-> i]              \* description comment before symbol i
Hex(i)          == [o |-> "hex", i |-> i]               \* hex digits of literal i

Start == "program"

Prods == <<
  R("program", <<"statement_list", "<END_OF_FILE>">>, Program(1)),
  R("statement_list", <<"statement_list", ";", "statement">>, Snoc(1, 3, "statement", 2)),
  R("statement_list", <<"statement">>, One(1)),
  R("statement", <<"query_expression">>, N("statement.select_statement", <<F("expression", A(1)), F("targets", L0)>>)),
  R("statement", <<"insert_operation", "INTO", "table_name", "insert_source">>, N("statement.insert_statement", <<F("columns", L0), F("expression", A(4)), F("options", LL(<<A(1)>>)), F("table_name", A(3))>>)),
  R("statement", <<"insert_operation", "INTO", "table_name", "(", "column_name_list", ")", "insert_source">>, N("statement.insert_statement", <<F("columns", L(5)), F("expression", A(7)), F("options", LL(<<A(1)>>)), F("table_name", A(3))>>)),
  R("statement", <<"UPDATE", "target_table", "table_alias_clause_opt", "SET", "set_clause_list", "manipulate_where_clause_opt">>, N("statement.update_statement", <<F("alias_name", A(3)), F("elements", L(5)), F("table_name", A(2)), F("where", A(6))>>)),
  R("statement", <<"DELETE", "FROM", "target_table", "table_alias_clause_opt", "manipulate_where_clause_opt">>, N("statement.delete_statement", <<F("alias_name", A(4)), F("table_name", A(3)), F("where", A(5))>>)),
  R("statement", <<"CREATE", "SCHEMA", "if_not_exists_opt", "schema_name_opt", "schema_authorization_opt", "schema_element_list_opt">>, N("statement.schema_definition", <<F("description", Desc(1)), F("elements", L(6)), F("name", A(4)), F("options", LL(<<If(3, "if_not_exists")>>)), F("user_name", A(5))>>)),
  R("statement", <<"schema_element">>, Up(1)),
  R("statement", <<"ALTER", "TABLE", "if_exists_opt", "table_name", "alter_table_action">>, N("statement.alter_table_statement", <<F("action", A(5)), F("if_exists", A(3)), F("name", A(4))>>)),
  R("statement", <<"ALTER", "INDEX", "if_exists_opt", "table_name", "alter_index_action">>, N("statement.alter_index_statement", <<F("action", A(5)), F("if_exists", A(3)), F("name", A(4))>>)),
  R("statement", <<"DROP", "TABLE", "if_exists_opt", "table_name", "drop_behavior_opt">>, N("statement.drop_statement", <<F("name", A(4)), F("options", LL(<<If(3, "if_exists"), A(5)>>)), F("statement_kind", Kx("drop_table_statement"))>>)),
  R("statement", <<"DROP", "INDEX", "if_exists_opt", "table_name", "drop_behavior_opt">>, N("statement.drop_statement", <<F("name", A(4)), F("options", LL(<<If(3, "if_exists"), A(5)>>)), F("statement_kind", Kx("drop_index_statement"))>>)),
  R("statement", <<"DROP", "VIEW", "if_exists_opt", "table_name", "drop_behavior_opt">>, N("statement.drop_statement", <<F("name", A(4)), F("options", LL(<<If(3, "if_exists"), A(5)>>)), F("statement_kind", Kx("drop_view_statement"))>>)),
  R("statement", <<"DROP", "SEQUENCE", "if_exists_opt", "table_name", "drop_behavior_opt">>, N("statement.drop_statement", <<F("name", A(4)), F("options", LL(<<If(3, "if_exists"), A(5)>>)), F("statement_kind", Kx("drop_sequence_statement"))>>)),
  R("statement", <<"DROP", "SCHEMA", "if_exists_opt", "schema_name", "drop_behavior_opt">>, N("statement.drop_statement", <<F("name", A(4)), F("options", LL(<<If(3, "if_exists"), A(5)>>)), F("statement_kind", Kx("drop_schema_statement"))>>)),
  R("statement", <<"TRUNCATE", "TABLE", "table_name", "identity_column_restart_option_opt">>, N("statement.truncate_table_statement", <<F("identity_column_option", A(4)), F("name", A(3))>>)),
  R("statement", <<"GRANT", "privilege_list", "ON", "privilege_object_list", "TO", "privilege_user_list">>, N("statement.grant_privilege_statement", <<F("actions", L(2)), F("objects", L(4)), F("users", L(6))>>)),
  R("statement", <<"REVOKE", "privilege_list", "ON", "privilege_object_list", "FROM", "privilege_user_list">>, N("statement.revoke_privilege_statement", <<F("actions", L(2)), F("objects", L(4)), F("users", L(6))>>)),
  R("statement", <<>>, N("statement.empty_statement", <<>>)),
  R("insert_operation", <<"INSERT">>, Non),
  R("insert_operation", <<"INSERT", "OR", "REPLACE">>, K("or_replace")),
  R("insert_operation", <<"INSERT", "OR", "IGNORE">>, K("or_ignore")),
  R("insert_operation", <<"INSERT", "IF", "NOT", "EXISTS">>, K("or_ignore")),
  R("insert_operation", <<"UPDATE", "OR", "INSERT">>, K("or_replace")),
  R("insert_source", <<"query_expression">>, Up(1)),
  R("insert_source", <<"DEFAULT", "VALUES">>, Non),
  R("schema_authorization_opt", <<"AUTHORIZATION", "user_identifier">>, Up(2)),
  R("schema_authorization_opt", <<"AUTHORIZATION", "CURRENT_ROLE">>, At(N("name.simple", <<F("identifier", Kx("current_role")), F("identifier_kind", Kx("regular"))>>), 2, 2)),
  R("schema_authorization_opt", <<"AUTHORIZATION", "CURRENT_USER">>, At(N("name.simple", <<F("identifier", Kx("current_user")), F("identifier_kind", Kx("regular"))>>), 2, 2)),
  R("schema_authorization_opt", <<"AUTHORIZATION", "SESSION_USER">>, At(N("name.simple", <<F("identifier", Kx("session_user")), F("identifier_kind", Kx("regular"))>>), 2, 2)),
  R("schema_authorization_opt", <<>>, Non),
  R("schema_element_list_opt", <<"schema_element_list_opt", "schema_element">>, Snoc(1, 2, "schema_element_definition", 2)),
  R("schema_element_list_opt", <<>>, Non),
  R("schema_element", <<"CREATE", "temporary_opt", "TABLE", "if_not_exists_opt", "table_name", "(", "table_element_list_opt", ")", "storage_parameter_list_opt">>, N("statement.table_definition", <<F("description", Desc(1)), F("elements", L(7)), F("name", A(5)), F("options", LL(<<If(4, "if_not_exists"), If(2, "temporary")>>)), F("parameters", L(9))>>)),
  R("schema_element", <<"CREATE", "unique_opt", "INDEX", "if_not_exists_opt", "table_name_opt", "ON", "table_name", "(", "sort_specification_list", ")", "index_value_list_opt", "storage_parameter_list_opt", "manipulate_where_clause_opt">>, N("statement.index_definition", <<F("description", Desc(1)), F("keys", L(9)), F("name", A(5)), F("options", LL(<<If(2, "unique"), If(4, "if_not_exists")>>)), F("parameters", L(12)), F("predicate", A(13)), F("table_name", A(7)), F("values", L(11))>>)),
  R("schema_element", <<"CREATE", "temporary_opt", "recursive_opt", "VIEW", "if_not_exists_opt", "table_name", "column_list_opt", "storage_parameter_list_opt", "AS", "query_expression">>, N("statement.view_definition", <<F("columns", L(7)), F("description", Desc(1)), F("name", A(6)), F("options", LL(<<If(2, "temporary"), If(3, "recursive"), If(5, "if_not_exists")>>)), F("parameters", L(8)), F("query", A(10))>>)),
  R("schema_element", <<"CREATE", "OR", "REPLACE", "temporary_opt", "recursive_opt", "VIEW", "if_not_exists_opt", "table_name", "column_list_opt", "storage_parameter_list_opt", "AS", "query_expression">>, N("statement.view_definition", <<F("columns", L(9)), F("description", Desc(1)), F("name", A(8)), F("options", LL(<<Kx("or_replace"), If(4, "temporary"), If(5, "recursive"), If(7, "if_not_exists")>>)), F("parameters", L(10)), F("query", A(12))>>)),
  R("schema_element", <<"CREATE", "temporary_opt", "SEQUENCE", "if_not_exists_opt", "table_name", "sequence_options">>, N("statement.sequence_definition", <<F("description", Desc(1)), F("increment_value", Opt(6, "increment_value")), F("initial_value", Opt(6, "initial_value")), F("max_value", Opt(6, "max_value")), F("min_value", Opt(6, "min_value")), F("name", A(5)), F("options", LL(<<If(2, "temporary"), If(4, "if_not_exists"), SIf(6, "cycle", "cycle", "no_cycle")>>)), F("owner", Opt(6, "owner")), F("type", Opt(6, "type"))>>)),
  R("table_element_list_opt", <<"table_element_list">>, Up(1)),
  R("table_element_list_opt", <<>>, Non),
  R("table_element_list", <<"table_element_list", ",", "table_element">>, Snoc(1, 3, "table_element_definition", 2)),
  R("table_element_list", <<"table_element">>, One(1)),
  R("table_element", <<"column_name", "data_type", "column_constraint_definition_list">>, N("statement.column_definition", <<F("constraints", L(3)), F("description", Desc(1)), F("name", A(1)), F("type", A(2))>>)),
  R("table_element", <<"CONSTRAINT", "constraint_name", "table_constraint_body">>, N("statement.table_constraint_definition", <<F("body", A(3)), F("name", A(2))>>)),
  R("table_element", <<"table_constraint_body">>, N("statement.table_constraint_definition", <<F("body", A(1))>>)),
  R("table_constraint_body", <<"CHECK", "(", "scalar_value_expression", ")">>, N("statement.expression_constraint", <<F("constraint_kind", Kx("check")), F("expression", A(3))>>)),
  R("table_constraint_body", <<"UNIQUE", "(", "sort_specification_list", ")", "index_value_list_opt", "storage_parameter_list_opt">>, N("statement.key_constraint", <<F("constraint_kind", Kx("unique")), F("key", L(3)), F("parameters", L(6)), F("values", L(5))>>)),
  R("table_constraint_body", <<"PRIMARY", "KEY", "(", "sort_specification_list", ")", "index_value_list_opt", "storage_parameter_list_opt">>, N("statement.key_constraint", <<F("constraint_kind", Kx("primary_key")), F("key", L(4)), F("parameters", L(7)), F("values", L(6))>>)),
  R("table_constraint_body", <<"FOREIGN", "KEY", "(", "column_name_list", ")", "REFERENCES", "table_name", "column_name_list_opt", "referential_actions">>, N("statement.referential_constraint", <<F("columns", L(4)), F("on_delete", Opt(9, "on_delete")), F("on_update", Opt(9, "on_update")), F("target", A(7)), F("target_columns", L(8))>>)),
  R("column_constraint_definition_list", <<"column_constraint_definition_list", "column_constraint_definition">>, Snoc(1, 2, "column_constraint_definition", 2)),
  R("column_constraint_definition_list", <<>>, Non),
  R("column_constraint_definition", <<"CONSTRAINT", "constraint_name", "column_constraint_body">>, N("statement.column_constraint_definition", <<F("body", A(3)), F("name", A(2))>>)),
  R("column_constraint_definition", <<"column_constraint_body">>, N("statement.column_constraint_definition", <<F("body", A(1))>>)),
  R("column_constraint_body", <<"NULL">>, N("statement.simple_constraint", <<F("constraint_kind", Kx("null"))>>)),
  R("column_constraint_body", <<"NOT", "NULL">>, N("statement.simple_constraint", <<F("constraint_kind", Kx("not_null"))>>)),
  R("column_constraint_body", <<"CHECK", "(", "scalar_value_expression", ")">>, N("statement.expression_constraint", <<F("constraint_kind", Kx("check")), F("expression", A(3))>>)),
  R("column_constraint_body", <<"DEFAULT", "scalar_value_expression">>, N("statement.expression_constraint", <<F("constraint_kind", Kx("default_clause")), F("expression", A(2))>>)),
  R("column_constraint_body", <<"GENERATED", "ALWAYS", "AS", "(", "scalar_value_expression", ")">>, N("statement.expression_constraint", <<F("constraint_kind", Kx("generation_clause")), F("expression", A(5))>>)),
  R("column_constraint_body", <<"GENERATED", "ALWAYS", "AS", "IDENTITY", "common_sequence_options_opt">>, N("statement.identity_constraint", <<F("cycle", Opt(5, "cycle")), F("generation", Kx("always")), F("increment_value", Opt(5, "increment_value")), F("initial_value", Opt(5, "initial_value")), F("max_value", Opt(5, "max_value")), F("min_value", Opt(5, "min_value"))>>)),
  R("column_constraint_body", <<"GENERATED", "BY", "DEFAULT", "AS", "IDENTITY", "common_sequence_options_opt">>, N("statement.identity_constraint", <<F("cycle", Opt(6, "cycle")), F("generation", Kx("by_default")), F("increment_value", Opt(6, "increment_value")), F("initial_value", Opt(6, "initial_value")), F("max_value", Opt(6, "max_value")), F("min_value", Opt(6, "min_value"))>>)),
  R("column_constraint_body", <<"UNIQUE", "index_value_list_opt", "storage_parameter_list_opt">>, N("statement.key_constraint", <<F("constraint_kind", Kx("unique")), F("key", L0), F("parameters", L(3)), F("values", L(2))>>)),
  R("column_constraint_body", <<"PRIMARY", "KEY", "index_value_list_opt", "storage_parameter_list_opt">>, N("statement.key_constraint", <<F("constraint_kind", Kx("primary_key")), F("key", L0), F("parameters", L(4)), F("values", L(3))>>)),
  R("column_constraint_body", <<"REFERENCES", "table_name", "column_name_list_opt", "referential_actions">>, N("statement.referential_constraint", <<F("columns", L0), F("on_delete", Opt(4, "on_delete")), F("on_update", Opt(4, "on_update")), F("target", A(2)), F("target_columns", L(3))>>)),
  R("index_value_list_opt", <<"INCLUDE", "(", "index_value_list_body_opt", ")">>, Up(3)),
  R("index_value_list_opt", <<>>, Non),
  R("index_value_list_body_opt", <<"index_value_list_body">>, Up(1)),
  R("index_value_list_body_opt", <<>>, Non),
  R("index_value_list_body", <<"index_value_list_body", ",", "scalar_value_expression">>, Snoc(1, 3, "scalar_expression", 2)),
  R("index_value_list_body", <<"scalar_value_expression">>, One(1)),
  R("referential_actions", <<"ON", "UPDATE", "referential_action_kind">>, Rec(<<F("on_update", A(3))>>)),
  R("referential_actions", <<"ON", "DELETE", "referential_action_kind">>, Rec(<<F("on_delete", A(3))>>)),
  R("referential_actions", <<"ON", "UPDATE", "referential_action_kind", "ON", "DELETE", "referential_action_kind">>, Rec(<<F("on_update", A(3)), F("on_delete", A(6))>>)),
  R("referential_actions", <<"ON", "DELETE", "referential_action_kind", "ON", "UPDATE", "referential_action_kind">>, Rec(<<F("on_delete", A(3)), F("on_update", A(6))>>)),
  R("referential_actions", <<>>, Rec(<<>>)),
  R("referential_action_kind", <<"CASCADE">>, K("cascade")),
  R("referential_action_kind", <<"SET", "NULL">>, K("set_null")),
  R("referential_action_kind", <<"SET", "DEFAULT">>, K("set_default")),
  R("referential_action_kind", <<"RESTRICT">>, K("restrict")),
  R("referential_action_kind", <<"NO", "ACTION">>, K("no_action")),
  R("sequence_options", <<"sequence_options", "sequence_option">>, RecAdd(1, 2)),
  R("sequence_options", <<>>, Rec(<<>>)),
  R("sequence_option", <<"AS", "data_type">>, Rec1("type", A(2), 1)),
  R("sequence_option", <<"OWNED", "BY", "identifier_chain">>, Rec1("owner", A(3), 1)),
  R("sequence_option", <<"common_sequence_option">>, Up(1)),
  R("common_sequence_options_opt", <<"(", "common_sequence_options", ")">>, Up(2)),
  R("common_sequence_options_opt", <<>>, Rec(<<>>)),
  R("common_sequence_options", <<"common_sequence_options", "common_sequence_option">>, RecAdd(1, 2)),
  R("common_sequence_options", <<>>, Rec(<<>>)),
  R("common_sequence_option", <<"START", "WITH", "scalar_value_expression">>, Rec1("initial_value", A(3), 1)),
  R("common_sequence_option", <<"START", "scalar_value_expression">>, Rec1("initial_value", A(2), 1)),
  R("common_sequence_option", <<"basic_sequence_option">>, Up(1)),
  R("basic_sequence_option", <<"INCREMENT", "BY", "scalar_value_expression">>, Rec1("increment_value", A(3), 1)),
  R("basic_sequence_option", <<"INCREMENT", "scalar_value_expression">>, Rec1("increment_value", A(2), 1)),
  R("basic_sequence_option", <<"MAXVALUE", "scalar_value_expression">>, Rec1("max_value", A(2), 1)),
  R("basic_sequence_option", <<"NO", "MAXVALUE">>, Rec1("max_value", A0, 2)),
  R("basic_sequence_option", <<"MINVALUE", "scalar_value_expression">>, Rec1("min_value", A(2), 1)),
  R("basic_sequence_option", <<"NO", "MINVALUE">>, Rec1("min_value", A0, 2)),
  R("basic_sequence_option", <<"CYCLE">>, Rec1("cycle", Bx("true"), 1)),
  R("basic_sequence_option", <<"NO", "CYCLE">>, Rec1("cycle", Bx("false"), 2)),
  R("storage_parameter_list_opt", <<"WITH", "(", "storage_parameter_list_body_opt", ")">>, Up(3)),
  R("storage_parameter_list_opt", <<>>, Non),
  R("storage_parameter_list_body_opt", <<"storage_parameter_list_body">>, Up(1)),
  R("storage_parameter_list_body_opt", <<>>, Non),
  R("storage_parameter_list_body", <<"storage_parameter_list_body", ",", "storage_parameter">>, Snoc(1, 3, "storage_parameter", 2)),
  R("storage_parameter_list_body", <<"storage_parameter">>, One(1)),
  R("storage_parameter", <<"identifier_chain">>, N("statement.storage_parameter", <<F("name", A(1))>>)),
  R("storage_parameter", <<"identifier_chain", "=", "storage_parameter_value">>, N("statement.storage_parameter", <<F("name", A(1)), F("value", A(3))>>)),
  R("storage_parameter_value", <<"scalar_value_expression">>, Up(1)),
  R("target_table", <<"table_name">>, Up(1)),
  R("table_alias_clause_opt", <<"AS", "correlation_name">>, Up(2)),
  R("table_alias_clause_opt", <<"correlation_name">>, Up(1)),
  R("table_alias_clause_opt", <<>>, Non),
  R("set_clause_list", <<"set_clause_list", ",", "set_clause">>, Snoc(1, 3, "set_clause", 2)),
  R("set_clause_list", <<"set_clause">>, One(1)),
  R("set_clause", <<"identifier_chain", "=", "value_expression">>, N("statement.set_element", <<F("target", A(1)), F("value", A(3))>>)),
  R("manipulate_where_clause_opt", <<>>, Non),
  R("manipulate_where_clause_opt", <<"WHERE", "value_expression">>, Up(2)),
  R("manipulate_where_clause_opt", <<"WHERE", "CURRENT", "OF", "cursor_name">>, At(N("scalar.current_of_cursor", <<F("name", A(4))>>), 2, 4)),
  R("temporary_opt", <<>>, Fls),
  R("temporary_opt", <<"TEMPORARY">>, Tru),
  R("unique_opt", <<>>, Fls),
  R("unique_opt", <<"UNIQUE">>, Tru),
  R("if_exists_opt", <<>>, Fls),
  R("if_exists_opt", <<"IF", "EXISTS">>, Tru),
  R("if_not_exists_opt", <<>>, Fls),
  R("if_not_exists_opt", <<"IF", "NOT", "EXISTS">>, Tru),
  R("alter_table_action", <<"RENAME", "TO", "identifier">>, N("statement.rename_table_action", <<F("replacement", A(3))>>)),
  R("alter_table_action", <<"RENAME", "COLUMN", "if_exists_opt", "column_name", "TO", "identifier">>, N("statement.rename_column_action", <<F("column_name", A(4)), F("if_exists", A(3)), F("replacement", A(6))>>)),
  R("alter_index_action", <<"RENAME", "TO", "identifier">>, N("statement.rename_index_action", <<F("replacement", A(3))>>)),
  R("drop_behavior_opt", <<>>, Non),
  R("drop_behavior_opt", <<"CASCADE">>, K("cascade")),
  R("drop_behavior_opt", <<"RESTRICT">>, K("restrict")),
  R("identity_column_restart_option_opt", <<>>, Non),
  R("identity_column_restart_option_opt", <<"RESTART", "IDENTITY">>, K("restart_identity")),
  R("identity_column_restart_option_opt", <<"CONTINUE", "IDENTITY">>, K("continue_identity")),
  R("privilege_list", <<"ALL", "PRIVILEGES">>, OneN(N("statement.privilege_action", <<F("action_kind", Kx("all_privileges"))>>))),
  R("privilege_list", <<"privilege_action_list">>, Up(1)),
  R("privilege_action_list", <<"privilege_action_list", ",", "privilege_action">>, Snoc(1, 3, "privilege_action", 2)),
  R("privilege_action_list", <<"privilege_action">>, One(1)),
  R("privilege_action", <<"SELECT">>, N("statement.privilege_action", <<F("action_kind", Kx("select"))>>)),
  R("privilege_action", <<"INSERT">>, N("statement.privilege_action", <<F("action_kind", Kx("insert"))>>)),
  R("privilege_action", <<"UPDATE">>, N("statement.privilege_action", <<F("action_kind", Kx("update"))>>)),
  R("privilege_action", <<"DELETE">>, N("statement.privilege_action", <<F("action_kind", Kx("delete"))>>)),
  R("privilege_object_list", <<"privilege_object_list", ",", "privilege_object">>, Snoc(1, 3, "privilege_object", 2)),
  R("privilege_object_list", <<"privilege_object">>, One(1)),
  R("privilege_object", <<"table_name">>, N("statement.privilege_object", <<F("object_name", A(1))>>)),
  R("privilege_object", <<"TABLE", "table_name">>, N("statement.privilege_object", <<F("object_kind", Kx("table")), F("object_name", A(2))>>)),
  R("privilege_user_list", <<"privilege_user_list", ",", "privilege_user">>, Snoc(1, 3, "privilege_user", 2)),
  R("privilege_user_list", <<"privilege_user">>, One(1)),
  R("privilege_user", <<"authorization_identifier">>, N("statement.privilege_user", <<F("authorization_identifier", A(1)), F("user_kind", Kx("identifier"))>>)),
  R("privilege_user", <<"PUBLIC">>, N("statement.privilege_user", <<F("user_kind", Kx("public"))>>)),
  R("privilege_user", <<"CURRENT_USER">>, N("statement.privilege_user", <<F("user_kind", Kx("current_user"))>>)),
  R("privilege_user", <<"*">>, N("statement.privilege_user", <<F("user_kind", Kx("all_users"))>>)),
  R("query_expression", <<"WITH", "recursive_opt", "with_list", "query_body">>, N("query.with_expression", <<F("elements", L(3)), F("expression", A(4)), F("is_recursive", Cond(2, "true", "false"))>>)),
  R("query_expression", <<"query_body_root">>, Up(1)),
  R("recursive_opt", <<>>, Non),
  R("recursive_opt", <<"RECURSIVE">>, Tru),
  R("with_list", <<"with_list", ",", "with_element">>, Snoc(1, 3, "with_element", 2)),
  R("with_list", <<"with_element">>, One(1)),
  R("with_element", <<"query_name", "column_list_opt", "AS", "(", "query_expression", ")">>, N("query.with_element", <<F("column_names", L(2)), F("expression", A(5)), F("name", A(1))>>)),
  R("column_list_opt", <<>>, Non),
  R("column_list_opt", <<"(", "column_name_list", ")">>, Up(2)),
  R("query_body", <<"query_body_part">>, Up(1)),
  R("query_body", <<"query_term">>, Up(1)),
  R("query_body_root", <<"query_body_part">>, Up(1)),
  R("query_body_root", <<"query_term_root">>, Up(1)),
  R("query_body_part", <<"query_body", "UNION", "set_quantifier_opt", "corresponding_spec_opt", "query_term">>, N("query.binary_expression", <<F("corresponding", A(4)), F("left", A(1)), F("operator_kind", Kx("union")), F("quantifier", A(3)), F("right", A(5))>>)),
  R("query_body_part", <<"query_body", "OUTER", "UNION", "set_quantifier_opt", "corresponding_spec_opt", "query_term">>, N("query.binary_expression", <<F("corresponding", A(5)), F("left", A(1)), F("operator_kind", Kx("outer_union")), F("quantifier", A(4)), F("right", A(6))>>)),
  R("query_body_part", <<"query_body", "EXCEPT", "set_quantifier_opt", "corresponding_spec_opt", "query_term">>, N("query.binary_expression", <<F("corresponding", A(4)), F("left", A(1)), F("operator_kind", Kx("except")), F("quantifier", A(3)), F("right", A(5))>>)),
  R("query_term", <<"query_term_part">>, Up(1)),
  R("query_term", <<"query_factor">>, Up(1)),
  R("query_term_root", <<"query_term_part">>, Up(1)),
  R("query_term_root", <<"query_factor_root">>, Up(1)),
  R("query_term_part", <<"query_term", "INTERSECT", "set_quantifier_opt", "corresponding_spec_opt", "query_factor">>, N("query.binary_expression", <<F("corresponding", A(4)), F("left", A(1)), F("operator_kind", Kx("intersect")), F("quantifier", A(3)), F("right", A(5))>>)),
  R("query_factor", <<"query_primary">>, Up(1)),
  R("query_factor_root", <<"query_primary_root">>, Up(1)),
  R("query_primary", <<"query_primary_part">>, Up(1)),
  R("query_primary", <<"(", "query_expression", ")">>, NoWith(2)),
  R("query_primary_root", <<"query_primary_part">>, Up(1)),
  R("query_primary_part", <<"SELECT", "set_quantifier_opt", "select_list", "FROM", "table_reference_list", "where_clause_opt", "group_by_clause_opt", "having_clause_opt", "order_by_clause_opt", "limit_clause_opt">>, N("query.query", <<F("elements", L(3)), F("from", L(5)), F("group_by", A(7)), F("having", A(8)), F("limit", A(10)), F("order_by", L(9)), F("quantifier", A(2)), F("where", A(6))>>)),
  R("query_primary_part", <<"SELECT", "set_quantifier_opt", "select_list">>, N("query.query", <<F("elements", L(3)), F("from", L0), F("order_by", L0), F("quantifier", A(2))>>)),
  R("query_primary_part", <<"TABLE", "table_name">>, N("query.table_reference", <<F("name", A(2))>>)),
  R("query_primary_part", <<"VALUES", "explicit_row_value_expression_list">>, N("query.table_value_constructor", <<F("elements", L(2))>>)),
  R("select_list", <<"select_list", ",", "select_element">>, Snoc(1, 3, "select_element", 2)),
  R("select_list", <<"select_element">>, One(1)),
  R("select_element", <<"*">>, N("query.select_asterisk", <<>>)),
  R("select_element", <<"value_expression", ". *">>, N("query.select_asterisk", <<F("qualifier", A(1))>>)),
  R("select_element", <<"value_expression", "as_clause_opt">>, N("query.select_column", <<F("name", A(2)), F("value", A(1))>>)),
  R("as_clause_opt", <<>>, Non),
  R("as_clause_opt", <<"column_name">>, Up(1)),
  R("as_clause_opt", <<"AS", "column_name">>, Up(2)),
  R("table_reference_list", <<"table_reference_list", ",", "table_reference">>, Snoc(1, 3, "table_reference", 2)),
  R("table_reference_list", <<"table_reference">>, One(1)),
  R("where_clause_opt", <<>>, Non),
  R("where_clause_opt", <<"WHERE", "value_expression">>, Up(2)),
  R("group_by_clause_opt", <<>>, Non),
  R("group_by_clause_opt", <<"GROUP", "BY", "(", ")">>, N("query.group_by_clause", <<F("elements", L0)>>)),
  R("group_by_clause_opt", <<"GROUP", "BY", "grouping_column_reference_list">>, N("query.group_by_clause", <<F("elements", L(3))>>)),
  R("grouping_column_reference_list", <<"grouping_column_reference_list", ",", "grouping_column_reference">>, Snoc(1, 3, "grouping_element", 2)),
  R("grouping_column_reference_list", <<"grouping_column_reference">>, One(1)),
  R("grouping_column_reference", <<"value_expression", "collate_clause_opt">>, N("query.grouping_column", <<F("collation", A(2)), F("column", A(1))>>)),
  R("collate_clause_opt", <<>>, Non),
  R("collate_clause_opt", <<"COLLATE", "identifier_chain">>, Up(2)),
  R("having_clause_opt", <<>>, Non),
  R("having_clause_opt", <<"HAVING", "value_expression">>, Up(2)),
  R("order_by_clause_opt", <<>>, Non),
  R("order_by_clause_opt", <<"ORDER", "BY", "sort_specification_list">>, Up(3)),
  R("sort_specification_list", <<"sort_specification_list", ",", "sort_specification">>, Snoc(1, 3, "ordering_element", 2)),
  R("sort_specification_list", <<"sort_specification">>, One(1)),
  R("sort_specification", <<"value_expression", "collate_clause_opt", "ordering_specification_opt", "null_ordering_specification_opt">>, N("common.sort_element", <<F("collation", A(2)), F("direction", A(3)), F("key", A(1)), F("null_location", A(4))>>)),
  R("ordering_specification_opt", <<>>, Non),
  R("ordering_specification_opt", <<"ASC">>, K("asc")),
  R("ordering_specification_opt", <<"DESC">>, K("desc")),
  R("null_ordering_specification_opt", <<>>, Non),
  R("null_ordering_specification_opt", <<"NULLS", "FIRST">>, K("first")),
  R("null_ordering_specification_opt", <<"NULLS", "LAST">>, K("last")),
  R("limit_clause_opt", <<>>, Non),
  R("limit_clause_opt", <<"LIMIT", "value_expression">>, Up(2)),
  R("table_reference", <<"joined_table">>, Up(1)),
  R("table_reference", <<"table_primary">>, Up(1)),
  R("joined_table", <<"table_reference", "CROSS", "JOIN", "table_primary">>, N("table.join", <<F("left", A(1)), F("operator_kind", Kx("cross")), F("right", A(4))>>)),
  R("joined_table", <<"table_reference", "join_type", "table_reference", "join_specification">>, N("table.join", <<F("left", A(1)), F("operator_kind", A(2)), F("right", A(3)), F("specification", A(4))>>)),
  R("joined_table", <<"table_reference", "natural_join_type", "table_primary">>, N("table.join", <<F("left", A(1)), F("operator_kind", A(2)), F("right", A(3))>>)),
  R("joined_table", <<"table_reference", "UNION JOIN", "table_primary">>, N("table.join", <<F("left", A(1)), F("operator_kind", Kx("union")), F("right", A(3))>>)),
  R("joined_table", <<"table_reference", "apply_type", "function_name", "routine_invocation_arguments", "correlation_clause">>, N("table.apply", <<F("arguments", L(4)), F("correlation", A(5)), F("name", A(3)), F("operand", A(1)), F("operator_kind", A(2))>>)),
  R("join_type", <<"JOIN">>, K("inner")),
  R("join_type", <<"INNER", "JOIN">>, K("inner")),
  R("join_type", <<"LEFT", "JOIN">>, K("left_outer")),
  R("join_type", <<"LEFT", "OUTER", "JOIN">>, K("left_outer")),
  R("join_type", <<"RIGHT", "JOIN">>, K("right_outer")),
  R("join_type", <<"RIGHT", "OUTER", "JOIN">>, K("right_outer")),
  R("join_type", <<"FULL", "JOIN">>, K("full_outer")),
  R("join_type", <<"FULL", "OUTER", "JOIN">>, K("full_outer")),
  R("natural_join_type", <<"NATURAL", "JOIN">>, K("natural_inner")),
  R("natural_join_type", <<"NATURAL", "INNER", "JOIN">>, K("natural_inner")),
  R("natural_join_type", <<"NATURAL", "LEFT", "JOIN">>, K("natural_left_outer")),
  R("natural_join_type", <<"NATURAL", "LEFT", "OUTER", "JOIN">>, K("natural_left_outer")),
  R("natural_join_type", <<"NATURAL", "RIGHT", "JOIN">>, K("natural_right_outer")),
  R("natural_join_type", <<"NATURAL", "RIGHT", "OUTER", "JOIN">>, K("natural_right_outer")),
  R("natural_join_type", <<"NATURAL", "FULL", "JOIN">>, K("natural_full_outer")),
  R("natural_join_type", <<"NATURAL", "FULL", "OUTER", "JOIN">>, K("natural_full_outer")),
  R("join_specification", <<"ON", "value_expression">>, N("table.join_condition", <<F("expression", A(2))>>)),
  R("join_specification", <<"USING", "(", "column_name_list", ")">>, N("table.join_columns", <<F("columns", L(3))>>)),
  R("apply_type", <<"APPLY">>, Non),
  R("apply_type", <<"CROSS", "APPLY">>, K("cross")),
  R("apply_type", <<"OUTER APPLY">>, K("outer")),
  R("table_primary", <<"table_name", "correlation_clause_opt">>, N("table.table_reference", <<F("correlation", A(2)), F("is_only", Bx("false")), F("name", A(1))>>)),
  R("table_primary", <<"(", "query_expression", ")", "correlation_clause">>, N("table.subquery", <<F("correlation", A(4)), F("expression", A(2)), F("is_lateral", Bx("false"))>>)),
  R("table_primary", <<"LATERAL", "(", "query_expression", ")", "correlation_clause">>, N("table.subquery", <<F("correlation", A(5)), F("expression", A(3)), F("is_lateral", Bx("true"))>>)),
  R("table_primary", <<"UNNEST", "(", "value_expression", ")", "with_ordinality_opt", "correlation_clause">>, N("table.unnest", <<F("correlation", A(6)), F("expression", A(3)), F("with_ordinality", A(5))>>)),
  R("table_primary", <<"ONLY", "(", "table_name", ")", "correlation_clause_opt">>, N("table.table_reference", <<F("correlation", A(5)), F("is_only", Bx("true")), F("name", A(3))>>)),
  R("table_primary", <<"(", "joined_table", ")">>, Up(2)),
  R("field_definition_list", <<"field_definition_list", ",", "field_definition">>, Snoc(1, 3, "field_definition", 2)),
  R("field_definition_list", <<"field_definition">>, One(1)),
  R("field_definition", <<"field_name", "data_type", "collate_clause_opt">>, N("type.field_definition", <<F("collation", A(3)), F("name", A(1)), F("type", A(2))>>)),
  R("with_ordinality_opt", <<>>, Fls),
  R("with_ordinality_opt", <<"WITH", "ORDINALITY">>, Tru),
  R("correlation_clause_opt", <<>>, Non),
  R("correlation_clause_opt", <<"correlation_clause">>, Up(1)),
  R("correlation_clause", <<"correlation_name", "column_list_opt">>, N("table.correlation_clause", <<F("column_names", L(2)), F("correlation_name", A(1))>>)),
  R("correlation_clause", <<"AS", "correlation_name", "column_list_opt">>, N("table.correlation_clause", <<F("column_names", L(3)), F("correlation_name", A(2))>>)),
  R("explicit_row_value_expression_list", <<"explicit_row_value_expression_list", ",", "explicit_row_value_expression">>, Snoc(1, 3, "row_expression", 2)),
  R("explicit_row_value_expression_list", <<"explicit_row_value_expression">>, One(1)),
  R("explicit_row_value_expression", <<"ROW", "(", "value_expression_list", ")">>, N("scalar.value_constructor", <<F("elements", L(3)), F("operator_kind", Kx("row"))>>)),
  R("explicit_row_value_expression", <<"(", "value_expression_list", ")">>, N("scalar.value_constructor", <<F("elements", L(2)), F("operator_kind", Kx("row"))>>)),
  R("explicit_row_value_expression", <<"row_subquery">>, N("scalar.subquery", <<F("context_kind", Kx("row")), F("query", A(1))>>)),
  R("value_expression_list", <<"value_expression_list", ",", "value_expression">>, Snoc(1, 3, "scalar_expression", 2)),
  R("value_expression_list", <<"value_expression">>, One(1)),
  R("value_expression", <<"value_expression", "OR", "boolean_term">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("or")), F("right", A(3))>>)),
  R("value_expression", <<"boolean_term">>, Up(1)),
  R("boolean_term", <<"boolean_term", "AND", "boolean_factor">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("and")), F("right", A(3))>>)),
  R("boolean_term", <<"boolean_factor">>, Up(1)),
  R("boolean_factor", <<"NOT", "boolean_factor">>, N("scalar.unary_expression", <<F("operand", A(2)), F("operator_kind", Kx("not"))>>)),
  R("boolean_factor", <<"predicate_expression", "IS", "not_opt", "truth_literal">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Cond(3, "is_not", "is")), F("right", At(N("scalar.literal_expression", <<F("value", A(4))>>), 4, 4))>>)),
  R("boolean_factor", <<"predicate_expression">>, Up(1)),
  R("predicate_expression", <<"row_value_expression", "comparison_operator", "row_value_expression">>, N("scalar.comparison_predicate", <<F("left", A(1)), F("operator_kind", A(2)), F("right", A(3))>>)),
  R("predicate_expression", <<"row_value_expression", "extended_comparison_operator", "row_value_expression">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", A(2)), F("right", A(3))>>)),
  R("predicate_expression", <<"row_value_expression", "comparison_operator", "quantifier", "table_subquery">>, N("scalar.quantified_comparison_predicate", <<F("left", A(1)), F("operator_kind", A(2)), F("quantifier", A(3)), F("right", A(4))>>)),
  R("predicate_expression", <<"row_value_expression", "not_opt", "BETWEEN", "symmetric_opt", "row_value_expression", "AND", "row_value_expression">>, N("scalar.between_predicate", <<F("is_not", A(2)), F("left", A(5)), F("operator_kind", A(4)), F("right", A(7)), F("target", A(1))>>)),
  R("predicate_expression", <<"row_value_expression", "not_opt", "IN", "table_value_expression">>, N("scalar.in_predicate", <<F("is_not", A(2)), F("left", A(1)), F("right", A(4))>>)),
  R("predicate_expression", <<"row_value_expression", "not_opt", "LIKE", "row_value_expression", "escape_opt">>, N("scalar.pattern_match_predicate", <<F("escape", A(5)), F("is_not", A(2)), F("match_value", A(1)), F("operator_kind", Kx("like")), F("pattern", A(4))>>)),
  R("predicate_expression", <<"row_value_expression", "not_opt", "SIMILAR", "TO", "row_value_expression", "escape_opt">>, N("scalar.pattern_match_predicate", <<F("escape", A(6)), F("is_not", A(2)), F("match_value", A(1)), F("operator_kind", Kx("similar_to")), F("pattern", A(5))>>)),
  R("predicate_expression", <<"EXISTS", "table_subquery">>, N("scalar.table_predicate", <<F("operand", A(2)), F("operator_kind", Kx("exists"))>>)),
  R("predicate_expression", <<"UNIQUE", "table_subquery">>, N("scalar.table_predicate", <<F("operand", A(2)), F("operator_kind", Kx("unique"))>>)),
  R("predicate_expression", <<"row_value_expression", "OVERLAPS", "row_value_expression">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("overlaps")), F("right", A(3))>>)),
  R("predicate_expression", <<"row_value_expression">>, Up(1)),
  R("comparison_operator", <<"=">>, K("equals")),
  R("comparison_operator", <<"<>">>, K("not_equals")),
  R("comparison_operator", <<"!=">>, K("not_equals_alternative")),
  R("comparison_operator", <<"<">>, K("less_than")),
  R("comparison_operator", <<">">>, K("greater_than")),
  R("comparison_operator", <<"<=">>, K("less_than_or_equals")),
  R("comparison_operator", <<">=">>, K("greater_than_or_equals")),
  R("extended_comparison_operator", <<"<@">>, K("contains")),
  R("extended_comparison_operator", <<"@>">>, K("is_contained_by")),
  R("extended_comparison_operator", <<"&&">>, K("have_elements_in_common")),
  R("not_opt", <<>>, Fls),
  R("not_opt", <<"NOT">>, Tru),
  R("symmetric_opt", <<>>, Non),
  R("symmetric_opt", <<"ASYMMETRIC">>, K("asymmetric")),
  R("symmetric_opt", <<"SYMMETRIC">>, K("symmetric")),
  R("escape_opt", <<>>, Non),
  R("escape_opt", <<"ESCAPE", "row_value_expression">>, Up(2)),
  R("table_value_expression", <<"table_subquery">>, Up(1)),
  R("table_value_expression", <<"(", "value_expression_list", ")">>, N("query.table_value_constructor", <<F("elements", L(2))>>)),
  R("row_value_expression", <<"ROW", "(", "value_expression_list", ")">>, N("scalar.value_constructor", <<F("elements", L(3)), F("operator_kind", Kx("row"))>>)),
  R("row_value_expression", <<"scalar_value_expression">>, Up(1)),
  R("scalar_value_expression", <<"scalar_value_expression", "+", "scalar_term">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("plus")), F("right", A(3))>>)),
  R("scalar_value_expression", <<"scalar_value_expression", "-", "scalar_term">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("minus")), F("right", A(3))>>)),
  R("scalar_value_expression", <<"scalar_value_expression", "||", "scalar_term">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("concatenation")), F("right", A(3))>>)),
  R("scalar_value_expression", <<"scalar_term">>, Up(1)),
  R("scalar_term", <<"scalar_term", "*", "scalar_factor">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("asterisk")), F("right", A(3))>>)),
  R("scalar_term", <<"scalar_term", "/", "scalar_factor">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("solidus")), F("right", A(3))>>)),
  R("scalar_term", <<"scalar_term", "%", "scalar_factor">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("percent")), F("right", A(3))>>)),
  R("scalar_term", <<"scalar_factor">>, Up(1)),
  R("scalar_factor", <<"+", "scalar_factor">>, Fold(N("scalar.unary_expression", <<F("operand", A(2)), F("operator_kind", Kx("plus"))>>))),
  R("scalar_factor", <<"-", "scalar_factor">>, Fold(N("scalar.unary_expression", <<F("operand", A(2)), F("operator_kind", Kx("minus"))>>))),
  R("scalar_factor", <<"value_expression_primary", "AT", "LOCAL">>, N("scalar.unary_expression", <<F("operand", A(1)), F("operator_kind", Kx("at_local"))>>)),
  R("scalar_factor", <<"value_expression_primary", "AT", "TIME", "ZONE", "signed_value_expression_primary">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("at_time_zone")), F("right", A(5))>>)),
  R("scalar_factor", <<"value_expression_primary", "::", "data_type">>, N("scalar.cast_expression", <<F("operand", A(1)), F("operator_kind", Kx("cast")), F("type", A(3))>>)),
  R("scalar_factor", <<"value_expression_primary">>, Up(1)),
  R("signed_value_expression_primary", <<"+", "value_expression_primary">>, Fold(N("scalar.unary_expression", <<F("operand", A(2)), F("operator_kind", Kx("plus"))>>))),
  R("signed_value_expression_primary", <<"-", "value_expression_primary">>, Fold(N("scalar.unary_expression", <<F("operand", A(2)), F("operator_kind", Kx("minus"))>>))),
  R("signed_value_expression_primary", <<"value_expression_primary">>, Up(1)),
  R("value_expression_primary", <<"literal">>, N("scalar.literal_expression", <<F("value", A(1))>>)),
  R("value_expression_primary", <<"identifier">>, N("scalar.variable_reference", <<F("name", A(1))>>)),
  R("value_expression_primary", <<"host_parameter_name">>, N("scalar.host_parameter_reference", <<F("name", A(1))>>)),
  R("value_expression_primary", <<"placeholder_mark">>, N("scalar.placeholder_reference", <<F("index", A(1))>>)),
  R("value_expression_primary", <<"value_expression_primary", ".", "identifier">>, Chain(1, 3)),
  R("value_expression_primary", <<"identifier", "routine_invocation_arguments">>, N("scalar.function_invocation", <<F("arguments", L(2)), F("name", A(1))>>)),
  R("value_expression_primary", <<"value_expression_primary", "->", "identifier", "routine_invocation_arguments">>, N("scalar.method_invocation", <<F("arguments", L(4)), F("name", A(3)), F("operator_kind", Kx("arrow")), F("value", A(1))>>)),
  R("value_expression_primary", <<"value_expression_primary", ".", "identifier", "routine_invocation_arguments">>, ChainCall(1, 3, 4)),
  R("value_expression_primary", <<"value_expression_primary", "::", "identifier", "routine_invocation_arguments">>, StaticCall(1, 3, 4)),
  R("value_expression_primary", <<"value_expression_primary", "[", "value_expression", "]">>, N("scalar.binary_expression", <<F("left", A(1)), F("operator_kind", Kx("element_reference")), F("right", A(3))>>)),
  R("value_expression_primary", <<"value_expression_primary", "->", "identifier">>, N("scalar.field_reference", <<F("name", A(3)), F("operator_kind", Kx("arrow")), F("value", A(1))>>)),
  R("value_expression_primary", <<"DEREF", "(", "value_expression", ")">>, N("scalar.unary_expression", <<F("operand", A(3)), F("operator_kind", Kx("reference_resolution"))>>)),
  R("value_expression_primary", <<"system_set_function_invocation">>, Up(1)),
  R("value_expression_primary", <<"system_function_invocation">>, Up(1)),
  R("value_expression_primary", <<"NULLIF", "(", "value_expression", ",", "value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5)>>)), F("function", Kx("nullif"))>>)),
  R("value_expression_primary", <<"COALESCE", "(", "value_expression_list", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", L(3)), F("function", Kx("coalesce"))>>)),
  R("value_expression_primary", <<"CASE", "value_expression", "case_when_clause_list", "else_expression_opt", "END">>, N("scalar.case_expression", <<F("default_result", A(4)), F("operand", A(2)), F("when_clauses", L(3))>>)),
  R("value_expression_primary", <<"CASE", "case_when_clause_list", "else_expression_opt", "END">>, N("scalar.case_expression", <<F("default_result", A(3)), F("when_clauses", L(2))>>)),
  R("value_expression_primary", <<"CAST", "(", "value_expression", "AS", "data_type", ")">>, N("scalar.cast_expression", <<F("operand", A(3)), F("operator_kind", Kx("cast")), F("type", A(5))>>)),
  R("value_expression_primary", <<"NEW", "data_type_user", "(", "sql_argument_list_opt", ")">>, N("scalar.new_invocation", <<F("arguments", L(4)), F("type", A(2))>>)),
  R("value_expression_primary", <<"TREAT", "(", "value_expression", "AS", "data_type", ")">>, N("scalar.cast_expression", <<F("operand", A(3)), F("operator_kind", Kx("treat")), F("type", A(5))>>)),
  R("value_expression_primary", <<"ARRAY", "[", "value_expression_list", "]">>, N("scalar.value_constructor", <<F("elements", L(3)), F("operator_kind", Kx("array"))>>)),
  R("value_expression_primary", <<"scalar_subquery">>, N("scalar.subquery", <<F("context_kind", Kx("scalar")), F("query", A(1))>>)),
  R("value_expression_primary", <<"(", "value_expression", "AS", "data_type", ")">>, N("scalar.cast_expression", <<F("operand", A(2)), F("operator_kind", Kx("generalize")), F("type", A(4))>>)),
  R("value_expression_primary", <<"(", "value_expression_list", ")">>, Paren(2)),
  R("value_expression_primary", <<"NEXT", "VALUE", "FOR", "identifier">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<At(N("scalar.variable_reference", <<F("name", A(4))>>), 4, 4)>>)), F("function", Kx("next_value_for"))>>)),
  R("system_function_invocation", <<"simple_system_function_name", "(", "value_expression_list", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", L(3)), F("function", A(1))>>)),
  R("system_function_invocation", <<"POSITION", "(", "scalar_value_expression", "IN", "scalar_value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5)>>)), F("function", Kx("position"))>>)),
  R("system_function_invocation", <<"EXTRACT", "(", "extract_field", "FROM", "scalar_value_expression", ")">>, N("scalar.extract_expression", <<F("field", A(3)), F("operand", A(5))>>)),
  R("system_function_invocation", <<"EXTRACT", "(", "SECOND", "(", "size_maybe_flexible", ")", "FROM", "scalar_value_expression", ")">>, N("scalar.extract_expression", <<F("field", Kx("second")), F("operand", A(8)), F("subsecond_digits", A(5))>>)),
  R("system_function_invocation", <<"EXTRACT", "(", "YEAR", "TO", "SECOND", "(", "size_maybe_flexible", ")", "FROM", "scalar_value_expression", ")">>, N("scalar.extract_expression", <<F("field", Kx("year to second")), F("operand", A(10)), F("subsecond_digits", A(7))>>)),
  R("system_function_invocation", <<"SUBSTRING", "(", "scalar_value_expression", "FROM", "scalar_value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5)>>)), F("function", Kx("substring"))>>)),
  R("system_function_invocation", <<"SUBSTRING", "(", "scalar_value_expression", "FROM", "scalar_value_expression", "FOR", "scalar_value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5), A(7)>>)), F("function", Kx("substring"))>>)),
  R("system_function_invocation", <<"CONVERT", "(", "scalar_value_expression", "USING", "identifier_chain", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), At(N("scalar.variable_reference", <<F("name", A(5))>>), 5, 5)>>)), F("function", Kx("convert"))>>)),
  R("system_function_invocation", <<"TRANSLATE", "(", "scalar_value_expression", "USING", "identifier_chain", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), At(N("scalar.variable_reference", <<F("name", A(5))>>), 5, 5)>>)), F("function", Kx("translate"))>>)),
  R("system_function_invocation", <<"TRIM", "(", "trim_specification", "scalar_value_expression", "FROM", "scalar_value_expression", ")">>, N("scalar.trim_expression", <<F("character", A(4)), F("source", A(6)), F("specification", A(3))>>)),
  R("system_function_invocation", <<"TRIM", "(", "trim_specification", "FROM", "scalar_value_expression", ")">>, N("scalar.trim_expression", <<F("source", A(5)), F("specification", A(3))>>)),
  R("system_function_invocation", <<"TRIM", "(", "scalar_value_expression", "FROM", "scalar_value_expression", ")">>, N("scalar.trim_expression", <<F("character", A(3)), F("source", A(5))>>)),
  R("system_function_invocation", <<"TRIM", "(", "FROM", "scalar_value_expression", ")">>, N("scalar.trim_expression", <<F("source", A(4))>>)),
  R("system_function_invocation", <<"TRIM", "(", "scalar_value_expression", ")">>, N("scalar.trim_expression", <<F("source", A(3))>>)),
  R("system_function_invocation", <<"OVERLAY", "(", "scalar_value_expression", "PLACING", "scalar_value_expression", "FROM", "scalar_value_expression", "FOR", "scalar_value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5), A(7), A(9)>>)), F("function", Kx("overlay"))>>)),
  R("system_function_invocation", <<"OVERLAY", "(", "scalar_value_expression", "PLACING", "scalar_value_expression", "FROM", "scalar_value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3), A(5), A(7)>>)), F("function", Kx("overlay"))>>)),
  R("system_function_invocation", <<"CURRENT_DATE">>, N("scalar.builtin_function_invocation", <<F("arguments", L0), F("function", Kx("current_date"))>>)),
  R("system_function_invocation", <<"precise_system_function_name">>, N("scalar.builtin_function_invocation", <<F("arguments", L0), F("function", A(1))>>)),
  R("system_function_invocation", <<"precise_system_function_name", "(", "value_expression", ")">>, N("scalar.builtin_function_invocation", <<F("arguments", LL(<<A(3)>>)), F("function", A(1))>>)),
  R("simple_system_function_name", <<"CHAR_LENGTH">>, K("character_length")),
  R("simple_system_function_name", <<"CHARACTER_LENGTH">>, K("character_length")),
  R("simple_system_function_name", <<"OCTET_LENGTH">>, K("octet_length")),
  R("simple_system_function_name", <<"CARDINALITY">>, K("cardinality")),
  R("simple_system_function_name", <<"ABS">>, K("abs")),
  R("simple_system_function_name", <<"CEIL">>, K("ceil")),
  R("simple_system_function_name", <<"FLOOR">>, K("floor")),
  R("simple_system_function_name", <<"MOD">>, K("mod")),
  R("simple_system_function_name", <<"UPPER">>, K("upper")),
  R("simple_system_function_name", <<"LOWER">>, K("lower")),
  R("simple_system_function_name", <<"LENGTH">>, K("length")),
  R("precise_system_function_name", <<"CURRENT_TIME">>, K("current_time")),
  R("precise_system_function_name", <<"LOCALTIME">>, K("localtime")),
  R("precise_system_function_name", <<"CURRENT_TIMESTAMP">>, K("current_timestamp")),
  R("precise_system_function_name", <<"LOCALTIMESTAMP">>, K("localtimestamp")),
  R("extract_field", <<"YEAR">>, K("year")),
  R("extract_field", <<"MONTH">>, K("month")),
  R("extract_field", <<"DAY">>, K("day")),
  R("extract_field", <<"HOUR">>, K("hour")),
  R("extract_field", <<"MINUTE">>, K("minute")),
  R("extract_field", <<"SECOND">>, K("second")),
  R("extract_field", <<"TIMEZONE_HOUR">>, K("timezone_hour")),
  R("extract_field", <<"TIMEZONE_MINUTE">>, K("timezone_minute")),
  R("extract_field", <<"DATE">>, K("date")),
  R("extract_field", <<"YEAR", "TO", "MONTH">>, K("year to month")),
  R("extract_field", <<"YEAR", "TO", "DAY">>, K("year to day")),
  R("extract_field", <<"YEAR", "TO", "HOUR">>, K("year to hour")),
  R("extract_field", <<"YEAR", "TO", "MINUTE">>, K("year to minute")),
  R("extract_field", <<"YEAR", "TO", "SECOND">>, K("year to second")),
  R("trim_specification", <<"LEADING">>, K("leading")),
  R("trim_specification", <<"TRAILING">>, K("trailing")),
  R("trim_specification", <<"BOTH">>, K("both")),
  R("system_set_function_invocation", <<"COUNT", "(", "*", ")">>, N("scalar.builtin_set_function_invocation", <<F("arguments", L0), F("function", Kx("count"))>>)),
  R("system_set_function_invocation", <<"COUNT", "(", "set_quantifier_opt", "value_expression", ")">>, N("scalar.builtin_set_function_invocation", <<F("arguments", LL(<<A(4)>>)), F("function", Kx("count")), F("quantifier", A(3))>>)),
  R("system_set_function_invocation", <<"computational_operation_except_count", "(", "set_quantifier_opt", "value_expression", ")">>, N("scalar.builtin_set_function_invocation", <<F("arguments", LL(<<A(4)>>)), F("function", A(1)), F("quantifier", A(3))>>)),
  R("computational_operation_except_count", <<"AVG">>, K("avg")),
  R("computational_operation_except_count", <<"MAX">>, K("max")),
  R("computational_operation_except_count", <<"MIN">>, K("min")),
  R("computational_operation_except_count", <<"SUM">>, K("sum")),
  R("computational_operation_except_count", <<"EVERY">>, K("every")),
  R("computational_operation_except_count", <<"BIT_AND">>, K("bit_and")),
  R("computational_operation_except_count", <<"BIT_OR">>, K("bit_or")),
  R("computational_operation_except_count", <<"BOOL_AND">>, K("bool_and")),
  R("computational_operation_except_count", <<"BOOL_OR">>, K("bool_or")),
  R("quantifier", <<"ALL">>, K("all")),
  R("quantifier", <<"SOME">>, K("some")),
  R("quantifier", <<"ANY">>, K("any")),
  R("case_when_clause_list", <<"case_when_clause_list", "case_when_clause">>, Snoc(1, 2, "when_clause", 2)),
  R("case_when_clause_list", <<"case_when_clause">>, One(1)),
  R("case_when_clause", <<"WHEN", "value_expression", "THEN", "value_expression">>, N("scalar.case_when_clause", <<F("result", A(4)), F("when", A(2))>>)),
  R("else_expression_opt", <<>>, Non),
  R("else_expression_opt", <<"ELSE", "value_expression">>, Up(2)),
  R("routine_invocation_arguments", <<"(", "sql_argument_list_opt", ")">>, Up(2)),
  R("sql_argument_list_opt", <<>>, Non),
  R("sql_argument_list_opt", <<"sql_argument_list">>, Up(1)),
  R("sql_argument_list", <<"sql_argument_list", ",", "sql_argument">>, Snoc(1, 3, "scalar_expression", 2)),
  R("sql_argument_list", <<"sql_argument">>, One(1)),
  R("sql_argument", <<"value_expression">>, Up(1)),
  R("sql_argument", <<"value_expression", "AS", "data_type">>, N("scalar.cast_expression", <<F("operand", A(1)), F("operator_kind", Kx("generalize")), F("type", A(3))>>)),
  R("table_subquery", <<"subquery">>, Up(1)),
  R("scalar_subquery", <<"subquery">>, Up(1)),
  R("row_subquery", <<"subquery">>, Up(1)),
  R("subquery", <<"(", "query_expression", ")">>, Up(2)),
  R("literal", <<"unsigned_integer">>, Up(1)),
  R("literal", <<"<exact-numeric-literal>">>, N("literal.numeric", <<F("unsigned_value", A(1)), F("value_kind", Kx("exact_numeric"))>>)),
  R("literal", <<"<approximate-numeric-literal>">>, N("literal.numeric", <<F("unsigned_value", A(1)), F("value_kind", Kx("approximate_numeric"))>>)),
  R("literal", <<"<character-string-literal>", "concatenations_list_opt">>, N("literal.string", <<F("concatenations", L(2)), F("value", A(1)), F("value_kind", Kx("character_string"))>>)),
  R("literal", <<"<hex-string-literal>", "concatenations_list_opt">>, N("literal.string", <<F("concatenations", L(2)), F("value", Hex(1)), F("value_kind", Kx("hex_string"))>>)),
  R("literal", <<"DATE", "<character-string-literal>">>, N("literal.datetime", <<F("value", A(2)), F("value_kind", Kx("date"))>>)),
  R("literal", <<"TIME", "with_or_without_time_zone_opt", "<character-string-literal>">>, N("literal.datetime", <<F("value", A(3)), F("value_kind", Cond(2, "time_with_time_zone", "time"))>>)),
  R("literal", <<"TIMESTAMP", "with_or_without_time_zone_opt", "<character-string-literal>">>, N("literal.datetime", <<F("value", A(3)), F("value_kind", Cond(2, "timestamp_with_time_zone", "timestamp"))>>)),
  R("literal", <<"INTERVAL", "sign_opt", "<character-string-literal>">>, N("literal.interval", <<F("sign", A(2)), F("value", A(3))>>)),
  R("literal", <<"truth_literal">>, Up(1)),
  R("literal", <<"ARRAY", "[", "]">>, N("literal.empty", <<>>)),
  R("literal", <<"DEFAULT">>, N("literal.default_", <<>>)),
  R("unsigned_integer", <<"<unsigned-integer>">>, N("literal.numeric", <<F("unsigned_value", A(1)), F("value_kind", Kx("exact_numeric"))>>)),
  R("truth_literal", <<"TRUE">>, N("literal.boolean", <<F("value", Kx("TRUE"))>>)),
  R("truth_literal", <<"FALSE">>, N("literal.boolean", <<F("value", Kx("FALSE"))>>)),
  R("truth_literal", <<"UNKNOWN">>, N("literal.boolean", <<F("value", Kx("UNKNOWN"))>>)),
  R("truth_literal", <<"NULL">>, N("literal.null", <<>>)),
  R("sign_opt", <<>>, Non),
  R("sign_opt", <<"+">>, K("plus")),
  R("sign_opt", <<"-">>, K("minus")),
  R("concatenations_list_opt", <<"concatenations_list_opt", "<character-string-literal>">>, Snoc(1, 2, "string_literal_concatenation", 2)),
  R("concatenations_list_opt", <<>>, Non),
  R("data_type", <<"data_type_system">>, Up(1)),
  R("data_type", <<"data_type_composite">>, Up(1)),
  R("data_type", <<"data_type_user">>, Up(1)),
  R("data_type_system", <<"character_type_name", "parenthesized_size_opt">>, N("type.character_string", <<F("length", A(2)), F("type_kind", Kx("character"))>>)),
  R("data_type_system", <<"character_varying_type_name", "parenthesized_size_maybe_flexible_opt">>, N("type.character_string", <<F("length", A(2)), F("type_kind", Kx("character_varying"))>>)),
  R("data_type_system", <<"BINARY", "parenthesized_size_opt">>, N("type.octet_string", <<F("length", A(2)), F("type_kind", Kx("octet"))>>)),
  R("data_type_system", <<"octet_varying_type_name", "parenthesized_size_maybe_flexible_opt">>, N("type.octet_string", <<F("length", A(2)), F("type_kind", Kx("octet_varying"))>>)),
  R("data_type_system", <<"decimal_type_name">>, N("type.decimal", <<F("type_kind", A(1))>>)),
  R("data_type_system", <<"decimal_type_name", "(", "size_maybe_flexible", ")">>, N("type.decimal", <<F("precision", A(3)), F("type_kind", A(1))>>)),
  R("data_type_system", <<"decimal_type_name", "(", "size_maybe_flexible", ",", "size_maybe_flexible", ")">>, N("type.decimal", <<F("precision", A(3)), F("scale", A(5)), F("type_kind", A(1))>>)),
  R("data_type_system", <<"integer_type_name">>, N("type.simple", <<F("type_kind", Kx("integer"))>>)),
  R("data_type_system", <<"TINYINT">>, N("type.simple", <<F("type_kind", Kx("tiny_integer"))>>)),
  R("data_type_system", <<"SMALLINT">>, N("type.simple", <<F("type_kind", Kx("small_integer"))>>)),
  R("data_type_system", <<"BIGINT">>, N("type.simple", <<F("type_kind", Kx("big_integer"))>>)),
  R("data_type_system", <<"FLOAT">>, N("type.simple", <<F("type_kind", Kx("float"))>>)),
  R("data_type_system", <<"REAL">>, N("type.simple", <<F("type_kind", Kx("real"))>>)),
  R("data_type_system", <<"DOUBLE", "PRECISION">>, N("type.simple", <<F("type_kind", Kx("double_precision"))>>)),
  R("data_type_system", <<"DOUBLE">>, N("type.simple", <<F("type_kind", Kx("double_precision"))>>)),
  R("data_type_system", <<"integer_type_name", "(", "size", ")">>, N("type.binary_numeric", <<F("precision", A(3)), F("type_kind", Kx("binary_integer"))>>)),
  R("data_type_system", <<"FLOAT", "(", "size", ")">>, N("type.binary_numeric", <<F("precision", A(3)), F("type_kind", Kx("binary_float"))>>)),
  R("data_type_system", <<"BOOLEAN">>, N("type.simple", <<F("type_kind", Kx("boolean"))>>)),
  R("data_type_system", <<"DATE">>, N("type.simple", <<F("type_kind", Kx("date"))>>)),
  R("data_type_system", <<"TIME", "with_or_without_time_zone_opt">>, N("type.datetime", <<F("has_time_zone", A(2)), F("type_kind", Kx("time"))>>)),
  R("data_type_system", <<"TIMESTAMP", "with_or_without_time_zone_opt">>, N("type.datetime", <<F("has_time_zone", A(2)), F("type_kind", Kx("timestamp"))>>)),
  R("data_type_system", <<"INTERVAL">>, N("type.interval", <<>>)),
  R("data_type_system", <<"BLOB">>, N("type.simple", <<F("type_kind", Kx("binary_large_object"))>>)),
  R("data_type_system", <<"BINARY", "LARGE", "OBJECT">>, N("type.simple", <<F("type_kind", Kx("binary_large_object"))>>)),
  R("data_type_system", <<"CLOB">>, N("type.simple", <<F("type_kind", Kx("character_large_object"))>>)),
  R("data_type_system", <<"character_type_name", "LARGE", "OBJECT">>, N("type.simple", <<F("type_kind", Kx("character_large_object"))>>)),
  R("data_type_composite", <<"ROW", "(", "field_definition_list", ")">>, N("type.row", <<F("elements", L(3))>>)),
  R("data_type_composite", <<"data_type", "ARRAY", "[", "size_maybe_flexible_opt", "]">>, N("type.collection", <<F("element", A(1)), F("length", A(4))>>)),
  R("data_type_composite", <<"data_type", "[", "size_maybe_flexible_opt", "]">>, N("type.collection", <<F("element", A(1)), F("length", A(3))>>)),
  R("data_type_user", <<"identifier_chain">>, N("type.user_defined", <<F("name", A(1))>>)),
  R("character_type_name", <<"CHARACTER">>, Non),
  R("character_type_name", <<"CHAR">>, Non),
  R("character_varying_type_name", <<"CHARACTER", "VARYING">>, Non),
  R("character_varying_type_name", <<"CHAR", "VARYING">>, Non),
  R("character_varying_type_name", <<"VARCHAR">>, Non),
  R("octet_varying_type_name", <<"BINARY", "VARYING">>, Non),
  R("octet_varying_type_name", <<"VARBINARY">>, Non),
  R("decimal_type_name", <<"DECIMAL">>, K("decimal")),
  R("decimal_type_name", <<"DEC">>, K("decimal")),
  R("decimal_type_name", <<"NUMERIC">>, K("numeric")),
  R("integer_type_name", <<"INT">>, Non),
  R("integer_type_name", <<"INTEGER">>, Non),
  R("parenthesized_size_maybe_flexible_opt", <<>>, Non),
  R("parenthesized_size_maybe_flexible_opt", <<"(", "size_maybe_flexible", ")">>, Up(2)),
  R("parenthesized_size_opt", <<>>, Non),
  R("parenthesized_size_opt", <<"(", "size", ")">>, Up(2)),
  R("size_maybe_flexible_opt", <<>>, Non),
  R("size_maybe_flexible_opt", <<"size_maybe_flexible">>, Up(1)),
  R("size_maybe_flexible", <<"size">>, Up(1)),
  R("size_maybe_flexible", <<"*">>, K("*")),
  R("size", <<"<unsigned-integer>">>, Size(1)),
  R("with_or_without_time_zone_opt", <<>>, Non),
  R("with_or_without_time_zone_opt", <<"WITH", "TIME", "ZONE">>, Tru),
  R("with_or_without_time_zone_opt", <<"WITHOUT", "TIME", "ZONE">>, K("false")),
  R("set_quantifier_opt", <<>>, Non),
  R("set_quantifier_opt", <<"ALL">>, K("all")),
  R("set_quantifier_opt", <<"DISTINCT">>, K("distinct")),
  R("corresponding_spec_opt", <<>>, Non),
  R("corresponding_spec_opt", <<"CORRESPONDING", "BY", "(", "column_name_list", ")">>, N("query.corresponding_clause", <<F("column_names", L(4))>>)),
  R("corresponding_spec_opt", <<"CORRESPONDING">>, N("query.corresponding_clause", <<F("column_names", L0)>>)),
  R("column_name_list_opt", <<"(", "column_name_list", ")">>, Up(2)),
  R("column_name_list_opt", <<>>, Non),
  R("column_name_list", <<"column_name_list", ",", "column_name">>, Snoc(1, 3, "column_reference", 2)),
  R("column_name_list", <<"column_name">>, One(1)),
  R("query_name", <<"identifier">>, Up(1)),
  R("table_name", <<"identifier_chain">>, Up(1)),
  R("table_name_opt", <<"table_name">>, Up(1)),
  R("table_name_opt", <<>>, Non),
  R("schema_name", <<"identifier_chain">>, Up(1)),
  R("schema_name_opt", <<"schema_name">>, Up(1)),
  R("schema_name_opt", <<>>, Non),
  R("correlation_name", <<"identifier">>, Up(1)),
  R("constraint_name", <<"identifier_chain">>, Up(1)),
  R("function_name", <<"identifier_chain">>, Up(1)),
  R("column_name", <<"identifier">>, Up(1)),
  R("field_name", <<"identifier">>, Up(1)),
  R("cursor_name", <<"identifier">>, Up(1)),
  R("user_identifier", <<"identifier">>, Up(1)),
  R("authorization_identifier", <<"identifier">>, Up(1)),
  R("host_parameter_name", <<"<host-parameter-name>">>, N("name.simple", <<F("identifier", A(1)), F("identifier_kind", Kx("regular"))>>)),
  R("placeholder_mark", <<"?">>, Mark(1)),
  R("identifier_chain", <<"identifier_chain", ".", "identifier">>, N("name.qualified", <<F("last", A(3)), F("qualifier", A(1))>>)),
  R("identifier_chain", <<"identifier">>, Up(1)),
  R("identifier", <<"<identifier>">>, RegId(1)),
  R("identifier", <<"<delimited-identifier>">>, DelId(1)),
  R("identifier", <<"contextual_identifier">>, Up(1)),
  R("contextual_identifier", <<"ASC">>, RegId(1)),
  R("contextual_identifier", <<"CONTINUE">>, RegId(1)),
  R("contextual_identifier", <<"DESC">>, RegId(1)),
  R("contextual_identifier", <<"KEY">>, RegId(1)),
  R("contextual_identifier", <<"IGNORE">>, RegId(1)),
  R("contextual_identifier", <<"SCHEMA">>, RegId(1)),
  R("contextual_identifier", <<"SEQUENCE">>, RegId(1)),
  R("contextual_identifier", <<"RESTART">>, RegId(1)),
  R("contextual_identifier", <<"RESTRICT">>, RegId(1)),
  R("contextual_identifier", <<"RENAME">>, RegId(1)),
  R("contextual_identifier", <<"FIRST">>, RegId(1)),
  R("contextual_identifier", <<"LAST">>, RegId(1)),
  R("contextual_identifier", <<"ORDINALITY">>, RegId(1)),
  R("contextual_identifier", <<"VALUE">>, RegId(1))
>>
=============================================================================
