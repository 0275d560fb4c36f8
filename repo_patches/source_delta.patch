From 20b665ef15cc4f7462eca375bf8c19659c5e06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/34] fix: AST nodes are equal to themselves

operator== of 50 AST classes returned false when both operands were the same object.
---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From 0c7bab4489c05654c4a5f075367f200cc369e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/34] fix: compare ONLY of both table references

operator== of table_reference compared the left operand's flag with itself.
---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
-- 
2.43.0


From b9a6ed2a34308396a7085d91f023fd6bdd40825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 03/34] fix: keep ONLY of table references

The parser dropped ONLY, so that ONLY (t) was read as t.
---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..4e4ebcb 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[o] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @o },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From acd60dd33e3b3d9fb92f60aaa8b3f47dbaacdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 04/34] fix: scan BIT_AND and BIT_OR as themselves

They were scanned as BOOL_AND and BOOL_OR.
---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..5538327 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -453,8 +453,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From a47dd2bd2b5e84dc0aebfc4b5394f5f1d040a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 05/34] fix: include the operand of APPLY in comparison and
 output

operator== and the serializer of table::apply ignored the operand.
---
 src/mizugaki/ast/table/apply.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..64c1394 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -126,6 +126,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace common::serializers;
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "operator_kind"sv, operator_kind_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
@@ -137,7 +138,8 @@ bool operator==(apply const& a, apply const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
         return true;
     }
-    return eq(a.operator_kind_, b.operator_kind_)
+    return eq(a.operand_, b.operand_)
+            && eq(a.operator_kind_, b.operator_kind_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From a2e0f9e10c796a3dfcba232a2a40f3163d7c99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 06/34] fix: return a value from copy assignment of
 clone_wrapper

---
 include/mizugaki/ast/common/clone_wrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..a34421f 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From e8855c3c79a4fbc9140249f91769fb744cef5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 07/34] fix: reject out of range type sizes

A decimal integer which does not fit in size_t was silently saturated by
strtoull, so that different sizes were parsed as the same type.
---
 src/mizugaki/parser/sql_driver.cpp | 10 ++++++----
 src/mizugaki/parser/sql_driver.h   |  4 +++-
 src/mizugaki/parser/sql_parser.yy  | 10 +++++++++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..afc5369 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -6,6 +6,8 @@
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
+#include <optional>
 #include <string_view>
 
 #include <takatori/util/assertion.h>
@@ -294,12 +296,12 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
     return {};
 }
 
-std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
+std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
-    if (errno == ERANGE) {
-        // FIXME: error
-        return 0;
+    // NOTE: the max value is reserved for flexible size (*)
+    if (errno == ERANGE || result >= std::numeric_limits<std::size_t>::max()) {
+        return std::nullopt;
     }
     return result;
 }
diff --git a/src/mizugaki/parser/sql_driver.h b/src/mizugaki/parser/sql_driver.h
index b9bac13..366e777 100644
--- a/src/mizugaki/parser/sql_driver.h
+++ b/src/mizugaki/parser/sql_driver.h
@@ -2,6 +2,8 @@
 
 #include <cstddef>
 
+#include <optional>
+
 #include <mizugaki/ast/common/vector.h>
 #include <mizugaki/ast/name/name.h>
 #include <mizugaki/ast/name/simple.h>
@@ -94,7 +96,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] std::size_t to_size(ast::common::chars const& str);
+    [[nodiscard]] std::optional<std::size_t> to_size(ast::common::chars const& str);
 
     [[nodiscard]] bool check_regular_identifier(ast::common::chars const& str);
 
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 4e4ebcb..0bab410 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4668,7 +4668,15 @@ size_maybe_flexible
 size
     : UNSIGNED_INTEGER[t]
         {
-            $$ = { driver.to_size($t), @t };
+            auto value = driver.to_size($t);
+            if (!value) {
+                driver.error(
+                        sql_parser_code::syntax_error,
+                        @t,
+                        "size is out of range");
+                YYABORT;
+            }
+            $$ = { *value, @t };
         }
     ;
 
-- 
2.43.0


From 0259b0fba149a82a841bf800e66793bf4f78730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 08/34] fix: set the region of set clause elements

---
 src/mizugaki/parser/sql_parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 0bab410..aac8c0a 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2038,6 +2038,7 @@ set_clause
             $$ = ast::statement::set_element {
                     $n,
                     $e,
+                    @$,
             };
         }
     ;
-- 
2.43.0


From ac64547be7766bcea86065b245fc9a3e7e2bd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 09/34] fix: reject a leading comma in routine arguments

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index aac8c0a..08a976f 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4183,7 +4183,7 @@ sql_argument_list_opt
     ;
 
 sql_argument_list
-    : sql_argument_list_opt[L] ","[s] sql_argument[e]
+    : sql_argument_list[L] ","[s] sql_argument[e]
         {
             $$ = $L;
             $$.emplace_back($e);
-- 
2.43.0


From 4216fa47f2599b9895ecc70d836986465b4a7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 10/34] fix: count function names, statement aliases and
 operands of APPLY in tree limits

---
 src/mizugaki/parser/sql_tree_validator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
@@ -548,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
@@ -672,6 +675,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From 2cf2ed603b9c332e2375bdeae7580e8a0587f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 11/34] fix: keep the region of a truncate table statement when
 cloning it

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From 00515daa5341a0ff4576a3fe682909904728b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 12/34] fix: report an invalid default precision of DECIMAL
 without reading an absent precision

---
 src/mizugaki/analyzer/details/analyze_type.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_type.cpp b/src/mizugaki/analyzer/details/analyze_type.cpp
index 7832d29..02f0e8f 100644
--- a/src/mizugaki/analyzer/details/analyze_type.cpp
+++ b/src/mizugaki/analyzer/details/analyze_type.cpp
@@ -208,11 +208,13 @@ public:
                 scale = **scale_opt;
             }
         }
+        // NOTE: the default precision may also be invalid
+        auto precision_region = type.precision() ? type.precision()->region() : type.region();
         if (precision && precision == 0) {
             context_.report(
                     sql_analyzer_code::invalid_type_length,
                     "decimal type precision must not be zero",
-                    type.precision().value().region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region);
             return {};
         }
         if (precision && precision > options().max_decimal_precision()) {
@@ -222,7 +224,7 @@ public:
                             << "too large decimal precision: " << precision.value()
                             << " (max precision is " << options().max_decimal_precision() << ")"
                             << string_builder::to_string,
-                    type.precision()->region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region);
             return {};
         }
         if (scale && scale.value() > precision.value_or(options().max_decimal_precision())) {
-- 
2.43.0


From 56f51e3e53619c55451614fdb9659159093d9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 13/34] fix: keep the source range of the value of a date
 literal

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 08a976f..9516b50 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4282,7 +4282,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
-- 
2.43.0


From d642307af717569a9e2b088e7a87a39c3bc5c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 14/34] fix: use the octet length as size of a binary literal

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 44a7463..87d9192 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -520,7 +520,7 @@ private:
                 context_.values().get(tvalue::octet { std::move(buffer) }),
                 context_.types().get(ttype::octet {
                         ttype::varying,
-                        nchars,
+                        size,
                 }));
     }
 
-- 
2.43.0


From 4600dc854612bc0cd4ca2039131ba06004de75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 15/34] fix: stop the analysis after refusing NULLS FIRST/LAST
 in ORDER BY

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b1307dd..e0f199e 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -253,6 +253,7 @@ public:
                             sql_analyzer_code::unsupported_feature,
                             "NULLS FIRST/LAST in ORDER BY is not yet supported",
                             spec.region());
+                    return {};
                 }
                 auto result = analyze_scalar_expression(context_, *spec.key(), scope);
                 if (!result) {
-- 
2.43.0


From 56f558ecf7f57f7f5f3040182aedbf1cc3bca3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 16/34] fix: check columns taken by '*' against the grouping
 columns

---
 .../details/analyze_query_expression.cpp        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index e0f199e..2260b39 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -191,6 +191,7 @@ public:
         // SELECT ...
         relation_info info;
         optional_ptr<trelation::project> select_columns {};
+        std::vector<std::pair<std::size_t, ast::node_region>> asterisk_columns {};
         {
             auto&& project = graph_.emplace<trelation::project>(std::vector<trelation::project::column> {});
             project.columns().reserve(std::min(expr.elements().size(), std::size_t { 8 }));
@@ -199,10 +200,16 @@ public:
                         expr.elements().front()->region() | expr.elements().back()->region());
             }
             for (auto&& e : expr.elements()) {
+                auto first_column = info.columns().size();
                 auto select = dispatch(*e, scope, project, info);
                 if (!select.success) {
                     return {};
                 }
+                if (e->node_kind() == ast::query::select_asterisk::tag) {
+                    for (std::size_t index = first_column, n = info.columns().size(); index < n; ++index) {
+                        asterisk_columns.emplace_back(index, e->region());
+                    }
+                }
                 if (select.saw_aggregate) {
                     set_functions.activate();
                 }
@@ -336,6 +343,16 @@ public:
                     set_functions.add_aggregated(column.variable());
                 }
             }
+            // NOTE: asterisks bypass the projection
+            for (auto&& [index, region] : asterisk_columns) {
+                if (!set_functions.is_grouping(info.columns()[index].variable())) {
+                    context_.report(
+                            sql_analyzer_code::invalid_aggregation_column,
+                            "'*' must not include columns other than grouping columns",
+                            region);
+                    return {};
+                }
+            }
             if (auto project = sort_columns) {
                 for (auto&& column : project->columns()) {
                     if (!set_functions.process(column.ownership_value())) {
-- 
2.43.0


From 4ce07fb5fce6cbbc685aceb2d8a1c0f01fc855f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 17/34] fix: refuse aggregate functions in VALUES instead of
 leaving them unresolved

---
 .../analyzer/details/analyze_query_expression.cpp        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 2260b39..b4f29e3 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -474,7 +474,14 @@ public:
                     if (!elem) {
                         return {};
                     }
-                    // FIXME: can appear agg func if this is in a sub-query
+                    if (elem.saw_aggregate()) {
+                        // FIXME: can appear agg func if this is in a sub-query
+                        context_.report(
+                                sql_analyzer_code::unsupported_feature,
+                                "aggregate functions in VALUES are not supported",
+                                elem_expr->region());
+                        return {};
+                    }
                     row.push_back(elem.release());
                     ++index;
                 }
-- 
2.43.0


From adeb13ba946d9e3b985cab9289677444c36da55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 18/34] fix: correlation column names must not count nor name
 hidden columns

---
 .../details/analyze_query_expression.cpp      | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b4f29e3..8984428 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1509,7 +1509,13 @@ private:
     }
 
     [[nodiscard]] bool rebuild_relation_info(relation_info& info, ast::table::correlation_clause const& correlation) {
-        if (correlation.column_names().size() > info.columns().size()) {
+        std::size_t exported_columns = 0;
+        for (auto&& column : info.columns()) {
+            if (column.exported()) {
+                ++exported_columns;
+            }
+        }
+        if (correlation.column_names().size() > exported_columns) {
             context_.report(
                     sql_analyzer_code::inconsistent_columns,
                     string_builder {}
@@ -1522,10 +1528,18 @@ private:
 
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         if (!correlation.column_names().empty()) {
-            auto&& rel = info.columns();
             auto&& cor = correlation.column_names();
             saw_column_names.reserve(cor.size());
-            for (std::size_t index = 0, n = cor.size(); index < n; ++index) {
+            std::size_t index = 0;
+            for (auto&& column : info.columns()) {
+                if (!column.exported()) {
+                    continue;
+                }
+                if (index >= cor.size()) {
+                    // hide columns if correlation columns are reduced
+                    column.exported() = false;
+                    continue;
+                }
                 auto identifier = normalize_identifier(context_, *cor[index], name_kind::variable);
                 auto [iter, inserted] = saw_column_names.emplace(identifier);
                 (void) iter;
@@ -1538,10 +1552,9 @@ private:
                             cor[index]->region());
                     return {};
                 }
-                rel[index].identifier() = std::move(identifier);
+                column.identifier() = std::move(identifier);
+                ++index;
             }
-            // project relation if correlation columns are reduced
-            info.erase(cor.size(), rel.size());
             info.rebuild();
         }
         return true;
-- 
2.43.0


From 47e619e76ce3f33f6ec981218b72cbb1d406082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 19/34] fix: hidden columns are not a part of the result of a
 subquery

---
 .../details/analyze_scalar_expression.cpp     | 68 ++++++++++---------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index c3d1980..33b5b80 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1,5 +1,6 @@
 #include <mizugaki/analyzer/details/analyze_scalar_expression.h>
 
+#include <optional>
 #include <vector>
 
 #include <takatori/type/primitive.h>
@@ -691,15 +692,8 @@ public:
         if (!query) {
             return {};
         }
-        auto&& relation = query.relation();
-        if (relation.columns().size() != 1) {
-            context_.report(
-                    sql_analyzer_code::inconsistent_columns,
-                    string_builder {}
-                            << "subquery must return exactly one column, but got "
-                            << relation.columns().size()
-                            << string_builder::to_string,
-                    expr.region());
+        auto column = extract_single_column(query.relation(), expr.region());
+        if (!column) {
             return {};
         }
         std::vector<::yugawara::extension::scalar::subquery::parameter_type> parameters {};
@@ -707,12 +701,11 @@ public:
         for (auto&& [source, destination] : parameter_scope.list_parameters()) {
             parameters.emplace_back(std::move(source), std::move(destination));
         }
-        auto&& column = relation.columns().front();
         auto result = context_.create<::yugawara::extension::scalar::subquery>(
                 expr.region(),
                 std::move(subgraph),
                 std::move(parameters),
-                column.variable());
+                std::move(*column));
         return result;
     }
 
@@ -803,15 +796,8 @@ public:
         if (!query) {
             return {};
         }
-        auto&& relation = query.relation();
-        if (relation.columns().size() != 1) {
-            context_.report(
-                    sql_analyzer_code::inconsistent_columns,
-                    string_builder {}
-                            << "subquery must return exactly one column, but got "
-                            << relation.columns().size()
-                            << string_builder::to_string,
-                    expr.region());
+        auto column = extract_single_column(query.relation(), expr.region());
+        if (!column) {
             return {};
         }
         std::vector<::yugawara::extension::scalar::quantified_compare::parameter_type> parameters {};
@@ -819,7 +805,6 @@ public:
         for (auto&& [source, destination] : parameter_scope.list_parameters()) {
             parameters.emplace_back(std::move(source), std::move(destination));
         }
-        auto&& column = relation.columns().front();
         auto result = context_.create<::yugawara::extension::scalar::quantified_compare>(
                 expr.region(),
                 *operator_,
@@ -827,7 +812,7 @@ public:
                 left.release(),
                 std::move(subgraph),
                 std::move(parameters),
-                column.variable());
+                std::move(*column));
         return result;
     }
 
@@ -1051,15 +1036,8 @@ private:
         if (!query) {
             return {};
         }
-        auto&& relation = query.relation();
-        if (relation.columns().size() != 1) {
-            context_.report(
-                    sql_analyzer_code::inconsistent_columns,
-                    string_builder {}
-                            << "subquery must return exactly one column, but got "
-                            << relation.columns().size()
-                            << string_builder::to_string,
-                    expr.region());
+        auto column = extract_single_column(query.relation(), expr.region());
+        if (!column) {
             return {};
         }
         std::vector<::yugawara::extension::scalar::quantified_compare::parameter_type> parameters {};
@@ -1067,7 +1045,6 @@ private:
         for (auto&& [source, destination] : parameter_scope.list_parameters()) {
             parameters.emplace_back(std::move(source), std::move(destination));
         }
-        auto&& column = relation.columns().front();
         tscalar::comparison_operator operator_ {};
         tscalar::quantifier quantifier {};
         if (*expr.is_not()) {
@@ -1084,7 +1061,7 @@ private:
                 left.release(),
                 std::move(subgraph),
                 std::move(parameters),
-                column.variable());
+                std::move(*column));
         return result;
     }
 
@@ -1644,6 +1621,31 @@ private:
         return ast::scalar::dispatch(*this, expression, value_context);
     }
 
+    [[nodiscard]] std::optional<::takatori::descriptor::variable> extract_single_column(
+            relation_info const& relation,
+            ast::node_region region) {
+        std::optional<::takatori::descriptor::variable> result {};
+        std::size_t count = 0;
+        for (auto&& column : relation.columns()) {
+            // NOTE: non-exported columns are not a part of the subquery result
+            if (column.exported()) {
+                result.emplace(column.variable());
+                ++count;
+            }
+        }
+        if (count != 1) {
+            context_.report(
+                    sql_analyzer_code::inconsistent_columns,
+                    string_builder {}
+                            << "subquery must return exactly one column, but got "
+                            << count
+                            << string_builder::to_string,
+                    region);
+            return {};
+        }
+        return result;
+    }
+
     [[nodiscard]] bool validate(tscalar::expression const& expression) {
         if (context_.options()->validate_scalar_expressions()) {
             auto r = context_.resolve(expression, true);
-- 
2.43.0


From d3c157e9fab1831258c12a7437ed2fbe9f78fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 20/34] fix: allow outer variables in subqueries of aggregated
 queries

---
 .../analyzer/details/set_function_processor.cpp       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 0d8ee67..a096bd8 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -76,12 +76,6 @@ public:
     }
 
     bool operator()(tscalar::variable_reference const& expr, std::size_t depth) {
-        // check only if it is stream variable
-        auto&& variable_info = ::yugawara::binding::unwrap(expr.variable());
-        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
-            return false;
-        }
-
         check_variable(expr.region(), expr.variable(), depth);
         return false;
     }
@@ -90,6 +84,11 @@ public:
             ::takatori::document::region const& region,
             tdescriptor::variable const& variable,
             std::size_t depth) {
+        // check only if it is stream variable
+        auto&& variable_info = ::yugawara::binding::unwrap(variable);
+        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
+            return;
+        }
         if (depth == 0) {
             // NOTE: in aggregation depth = 0, you can use grouping keys or aggregated values
             if (!processor_.is_grouping(variable) && !processor_.is_aggregated(variable)) {
-- 
2.43.0


From 753e3369814e2a1c25a5df6d344aee20c7033d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 21/34] fix: hidden columns are not a part of the source of
 INSERT

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 902366d..6881aeb 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -257,7 +257,13 @@ public:
             return {}; // error
         }
 
-        auto&& source_columns = source.relation().columns();
+        auto source_columns = create_vector<column_info>(source.relation().columns().size());
+        for (auto&& column : source.relation().columns()) {
+            // NOTE: non-exported columns are not a part of the source
+            if (column.exported()) {
+                source_columns.push_back(column);
+            }
+        }
         if (source_columns.size() != destination_columns.size()) {
             context_.report(
                     sql_analyzer_code::inconsistent_columns,
-- 
2.43.0


From 5c0e19bfe6e0e6b3d7d11bfa0d49379fccb685ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 22/34] fix: stop the analysis of UPDATE and DELETE without
 primary keys

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 6881aeb..11ab5a1 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -478,6 +478,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { stmt.elements().size() };
         auto projections = create_vector<trelation::project::column>(stmt.elements().size());
@@ -581,6 +584,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         auto&& op_write = graph->insert(context_.create<trelation::write>(
                 stmt.table_name()->region(),
-- 
2.43.0


From 026b3e99e83f662ef459fd67464e0f933208f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 23/34] fix: refuse hidden columns as the target of UPDATE

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 11ab5a1..287631f 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -497,7 +497,7 @@ public:
 
             auto identifier = normalize_identifier(context_, element.target()->last_name(), name_kind::variable);
             auto column = info.find(identifier);
-            if (!column || !column->declaration()) {
+            if (!column || !column->declaration() || !column->exported()) {
                 context_.report(
                         sql_analyzer_code::column_not_found,
                         string_builder {}
-- 
2.43.0


From 0279a1fed64e0e42e8053b7990fdfec7419290d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 24/34] fix: refuse aggregate functions in SET of UPDATE
 instead of leaving them unresolved

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 287631f..44ab127 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -534,6 +534,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in UPDATE SET clause is not supported",
+                        element.value()->region());
+                return {};
+            }
 
             projections.emplace_back(variable, value.release());
 
-- 
2.43.0


From b631f23e6d74a9a1e8df20f1ed2d1953db198ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 25/34] fix: refuse temporary tables instead of creating
 permanent ones

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 44ab127..b30b7b8 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -707,6 +707,13 @@ public:
 
     [[nodiscard]] result_type operator()(ast::statement::table_definition const& stmt) { // NOLINT(*-function-cognitive-complexity)
         // check features
+        if (auto opt = find(stmt.options(), ast::statement::table_definition_option::temporary)) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "temporary tables are not supported yet",
+                    opt->region());
+            return {};
+        }
         if (!stmt.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
-- 
2.43.0


From 3fec23002b7a80cbaf93f1992cf68fc9a585f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 26/34] fix: refuse values and parameters of column level
 primary keys

---
 .../analyzer/details/analyze_statement.cpp    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index b30b7b8..c971793 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -807,6 +807,9 @@ public:
                                     constraint.region());
                             return {};
                         }
+                        if (!check_key_features(unsafe_downcast<ast::statement::key_constraint>(constraint))) {
+                            return {};
+                        }
                         if (saw_nullity && prototype->criteria().nullity() == ::yugawara::variable::nullable) {
                             context_.report(
                                     sql_analyzer_code::invalid_constraint,
@@ -1245,22 +1248,30 @@ public:
         return {};
     }
 
-    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
-            ast::statement::key_constraint const& constraint,
-            std::shared_ptr<::yugawara::storage::table const> table) {
-        // check features
+    [[nodiscard]] bool check_key_features(ast::statement::key_constraint const& constraint) {
         if (!constraint.values().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
                     "index values are not supported yet",
                     constraint.values().at(0)->region());
-            return {};
+            return false;
         }
         if (!constraint.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return false;
+        }
+        return true;
+    }
+
+    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
+            ast::statement::key_constraint const& constraint,
+            std::shared_ptr<::yugawara::storage::table const> table) {
+        // check features
+        if (!check_key_features(constraint)) {
+            return {};
         }
 
         query_scope scope {};
-- 
2.43.0


From 01bc13064bb014553ebd555e3d74e7eaa306427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 27/34] fix: stop the analysis after refusing parameters of
 CREATE INDEX

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index c971793..6b471de 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1388,6 +1388,7 @@ public:
                     sql_analyzer_code::unsupported_feature,
                     "index parameters are not supported yet",
                     stmt.parameters().at(0).name()->region());
+            return {};
         }
 
         // check existing
-- 
2.43.0


From 39eb432ac4c34998aa563772392b84596b546dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 28/34] fix: locate the missing column of RENAME COLUMN at its
 own name

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 6b471de..1f79cb1 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1571,7 +1571,7 @@ public:
                             << table->simple_name()
                             << "\""
                             << string_builder::to_string,
-                    action.replacement()->region());
+                    action.column_name()->region());
             return {};
         }
         if (find_column(*table, *action.replacement())) {
-- 
2.43.0


From 3a49dc41fb55e422a207385c21897b3869604510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 29/34] fix: only the operands of a join are visible from its
 specification

---
 .../analyzer/details/analyze_name.cpp         |  4 ++-
 .../details/analyze_query_expression.cpp      |  6 ++++-
 src/mizugaki/analyzer/details/query_scope.cpp | 27 ++++++++++++++++---
 src/mizugaki/analyzer/details/query_scope.h   | 18 +++++++++++++
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index f0aaab2..1fd686a 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -824,7 +824,9 @@ private:
             ast::name::simple const& name) {
         ast::common::chars buffer;
         std::optional<descriptor::variable> found {};
-        for (auto&& r : scope.references()) {
+        auto&& relations = scope.references();
+        for (auto index = scope.first_visible(), n = relations.size(); index < n; ++index) {
+            auto&& r = relations[index];
             for (auto v = r.find(to_identifier(name, buffer, name_kind::variable)); !v.is_absent(); v = r.next(*v)) {
                 if (v.is_ambiguous()) {
                     report_column_ambiguous(name);
diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 8984428..b508d48 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1361,7 +1361,7 @@ public:
             auto&& id = normalize_identifier(context_, *name, name_kind::variable);
             auto&& rels = scope.references();
             optional_ptr<tdescriptor::variable const> left {};
-            for (query_scope::position_type i = 0, n = pivot; i < n; ++i) {
+            for (query_scope::position_type i = scope.first_visible(), n = pivot; i < n; ++i) {
                 auto&& rel = rels[i];
                 for (auto&& column = rel.find(id); column; column = rel.next(*column)) {
                     // FIXME: check existing
@@ -1659,6 +1659,7 @@ private:
             ast::table::join const& expr,
             query_scope& scope,
             bool transpose = false) {
+        auto origin = scope.create_pivot();
         auto left = dispatch(*expr.left(), scope);
         if (!left) {
             return {};
@@ -1686,7 +1687,10 @@ private:
                 return {};
             }
         } else if (expr.specification()) {
+            // NOTE: only the operands of this join are visible from the specification
+            auto outside = scope.first_visible(origin);
             condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot);
+            scope.first_visible(outside);
             if (!condition) {
                 return {};
             }
diff --git a/src/mizugaki/analyzer/details/query_scope.cpp b/src/mizugaki/analyzer/details/query_scope.cpp
index 381b61d..8f910f8 100644
--- a/src/mizugaki/analyzer/details/query_scope.cpp
+++ b/src/mizugaki/analyzer/details/query_scope.cpp
@@ -53,12 +53,17 @@ void query_scope::reserve(std::size_t size) {
 relation_info& query_scope::add(relation_info info) {
     auto position = relations_.size();
     auto&& added = relations_.emplace_back(std::move(info));
+    register_relation(position);
+    return added;
+}
 
-    if (auto&& id = added.identifier(); !id.empty()) {
+void query_scope::register_relation(position_type position) {
+    auto&& relation = relations_[position];
+    if (auto&& id = relation.identifier(); !id.empty()) {
         if (auto [it, success] = name_map_.try_emplace(id, position); !success) {
             it.value() = ambiguous;
         }
-    } else if (auto ref = added.declaration()) {
+    } else if (auto ref = relation.declaration()) {
         auto&& name = ref->simple_name();
         if (auto [it, success] = name_map_.try_emplace(std::string { name }, position); !success) {
             it.value() = ambiguous;
@@ -67,7 +72,6 @@ relation_info& query_scope::add(relation_info info) {
             it.value() = ambiguous;
         }
     }
-    return added;
 }
 
 query_scope::result_type query_scope::find(std::string_view identifier) {
@@ -130,6 +134,23 @@ query_scope::position_type query_scope::create_pivot() const noexcept {
     return relations_.size();
 }
 
+query_scope::position_type query_scope::first_visible() const noexcept {
+    return first_visible_;
+}
+
+query_scope::position_type query_scope::first_visible(position_type position) {
+    auto previous = first_visible_;
+    if (previous != position) {
+        first_visible_ = position;
+        name_map_.clear();
+        reference_map_.clear();
+        for (position_type index = position, n = relations_.size(); index < n; ++index) {
+            register_relation(index);
+        }
+    }
+    return previous;
+}
+
 bool query_scope::add(std::string name, std::shared_ptr<query_info const> query) { // NOLINT(performance-unnecessary-value-param)
     auto [it, added] = query_map_.try_emplace(std::move(name), std::move(query));
     (void) it;
diff --git a/src/mizugaki/analyzer/details/query_scope.h b/src/mizugaki/analyzer/details/query_scope.h
index 369fbbe..8ac37ce 100644
--- a/src/mizugaki/analyzer/details/query_scope.h
+++ b/src/mizugaki/analyzer/details/query_scope.h
@@ -57,6 +57,21 @@ public:
 
     [[nodiscard]] position_type create_pivot() const noexcept;
 
+    /**
+     * @brief returns the position of the first relation which can be found from this scope.
+     * @return the first visible position
+     */
+    [[nodiscard]] position_type first_visible() const noexcept;
+
+    /**
+     * @brief changes the position of the first relation which can be found from this scope.
+     * @details relations before the position are kept in this scope, but they can not be found by find().
+     * @param position the first visible position
+     * @return the previous position
+     * @see create_pivot()
+     */
+    position_type first_visible(position_type position);
+
     /**
      * @brief adds a query info with the given name.
      * @param name the query name
@@ -110,6 +125,7 @@ private:
 
     ::takatori::util::optional_ptr<query_scope> parent_ {};
     std::vector<relation_info> relations_ {};
+    position_type first_visible_ { 0 };
     ::tsl::hopscotch_map<std::string, position_type, std::hash<std::string_view>, std::equal_to<>> name_map_ {};
     ::tsl::hopscotch_map<yugawara::storage::relation const*, position_type> reference_map_ {};
     ::tsl::hopscotch_map<
@@ -121,6 +137,8 @@ private:
     query_scope_feature_set features_ {};
     std::vector<std::tuple<::takatori::descriptor::variable, ::takatori::descriptor::variable>> parameters_ {};
 
+    void register_relation(position_type position);
+
     [[nodiscard]] std::optional<position_type> find_internal(std::string_view identifier) const;
     [[nodiscard]] std::optional<position_type> find_internal(::yugawara::storage::relation const& relation) const;
 };
-- 
2.43.0


From 4a97386dfdf9dc323d5bb3b0eb51a9936da8cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 30/34] fix: correlation names of APPLY are regular identifiers
 too

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b508d48..6c994b3 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1123,7 +1123,10 @@ public:
             return {};
         }
 
-        relation_info info { {}, correlation.correlation_name()->identifier() };
+        relation_info info {
+                {},
+                normalize_identifier(context_, *correlation.correlation_name(), name_kind::relation),
+        };
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         saw_column_names.reserve(table_type.columns().size());
         for (std::size_t index = 0; index < table_type.columns().size(); ++index) {
-- 
2.43.0


From acdec09da4d17195dd271a3d9880d5247a03c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 31/34] fix: refuse aggregate functions in arguments of APPLY
 instead of leaving them unresolved

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 6c994b3..4fd680d 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1046,6 +1046,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in APPLY arguments is not supported",
+                        arg->region());
+                return {};
+            }
             auto type = context_.resolve(*value);
             if (!type) {
                 return {};
-- 
2.43.0


From a4090d3a9717797df1dd8f5b87b26cf9177c71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:17 +0000
Subject: [PATCH 32/34] fix: only the operand of APPLY is visible from its
 arguments

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 4fd680d..bcbe8cd 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1028,6 +1028,7 @@ public:
     [[nodiscard]] optional_ptr<output_port> operator()( // NOLINT(*-cognitive-complexity)
             ast::table::apply const& expr,
             query_scope& scope) {
+        auto origin = scope.create_pivot();
         auto operand = dispatch(*expr.operand(), scope);
         if (!operand) {
             return {};
@@ -1042,7 +1043,10 @@ public:
         std::vector<std::shared_ptr<::takatori::type::data const>> argument_types {};
         argument_types.reserve(expr.arguments().size());
         for (auto&& arg : expr.arguments()) {
+            // NOTE: only the operand is visible from the arguments
+            auto outside = scope.first_visible(origin);
             auto value = analyze_scalar_expression(context_, *arg, scope);
+            scope.first_visible(outside);
             if (!value) {
                 return {};
             }
-- 
2.43.0


From 7d116fd981043585bcb2ff9165e707a2a065bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 33/34] fix: locate ambiguous functions of EXTRACT at the
 expression

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index 33b5b80..4e820d2 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -494,7 +494,7 @@ public:
             }
         }
         if (!function_candidates.empty()) {
-            auto target = resolve_overload(function_name, function_candidates);
+            auto target = resolve_overload(expr, function_candidates);
             if (!target) {
                 return {};
             }
-- 
2.43.0


From 6d82f634db80ffa8df2e427e1923c9d1271be6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:57 +0000
Subject: [PATCH 34/34] fix: choose the most specific function regardless of
 the order of declarations

---
 .../details/analyze_scalar_expression.cpp     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index 4e820d2..f445ef3 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1521,13 +1521,22 @@ public:
             analyzer_context& context,
             std::vector<std::shared_ptr<TDecl>> const& candidates,
             ast::node_region region) {
+        auto is_more_specific = [&](std::size_t left_idx, std::size_t right_idx) {
+            auto&& left = candidates[left_idx]->shared_parameter_types();
+            auto&& right = candidates[right_idx]->shared_parameter_types();
+            return is_applicable(left, right) && !is_applicable(right, left);
+        };
+        // NOTE: only the last challenger which was not defeated can be the most specific one
         std::size_t left_idx = 0;
         for (std::size_t right_idx = 1, n = candidates.size(); right_idx < n; ++right_idx) {
-            auto const* left = candidates[left_idx].get();
-            auto const* right = candidates[right_idx].get();
-            auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
-            auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
-            if (forward_applicable == reverse_applicable) {
+            if (!is_more_specific(left_idx, right_idx)) {
+                left_idx = right_idx;
+            }
+        }
+        for (std::size_t right_idx = 0, n = candidates.size(); right_idx < n; ++right_idx) {
+            if (right_idx != left_idx && !is_more_specific(left_idx, right_idx)) {
+                auto const* left = candidates[left_idx].get();
+                auto const* right = candidates[right_idx].get();
                 string_builder builder {};
                 builder << "ambiguous function overload: "
                         << left->name()
@@ -1541,9 +1550,6 @@ public:
                         region);
                 return {};
             }
-            if (reverse_applicable) {
-                left_idx = right_idx;
-            }
         }
         return candidates[left_idx];
     }
-- 
2.43.0

