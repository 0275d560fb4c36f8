---------------------------- MODULE MzOperators ----------------------------
(***************************************************************************)
(* Operator precedence, stated by itself: a table of operators with their  *)
(* binding strength, the texts of an expression with only the necessary    *)
(* parentheses or with all of them, and the tree of an expression.         *)
(*                                                                         *)
(* The machine grows expressions: a leaf is replaced by an operator.  Each *)
(* expression has one tree, whatever redundant parentheses are written.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, Family, Ops, First, Size, Walk

VARIABLES term, size
vars == <<term, size>>

\* ---- the operator table
\* form items: token, hole for an operand of at least the given strength, name
T(s)    == <<"token", s, 0>>
H(i, m) == <<"hole", i, m>>
Id      == <<"name", "", 0>>
Op(l, f, v) == [l |-> l, f |-> f, v |-> v]
\* node templates: components are constants, operands, lists of operands, names (by form item)
Nd(k, fs) == <<"N", k, fs>>
C(s)     == <<"S", s>>
X(i)     == <<"X", i>>
Xs(l)    == <<"Xs", l>>
Nm(i)    == <<"Nm", i>>

Bin(l, t, k) == Op(l, <<H(1, l), T(t), H(2, l + 1)>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C(k)>>, <<"right", X(2)>> >>))
Rel(t, k)    == Op(5, <<H(1, 6), T(t), H(2, 6)>>, Nd("scalar.comparison_predicate", << <<"left", X(1)>>, <<"operator_kind", C(k)>>, <<"right", X(2)>> >>))
Ext(t, k)    == Op(5, <<H(1, 6), T(t), H(2, 6)>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C(k)>>, <<"right", X(2)>> >>))
Pre(l, t, k) == Op(l, <<T(t), H(1, l)>>, Nd("scalar.unary_expression", << <<"operand", X(1)>>, <<"operator_kind", C(k)>> >>))
Truth(v)     == Nd("scalar.literal_expression", << <<"value", Nd("literal.boolean", << <<"value", C(v)>> >>)>> >>)
Null         == Nd("scalar.literal_expression", << <<"value", Nd("literal.null", <<>>)>> >>)
Is(t, r)     == Op(4, <<H(1, 5), T("IS"), T(t)>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C("is")>>, <<"right", r>> >>))
IsNot(t, r)  == Op(4, <<H(1, 5), T("IS"), T("NOT"), T(t)>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C("is_not")>>, <<"right", r>> >>))
Between(ts, not, k) ==
    Op(5, <<H(1, 6)>> \o [ i \in 1..Len(ts) |-> T(ts[i]) ] \o <<H(2, 6), T("AND"), H(3, 6)>>,
       Nd("scalar.between_predicate", << <<"is_not", C(not)>>, <<"left", X(2)>> >> \o (IF k = "" THEN <<>> ELSE << <<"operator_kind", C(k)>> >>) \o << <<"right", X(3)>>, <<"target", X(1)>> >>))
Match(ts, not, k, esc) ==
    Op(5, <<H(1, 6)>> \o [ i \in 1..Len(ts) |-> T(ts[i]) ] \o <<H(2, 6)>> \o (IF esc THEN <<T("ESCAPE"), H(3, 6)>> ELSE <<>>),
       Nd("scalar.pattern_match_predicate", (IF esc THEN << <<"escape", X(3)>> >> ELSE <<>>) \o << <<"is_not", C(not)>>, <<"match_value", X(1)>>, <<"operator_kind", C(k)>>, <<"pattern", X(2)>> >>))
In(ts, not) ==
    Op(5, <<H(1, 6)>> \o [ i \in 1..Len(ts) |-> T(ts[i]) ] \o <<T("("), H(2, 0), T(","), H(3, 0), T(")")>>,
       Nd("scalar.in_predicate", << <<"is_not", C(not)>>, <<"left", X(1)>>, <<"right", Nd("query.table_value_constructor", << <<"elements", Xs(<<2, 3>>)>> >>)>> >>))
Call(k, ts, n) ==    \* a closed form: operands between words
    Op(9, ts, Nd(k, n))

Scalar(x) ==
    ("x" :> Op(9, <<Id>>, Nd("scalar.variable_reference", << <<"name", Nm(1)>> >>)))
 @@ ("or" :> Bin(1, "OR", "or")) @@ ("and" :> Bin(2, "AND", "and")) @@ ("not" :> Pre(3, "NOT", "not"))
 @@ ("is true" :> Is("TRUE", Truth("TRUE"))) @@ ("is not true" :> IsNot("TRUE", Truth("TRUE")))
 @@ ("is false" :> Is("FALSE", Truth("FALSE"))) @@ ("is not unknown" :> IsNot("UNKNOWN", Truth("UNKNOWN")))
 @@ ("is null" :> Is("NULL", Null)) @@ ("is not null" :> IsNot("NULL", Null))
 @@ ("=" :> Rel("=", "equals")) @@ ("<>" :> Rel("<>", "not_equals")) @@ ("!=" :> Rel("!=", "not_equals_alternative"))
 @@ ("<" :> Rel("<", "less_than")) @@ (">" :> Rel(">", "greater_than")) @@ ("<=" :> Rel("<=", "less_than_or_equals")) @@ (">=" :> Rel(">=", "greater_than_or_equals"))
 @@ ("&&" :> Ext("&&", "have_elements_in_common")) @@ ("<@" :> Ext("<@", "contains")) @@ ("@>" :> Ext("@>", "is_contained_by")) @@ ("overlaps" :> Ext("OVERLAPS", "overlaps"))
 @@ ("between" :> Between(<<"BETWEEN">>, "false", "")) @@ ("not between" :> Between(<<"NOT", "BETWEEN">>, "true", ""))
 @@ ("between symmetric" :> Between(<<"BETWEEN", "SYMMETRIC">>, "false", "symmetric")) @@ ("not between asymmetric" :> Between(<<"NOT", "BETWEEN", "ASYMMETRIC">>, "true", "asymmetric"))
 @@ ("like" :> Match(<<"LIKE">>, "false", "like", FALSE)) @@ ("not like escape" :> Match(<<"NOT", "LIKE">>, "true", "like", TRUE))
 @@ ("similar" :> Match(<<"SIMILAR", "TO">>, "false", "similar_to", FALSE)) @@ ("not similar escape" :> Match(<<"NOT", "SIMILAR", "TO">>, "true", "similar_to", TRUE))
 @@ ("in" :> In(<<"IN">>, "false")) @@ ("not in" :> In(<<"NOT", "IN">>, "true"))
 @@ ("+" :> Bin(6, "+", "plus")) @@ ("-" :> Bin(6, "-", "minus")) @@ ("||" :> Bin(6, "||", "concatenation"))
 @@ ("*" :> Bin(7, "*", "asterisk")) @@ ("/" :> Bin(7, "/", "solidus")) @@ ("%" :> Bin(7, "%", "percent"))
 @@ ("sign +" :> Pre(8, "+", "plus")) @@ ("sign -" :> Pre(8, "-", "minus"))
 @@ ("at local" :> Op(8, <<H(1, 9), T("AT"), T("LOCAL")>>, Nd("scalar.unary_expression", << <<"operand", X(1)>>, <<"operator_kind", C("at_local")>> >>)))
 @@ ("at time zone" :> Op(8, <<H(1, 9), T("AT"), T("TIME"), T("ZONE"), H(2, 9)>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C("at_time_zone")>>, <<"right", X(2)>> >>)))
 @@ ("::" :> Op(8, <<H(1, 9), T("::"), T("INTEGER")>>, Nd("scalar.cast_expression", << <<"operand", X(1)>>, <<"operator_kind", C("cast")>>, <<"type", Nd("type.simple", << <<"type_kind", C("integer")>> >>)>> >>)))
 @@ ("[]" :> Op(9, <<H(1, 9), T("["), H(2, 0), T("]")>>, Nd("scalar.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C("element_reference")>>, <<"right", X(2)>> >>)))
 @@ ("->" :> Op(9, <<H(1, 9), T("->"), Id>>, Nd("scalar.field_reference", << <<"name", Nm(3)>>, <<"operator_kind", C("arrow")>>, <<"value", X(1)>> >>)))
 @@ ("->()" :> Op(9, <<H(1, 9), T("->"), Id, T("("), H(2, 0), T(")")>>, Nd("scalar.method_invocation", << <<"arguments", Xs(<<2>>)>>, <<"name", Nm(3)>>, <<"operator_kind", C("arrow")>>, <<"value", X(1)>> >>)))
 @@ ("f()" :> Call("scalar.function_invocation", <<Id, T("("), H(1, 0), T(","), H(2, 0), T(")")>>, << <<"arguments", Xs(<<1, 2>>)>>, <<"name", Nm(1)>> >>))
 @@ ("coalesce" :> Call("scalar.builtin_function_invocation", <<T("COALESCE"), T("("), H(1, 0), T(")")>>, << <<"arguments", Xs(<<1>>)>>, <<"function", C("coalesce")>> >>))
 @@ ("nullif" :> Call("scalar.builtin_function_invocation", <<T("NULLIF"), T("("), H(1, 0), T(","), H(2, 0), T(")")>>, << <<"arguments", Xs(<<1, 2>>)>>, <<"function", C("nullif")>> >>))
 @@ ("cast" :> Call("scalar.cast_expression", <<T("CAST"), T("("), H(1, 0), T("AS"), T("INTEGER"), T(")")>>, << <<"operand", X(1)>>, <<"operator_kind", C("cast")>>, <<"type", Nd("type.simple", << <<"type_kind", C("integer")>> >>)>> >>))
 @@ ("case" :> Call("scalar.case_expression", <<T("CASE"), H(1, 0), T("WHEN"), H(2, 0), T("THEN"), H(3, 0), T("ELSE"), H(4, 0), T("END")>>,
                   << <<"default_result", X(4)>>, <<"operand", X(1)>>, <<"when_clauses", <<"Ns", << Nd("scalar.case_when_clause", << <<"result", X(3)>>, <<"when", X(2)>> >>) >> >> >> >>))
 @@ ("position" :> Call("scalar.builtin_function_invocation", <<T("POSITION"), T("("), H(1, 6), T("IN"), H(2, 6), T(")")>>, << <<"arguments", Xs(<<1, 2>>)>>, <<"function", C("position")>> >>))
 @@ ("array" :> Call("scalar.value_constructor", <<T("ARRAY"), T("["), H(1, 0), T(","), H(2, 0), T("]")>>, << <<"elements", Xs(<<1, 2>>)>>, <<"operator_kind", C("array")>> >>))
 @@ ("pair" :> Call("scalar.value_constructor", <<T("("), H(1, 0), T(","), H(2, 0), T(")")>>, << <<"elements", Xs(<<1, 2>>)>>, <<"operator_kind", C("row")>> >>))
 @@ ("sum" :> Call("scalar.builtin_set_function_invocation", <<T("SUM"), T("("), H(1, 0), T(")")>>, << <<"arguments", Xs(<<1>>)>>, <<"function", C("sum")>> >>))

Set(l, ts, k, q) ==
    Op(l, <<H(1, l)>> \o [ i \in 1..Len(ts) |-> T(ts[i]) ] \o <<H(2, l + 1)>>,
       Nd("query.binary_expression", << <<"left", X(1)>>, <<"operator_kind", C(k)>> >> \o (IF q = "" THEN <<>> ELSE << <<"quantifier", C(q)>> >>) \o << <<"right", X(2)>> >>))
Query(x) ==
    ("x" :> Op(3, <<T("TABLE"), Id>>, Nd("query.table_reference", << <<"name", Nm(2)>> >>)))
 @@ ("union" :> Set(1, <<"UNION">>, "union", "")) @@ ("union all" :> Set(1, <<"UNION", "ALL">>, "union", "all")) @@ ("union distinct" :> Set(1, <<"UNION", "DISTINCT">>, "union", "distinct"))
 @@ ("except" :> Set(1, <<"EXCEPT">>, "except", "")) @@ ("except all" :> Set(1, <<"EXCEPT", "ALL">>, "except", "all"))
 @@ ("outer union" :> Set(1, <<"OUTER", "UNION">>, "outer_union", "")) @@ ("outer union distinct" :> Set(1, <<"OUTER", "UNION", "DISTINCT">>, "outer_union", "distinct"))
 @@ ("intersect" :> Set(2, <<"INTERSECT">>, "intersect", "")) @@ ("intersect all" :> Set(2, <<"INTERSECT", "ALL">>, "intersect", "all"))

Table == IF Family = "scalar" THEN Scalar(0) ELSE Query(0)
\* the statement around an expression
Around ==
    IF Family = "scalar" THEN
         << Op(0, <<T("VALUES"), T("("), H(1, 0), T(")")>>,
               Nd("statement.select_statement", << <<"expression", Nd("query.table_value_constructor", << <<"elements", <<"Ns", << Nd("scalar.value_constructor", << <<"elements", Xs(<<1>>)>>, <<"operator_kind", C("row")>> >>) >> >> >> >>)>>, <<"targets", Xs(<<>>)>> >>)),
            Op(0, <<T("DELETE"), T("FROM"), Id, T("WHERE"), H(1, 0)>>,
               Nd("statement.delete_statement", << <<"table_name", Nm(3)>>, <<"where", X(1)>> >>)),
            Op(0, <<T("UPDATE"), Id, T("SET"), Id, T("="), H(1, 0), T("WHERE"), Id>>,
               Nd("statement.update_statement", << <<"elements", <<"Ns", << Nd("statement.set_element", << <<"target", Nm(4)>>, <<"value", X(1)>> >>) >> >> >>, <<"table_name", Nm(2)>>, <<"where", Nd("scalar.variable_reference", << <<"name", Nm(8)>> >>)>> >>)) >>
    ELSE << Op(0, <<H(1, 0)>>, Nd("statement.select_statement", << <<"expression", X(1)>>, <<"targets", Xs(<<>>)>> >>)),
            Op(0, <<T("INSERT"), T("INTO"), Id, H(1, 0)>>,
               Nd("statement.insert_statement", << <<"columns", Xs(<<>>)>>, <<"expression", X(1)>>, <<"options", Xs(<<>>)>>, <<"table_name", Nm(3)>> >>)) >>

Arity(o) == Cardinality({ i \in 1..Len(o.f) : o.f[i][1] = "hole" })
Leaf     == [o |-> "x", a |-> <<>>]
Node(n)  == [o |-> n, a |-> [ i \in 1..Arity(Table[n]) |-> Leaf ]]

\* ---- texts and trees
\* how parentheses are written: "least", "most" (around every operator), "double" (around everything, twice)
RECURSIVE Write(_, _, _, _, _), WriteItems(_, _, _, _, _), Tree(_, _, _)
\* write operator term (o, args) with form items from index i on, off tokens being before; gives tokens and argument trees
Write(t, min, how, off, depth) ==
    LET o == Table[t.o]
        n == IF how = "double" THEN 2 ELSE IF how = "most" THEN (IF t = Leaf THEN 0 ELSE 1) ELSE IF o.l < min THEN 1 ELSE 0
        p == IF depth = 0 /\ how # "double" THEN IF o.l < min THEN 1 ELSE 0 ELSE n
        w == WriteItems(o, t.a, how, off + p, depth + 1)
    IN  [s |-> [ i \in 1..p |-> "(" ] \o w.s \o [ i \in 1..p |-> ")" ], v |-> w.v]
WriteItems(o, args, how, off, depth) ==
    LET n == Len(o.f)
        RECURSIVE Go(_, _, _, _)
        \* item, tokens so far, argument trees, name positions
        Go(i, s, vs, ns) ==
            IF i > n THEN [s |-> s, v |-> Tree(o.v, vs, ns)]
            ELSE LET it == o.f[i] IN
                 CASE it[1] = "token" -> Go(i + 1, Append(s, it[2]), vs, ns)
                   [] it[1] = "name"  -> Go(i + 1, Append(s, "<identifier>"), vs, (i :> off + Len(s) + 1) @@ ns)
                   [] it[1] = "hole"  -> LET w == Write(args[it[2]], it[3], how, off + Len(s), depth) IN Go(i + 1, s \o w.s, (it[2] :> w.v) @@ vs, ns)
    IN  Go(1, <<>>, <<>>, <<>>)
Name(i) == <<"N", "name.simple", << <<"identifier", <<"T", i>> >>, <<"identifier_kind", <<"S", "regular">> >> >>, 0, 0>>
Tree(v, vs, ns) ==
    CASE v[1] = "N"  -> <<"N", v[2], [ j \in 1..Len(v[3]) |-> <<v[3][j][1], Tree(v[3][j][2], vs, ns)>> ], 0, 0>>
      [] v[1] = "Ns" -> <<"L", [ j \in 1..Len(v[2]) |-> Tree(v[2][j], vs, ns) ]>>
      [] v[1] = "S"  -> v
      [] v[1] = "X"  -> vs[v[2]]
      [] v[1] = "Xs" -> <<"L", [ j \in 1..Len(v[2]) |-> vs[v[2][j]] ]>>
      [] v[1] = "Nm" -> Name(ns[v[2]])

Text(t, how, k) == WriteItems(Around[k], <<t>>, how, 0, 0)

\* ---- growth
RECURSIVE Grow(_, _)
Grow(t, ops) ==
    IF t = Leaf THEN { Node(n) : n \in ops }
    ELSE UNION { { [t EXCEPT !.a[i] = u] : u \in Grow(t.a[i], ops) } : i \in 1..Len(t.a) }

\* texts by parenthesising: <<tokens, tree>>
Hows == IF Family = "scalar" THEN <<"least", "most", "double">> ELSE <<"least", "most">>
Record(t) == ToJson([t |-> t, x |-> [ k \in 1..(IF size < 2 \/ Family = "query" THEN Len(Around) ELSE 1) |-> [ h \in 1..Len(Hows) |-> Text(t, Hows[h], k) ]]])
Init == term = Leaf /\ size = 0
Extend == size < Size /\ size' = size + 1 /\ term' \in Grow(term, IF size = 0 THEN First ELSE Ops)
\* a long expression is reported when it is complete
Finish == Walk /\ size = Size /\ size' = size + 1 /\ term' = term /\ CSVWrite("%1$s", <<Record(term)>>, OutFile)
Next == Extend \/ Finish
Spec == Init /\ [][Next]_vars

Emit == CSVWrite("%1$s", <<Record(term)>>, OutFile)

\* the least text needs no more parentheses than the others, and distinct expressions have distinct texts
Least == \A h \in 1..Len(Hows) : Len(Text(term, "least", 1).s) <= Len(Text(term, Hows[h], 1).s)
RECURSIVE Terms(_)
Terms(n) == IF n = 0 THEN {Leaf} ELSE LET T0 == Terms(n - 1) IN T0 \cup UNION { Grow(t, Ops) : t \in T0 }
Distinct == size # 0 \/ Size > 2 \/ LET TS == Terms(Size) IN Cardinality({ Text(t, "least", 1).s : t \in TS }) = Cardinality(TS)
=============================================================================
