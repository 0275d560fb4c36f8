------------------------------ MODULE MzAction ------------------------------
(***************************************************************************)
(* The meaning of productions: how the denotation of a left hand side is   *)
(* computed from the denotations of the right hand side symbols.           *)
(*                                                                         *)
(* A denotation is a record                                                *)
(*   t   tag: "non" nothing, "tok" token, "sc" scalar, "nd" node,          *)
(*       "ls" list, "rec" option record, and refinements of "nd" that      *)
(*       later productions look at: "numlit", "num", "var", "nvf", "with"  *)
(*   v   syntax tree value (see below)                                     *)
(*   c,d number of tree nodes in v, height of v                            *)
(*   b,e source span of the symbol; nb,ne source range of the node itself  *)
(*   k   extra data for the refined tags                                   *)
(*   err first violated context condition in this production, or <<>>      *)
(*   gr  list growth events: <<limit kind, new length, blame b, blame e>>  *)
(*                                                                         *)
(* Syntax tree values: <<"N", kind, components, b, e>>, <<"S", scalar>>,   *)
(*   <<"L", values>>, <<"T", i>> (image of token i), <<"Q", i>> (unquoted  *)
(*   image), <<"H", i>> (hex digits), <<"Z", i>> (number), <<"D", i>>      *)
(*   (description in front of token i), <<"M", i>> (placeholder token i).  *)
(*                                                                         *)
(* Source positions: 2*i is the begin of token i, 2*i+1 its end (tokens    *)
(* count from 1); 0 is the begin of the text when nothing was read.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, MzGrammar

Max2(a, b) == IF a > b THEN a ELSE b

Val(t, v, c, d, b, e) ==
    [t |-> t, v |-> v, c |-> c, d |-> d, b |-> b, e |-> e, nb |-> b, ne |-> e,
     k |-> <<>>, err |-> <<>>, gr |-> <<>>]

Nothing(b, e) == Val("non", <<>>, 0, 0, b, e)

TokenVal(i) == Val("tok", <<"T", i>>, 0, 0, 2 * i, 2 * i + 1)

\* a number that is too large for a size
Huge == <<"huge">>
HugeVal(i) == [TokenVal(i) EXCEPT !.k = Huge]

On(x) == x.t # "non" /\ x.v # <<"S", "false">>

SimpleName(id, kind, b, e) ==
    [Val("nd", <<"N", "name.simple", <<<<"identifier", id>>, <<"identifier_kind", <<"S", kind>>>>>>, b, e>>, 1, 1, b, e)
        EXCEPT !.k = <<>>]

\* option record: k is a sequence of <<name, value, c, d>>
Lookup(k, n) ==
    LET hit == { j \in 1..Len(k) : k[j][1] = n }
    IN  IF hit = {} THEN <<n, <<>>, 0, 0>> ELSE k[CHOOSE j \in hit : TRUE]

RECURSIVE Comp(_, _), Node(_, _, _, _), SumSeq(_), MaxSeq(_), CompSeq(_, _)

SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxSeq(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxSeq(Tail(s)))

NodeElement == {   \* structures that are components, not nodes of their own
    "common.sort_element", "common.target_element", "query.corresponding_clause",
    "query.group_by_clause", "query.with_element", "scalar.case_when_clause",
    "statement.column_constraint_definition", "statement.privilege_action",
    "statement.privilege_object", "statement.privilege_user", "statement.set_element",
    "statement.storage_parameter", "table.correlation_clause", "type.field_definition" }

\* component value: <<value, nodes, height>>, value <<>> if absent
Comp(t, r) ==
    CASE t.o = "a"    -> IF r[t.i].t = "non" THEN <<<<>>, 0, 0>> ELSE <<r[t.i].v, r[t.i].c, r[t.i].d>>
      [] t.o = "a0"   -> <<<<>>, 0, 0>>
      [] t.o = "l"    -> IF r[t.i].t = "non" THEN <<<<"L", <<>>>>, 0, 0>> ELSE <<r[t.i].v, r[t.i].c, r[t.i].d>>
      [] t.o = "ll"   -> LET cs == SelectSeq(CompSeq(t.es, r), LAMBDA x : x[1] # <<>>)
                         IN <<<<"L", [j \in 1..Len(cs) |-> cs[j][1]]>>,
                              SumSeq([j \in 1..Len(cs) |-> cs[j][2]]),
                              MaxSeq([j \in 1..Len(cs) |-> cs[j][3]])>>
      [] t.o = "k"    -> <<<<"S", t.s>>, 0, 0>>
      [] t.o = "if"   -> IF On(r[t.i]) THEN <<<<"S", t.s>>, 0, 0>> ELSE <<<<>>, 0, 0>>
      [] t.o = "cond" -> <<<<"S", IF On(r[t.i]) THEN t.s ELSE t.u>>, 0, 0>>
      [] t.o = "s"    -> LET f == Lookup(r[t.i].k, t.n) IN <<f[2], f[3], f[4]>>
      [] t.o = "sif"  -> LET f == Lookup(r[t.i].k, t.n)
                         IN <<IF f[2] = <<>> THEN <<>>
                              ELSE <<"S", IF f[2] = <<"S", "true">> THEN t.s ELSE t.u>>, 0, 0>>
      [] t.o = "desc" -> <<<<"D", r[t.i].b \div 2>>, 0, 0>>
      [] t.o = "hex"  -> <<<<"H", r[t.i].v[2]>>, 0, 0>>
      [] t.o \in {"node", "at"} ->
            LET x == Node(t, r, 0, 0) IN <<x.v, x.c, x.d>>

CompSeq(ts, r) == [j \in 1..Len(ts) |-> Comp(ts[j], r)]

\* a node built by the production spanning b..e
Node(t, r, b, e) ==
    IF t.o = "at" THEN Node(t.n, r, r[t.i].b, r[t.j].e)
    ELSE
    LET all == [j \in 1..Len(t.fs) |-> <<t.fs[j].n, Comp(t.fs[j].v, r)>>]
        fs  == SelectSeq(all, LAMBDA x : x[2][1] # <<>>)
        c   == SumSeq([j \in 1..Len(fs) |-> fs[j][2][2]])
        d   == MaxSeq([j \in 1..Len(fs) |-> fs[j][2][3]])
        one == IF t.k \in NodeElement THEN 0 ELSE 1
        v   == <<"N", t.k, [j \in 1..Len(fs) |-> <<fs[j][1], fs[j][2][1]>>], b, e>>
    IN  Val("nd", v, c + one, d + one, b, e)

\* refine the tag of a fresh node, keeping what later productions need
Refine(t, r, x) ==
    LET nodeKind == IF t.o = "node" THEN t.k ELSE "" IN
    CASE nodeKind = "literal.numeric"           -> [x EXCEPT !.t = "numlit"]
      [] nodeKind = "scalar.literal_expression" /\ r[1].t = "numlit" -> [x EXCEPT !.t = "num", !.k = <<r[1].v>>]
      [] nodeKind = "scalar.variable_reference" -> [x EXCEPT !.t = "var", !.k = <<r[1].v, r[1].c, r[1].d>>]
      [] nodeKind = "query.with_expression"     -> [x EXCEPT !.t = "with"]
      [] nodeKind = "scalar.builtin_function_invocation" /\ r[1].t = "tok" /\ Len(r) = 4 /\ t.fs[2].v.o = "k" /\ t.fs[2].v.s = "next_value_for" ->
            \* NEXT VALUE FOR name: the name may still grow
            [x EXCEPT !.t = "nvf", !.k = <<r[4].v, r[4].c, r[4].d, r[4].nb, r[4].ne>>]
      [] OTHER -> x

VarNode(nameVal, b, e) == <<"N", "scalar.variable_reference", <<<<"name", nameVal>>>>, b, e>>

Qualified(q, nm) == \* q = <<name value, c, d, b, e>>, nm a simple name
    [v |-> <<"N", "name.qualified", <<<<"last", nm.v>>, <<"qualifier", q[1]>>>>, q[4], nm.ne>>,
     c |-> q[2] + nm.c + 1, d |-> 1 + Max2(q[3], nm.d)]

NvfNode(arg, b, e) ==
    <<"N", "scalar.builtin_function_invocation",
      <<<<"arguments", <<"L", <<arg>>>>>>, <<"function", <<"S", "next_value_for">>>>>>, b, e>>

Plain(kind, comps, c, d, b, e) == Val("nd", <<"N", kind, comps, b, e>>, c, d, b, e)

\* the denotation of a production with act t over r, spanning b..e
Eval(t, r, b, e) ==
    LET Span(x) == [x EXCEPT !.b = b, !.e = e, !.err = <<>>, !.gr = <<>>] IN
    CASE t.o = "up"    -> Span(r[t.i])
      [] t.o = "non"   -> Nothing(b, e)
      [] t.o = "sc"    -> Val("sc", <<"S", t.s>>, 0, 0, b, e)
      [] t.o = "one"   -> Val("ls", <<"L", <<r[t.i].v>>>>, r[t.i].c, r[t.i].d, b, e)
      [] t.o = "onen"  -> LET x == Node(t.n, r, b, e) IN Val("ls", <<"L", <<x.v>>>>, x.c, x.d, b, e)
      [] t.o = "snoc"  ->
            LET old == IF r[t.i].t = "non" THEN <<>> ELSE r[t.i].v[2]
                new == Append(old, r[t.j].v)
            IN [Val("ls", <<"L", new>>, r[t.i].c + r[t.j].c, Max2(r[t.i].d, r[t.j].d), b, e)
                  EXCEPT !.gr = <<t.k, Len(new), r[t.l].b, r[t.l].e>>]
      [] t.o = "regid" -> SimpleName(r[t.i].v, "regular", b, e)
      [] t.o = "delid" -> SimpleName(<<"Q", r[t.i].v[2]>>, "delimited", b, e)
      [] t.o \in {"node", "at"} -> Refine(t, r, Node(t, r, b, e))
      [] t.o = "fold"  ->
            LET x == Node(t.n, r, b, e) IN
            IF r[2].t # "num" THEN x
            ELSE \* the sign becomes part of the unsigned number
                LET num == r[2].k[1]
                    lit == <<"N", num[2], <<<<"sign", <<"S", t.n.fs[2].v.s>>>>>> \o num[3], num[4], num[5]>>
                IN  Plain("scalar.literal_expression", <<<<"value", lit>>>>, 2, 2, b, e)
      [] t.o = "nowith" ->
            IF r[t.i].t = "with" THEN [Nothing(b, e) EXCEPT !.err = <<"syntax_error", r[t.i].b, r[t.i].e>>]
            ELSE Span(r[t.i])
      [] t.o = "chain" ->
            LET q == r[t.i]  nm == r[t.j] IN
            IF q.t = "var" THEN
                LET n == Qualified(<<q.k[1], q.k[2], q.k[3], q.nb, q.ne>>, nm)
                IN [Val("var", VarNode(n.v, q.nb, nm.ne), n.c + 1, n.d + 1, b, e)
                      EXCEPT !.nb = q.nb, !.ne = nm.ne, !.k = <<n.v, n.c, n.d>>]
            ELSE IF q.t = "nvf" THEN
                LET n == Qualified(q.k, nm)
                IN [Val("nvf", NvfNode(VarNode(n.v, q.k[4], nm.ne), q.nb, nm.ne), n.c + 2, n.d + 2, b, e)
                      EXCEPT !.nb = q.nb, !.ne = nm.ne, !.k = <<n.v, n.c, n.d, q.k[4], nm.ne>>]
            ELSE Plain("scalar.field_reference",
                    <<<<"name", nm.v>>, <<"operator_kind", <<"S", "period">>>>, <<"value", q.v>>>>,
                    q.c + nm.c + 1, 1 + Max2(q.d, nm.d), b, e)
      [] t.o = "chaincall" ->
            LET q == r[t.i]  nm == r[t.j]  l == r[t.l]
                args == IF l.t = "non" THEN <<"L", <<>>>> ELSE l.v
            IN
            IF q.t = "var" THEN
                LET n == Qualified(<<q.k[1], q.k[2], q.k[3], q.nb, q.ne>>, nm)
                IN Plain("scalar.function_invocation", <<<<"arguments", args>>, <<"name", n.v>>>>,
                         n.c + l.c + 1, 1 + Max2(n.d, l.d), b, e)
            ELSE Plain("scalar.method_invocation",
                    <<<<"arguments", args>>, <<"name", nm.v>>, <<"operator_kind", <<"S", "period">>>>, <<"value", q.v>>>>,
                    q.c + nm.c + l.c + 1, 1 + Max2(q.d, Max2(nm.d, l.d)), b, e)
      [] t.o = "staticcall" ->
            LET q == r[t.i]  nm == r[t.j]  l == r[t.l]
                args == IF l.t = "non" THEN <<"L", <<>>>> ELSE l.v
            IN
            IF q.t = "var" THEN
                Plain("scalar.static_method_invocation",
                    <<<<"arguments", args>>, <<"name", nm.v>>,
                      <<"type", <<"N", "type.user_defined", <<<<"name", q.k[1]>>>>, q.nb, q.ne>>>>>>,
                    q.k[2] + 1 + nm.c + l.c + 1, 1 + Max2(q.k[3] + 1, Max2(nm.d, l.d)), b, e)
            ELSE [Nothing(b, e) EXCEPT !.err = <<"syntax_error", q.b, q.e>>]
      [] t.o = "paren" ->
            LET es == r[t.i] IN
            IF Len(es.v[2]) = 1 THEN
                [es.k[1] EXCEPT !.b = b, !.e = e, !.err = <<>>, !.gr = <<>>]
            ELSE Plain("scalar.value_constructor",
                    <<<<"elements", es.v>>, <<"operator_kind", <<"S", "row">>>>>>, es.c + 1, es.d + 1, b, e)
      [] t.o = "rec"   ->
            [Val("rec", <<>>, 0, 0, b, e) EXCEPT
               !.k = [j \in 1..Len(t.fs) |->
                        LET x == Comp(t.fs[j].v, r) IN <<t.fs[j].n, x[1], x[2], x[3]>>]]
      [] t.o = "rec1"  ->
            LET x == Comp(t.v, r) IN
            [Val("rec", <<>>, 0, 0, b, e) EXCEPT
               !.k = <<<<t.n, x[1], x[2], x[3]>>>>, !.nb = r[t.i].b, !.ne = r[t.i].e]
      [] t.o = "recadd" ->
            LET old == r[t.i].k  f == r[t.j].k[1] IN
            IF \E j \in 1..Len(old) : old[j][1] = f[1]
            THEN [Nothing(b, e) EXCEPT !.err = <<"syntax_error", r[t.j].nb, r[t.j].ne>>]
            ELSE [Val("rec", <<>>, 0, 0, b, e) EXCEPT !.k = Append(old, f)]
      [] t.o = "size"  -> IF r[t.i].k = Huge THEN [Nothing(b, e) EXCEPT !.err = <<"syntax_error", b, e>>]
                          ELSE Val("sc", <<"Z", r[t.i].v[2]>>, 0, 0, b, e)
      [] t.o = "mark"  -> Val("sc", <<"M", r[t.i].v[2]>>, 0, 0, b, e)

\* lists remember the full denotation of a sole element (needed by "paren")
EvalL(t, r, b, e) ==
    IF t.o = "one" THEN [Eval(t, r, b, e) EXCEPT !.k = <<r[t.i]>>] ELSE Eval(t, r, b, e)

\* locations of a production over rhs denotations r, prev = end of the preceding symbol
SpanOf(r, prev) == IF r = <<>> THEN <<prev, prev>> ELSE <<r[1].b, r[Len(r)].e>>
\* ---- measurements of a tree: number of nodes, height
RECURSIVE CountN(_), HeightN(_)
CountN(v) ==
    CASE v = <<>>   -> 0
      [] v[1] = "N" -> (IF v[2] \in NodeElement THEN 0 ELSE 1) + SumSeq([j \in 1..Len(v[3]) |-> CountN(v[3][j][2])])
      [] v[1] = "L" -> SumSeq([j \in 1..Len(v[2]) |-> CountN(v[2][j])])
      [] OTHER      -> 0
HeightN(v) ==
    CASE v = <<>>   -> 0
      [] v[1] = "N" -> (IF v[2] \in NodeElement THEN 0 ELSE 1) + MaxSeq([j \in 1..Len(v[3]) |-> HeightN(v[3][j][2])])
      [] v[1] = "L" -> MaxSeq([j \in 1..Len(v[2]) |-> HeightN(v[2][j])])
      [] OTHER      -> 0
=============================================================================
