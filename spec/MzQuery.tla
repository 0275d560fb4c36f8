------------------------------ MODULE MzQuery ------------------------------
(***************************************************************************)
(* Queries and scalar expressions over a catalog: what the text is, and    *)
(* the dataflow it stands for, or the diagnostic it deserves.              *)
(*                                                                         *)
(* A plan is text, in the notation of the conformance harness: operators   *)
(* from source to sink, every column by where its value comes from.        *)
(*                                                                         *)
(* Text(q) is a sequence of tokens with marks around the parts diagnostics *)
(* may point at ("<p" ... ">p"); Query(w, q) is its meaning in world w.    *)
(***************************************************************************)
EXTENDS MzNaming

Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Text1(ss, by) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o by \o y, ss[1], Tail(ss))
Csv(ss) == Text1(ss, ",")
Cat(ss) == Text1(ss, "")
N2S(n) == ToString(n)
Mark(p, ts) == <<"<" \o p>> \o ts \o <<">" \o p>>
Listed(tss) == IF tss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA x, y : x \o <<",">> \o y, tss[1], Tail(tss))
Opt(x, ts) == IF x = <<>> THEN <<>> ELSE ts
IdsOf(xs) == {x.i : x \in xs}

\* ================================================================ text
Id(i) == IF i.q THEN "\"" \o i.t \o "\"" ELSE i.t
Part(p, j) == p \o "." \o N2S(j)
NameText(nm, p) == Mark(p, Flat([j \in DOMAIN nm |-> (IF j = 1 THEN <<>> ELSE <<".">>) \o Mark(Part(p, j), <<Id(nm[j])>>)]))
Sub(p, j) == p \o "_" \o N2S(j)

\* literals: kind -> text, rendering, type
Literal == [
    n1 |-> [t |-> "1", r |-> "1:int8", y |-> "int8"], n2 |-> [t |-> "23", r |-> "23:int8", y |-> "int8"], n0 |-> [t |-> "0", r |-> "0:int8", y |-> "int8"],
    m |-> [t |-> "-5", r |-> "-5:int8", y |-> "int8"],
    s1 |-> [t |-> "'x'", r |-> "'x':character(varying, *)", y |-> "varchar"], s0 |-> [t |-> "''", r |-> "'':character(varying, *)", y |-> "varchar"],
    t |-> [t |-> "TRUE", r |-> "true:boolean", y |-> "boolean"], f |-> [t |-> "FALSE", r |-> "false:boolean", y |-> "boolean"],
    u |-> [t |-> "NULL", r |-> "null:unknown", y |-> "unknown"]]
\* what the harness calls a type
Shown(y) == CASE y = "varchar" -> "character(varying, *)" [] y = "time" -> "time_of_day(local)" [] y = "timetz" -> "time_of_day(zone)"
              [] y = "timestamp" -> "time_point(local)" [] y = "timestamptz" -> "time_point(zone)" [] OTHER -> y
TypeText(y) == CASE y = "int4" -> <<"INT">> [] y = "int8" -> <<"BIGINT">> [] y = "varchar" -> <<"VARCHAR">> [] y = "boolean" -> <<"BOOLEAN">> [] y = "date" -> <<"DATE">>
                 [] y = "time" -> <<"TIME">> [] y = "timetz" -> <<"TIME", "WITH", "TIME", "ZONE">> [] y = "timestamp" -> <<"TIMESTAMP">> [] y = "timestamptz" -> <<"TIMESTAMP", "WITH", "TIME", "ZONE">>
\* fields of EXTRACT: as written, the function, the types which have it
Clock == {"time", "timetz", "timestamp", "timestamptz"}
Moment == {"timestamp", "timestamptz"}
Calendar == {"date"} \cup Moment
Field == [
    year |-> [t |-> <<"YEAR">>, f |-> "extract_year", ys |-> Calendar], month |-> [t |-> <<"MONTH">>, f |-> "extract_month", ys |-> Calendar], day |-> [t |-> <<"DAY">>, f |-> "extract_day", ys |-> Calendar],
    hour |-> [t |-> <<"HOUR">>, f |-> "extract_hour", ys |-> Clock], minute |-> [t |-> <<"MINUTE">>, f |-> "extract_minute", ys |-> Clock], second |-> [t |-> <<"SECOND">>, f |-> "extract_second", ys |-> Clock],
    zoneh |-> [t |-> <<"TIMEZONE_HOUR">>, f |-> "extract_timezone_hour", ys |-> {"timetz", "timestamptz"}], zonem |-> [t |-> <<"TIMEZONE_MINUTE">>, f |-> "extract_timezone_minute", ys |-> {"timetz", "timestamptz"}],
    date |-> [t |-> <<"DATE">>, f |-> "date", ys |-> Calendar],
    tomonth |-> [t |-> <<"YEAR", "TO", "MONTH">>, f |-> "extract_year_to_month", ys |-> Calendar], today |-> [t |-> <<"YEAR", "TO", "DAY">>, f |-> "extract_year_to_day", ys |-> Calendar],
    tohour |-> [t |-> <<"YEAR", "TO", "HOUR">>, f |-> "extract_year_to_hour", ys |-> Moment], tominute |-> [t |-> <<"YEAR", "TO", "MINUTE">>, f |-> "extract_year_to_minute", ys |-> Moment],
    tosecond |-> [t |-> <<"YEAR", "TO", "SECOND">>, f |-> "extract_year_to_second", ys |-> Moment]]
Precise == {"second", "tosecond"}
Digits == ("" :> "9") @@ ("*" :> "9") @@ ("0" :> "0") @@ ("3" :> "3") @@ ("9" :> "9") @@ ("12" :> "9")
\* built-in functions: as written, the function declared for it, the words between the operands
Form(f, ws) == [f |-> f, ws |-> ws]
Plain1(f) == Form(f, <<",", ",", ",">>)
Built == ("CHAR_LENGTH" :> Plain1("character_length")) @@ ("CHARACTER_LENGTH" :> Plain1("character_length")) @@ ("OCTET_LENGTH" :> Plain1("octet_length")) @@ ("CARDINALITY" :> Plain1("cardinality"))
    @@ ("ABS" :> Plain1("abs")) @@ ("CEIL" :> Plain1("ceil")) @@ ("FLOOR" :> Plain1("floor")) @@ ("MOD" :> Plain1("mod")) @@ ("UPPER" :> Plain1("upper")) @@ ("LOWER" :> Plain1("lower")) @@ ("LENGTH" :> Plain1("length"))
    @@ ("POSITION" :> Form("position", <<"IN">>)) @@ ("SUBSTRING" :> Form("substring", <<"FROM", "FOR">>)) @@ ("OVERLAY" :> Form("overlay", <<"PLACING", "FROM", "FOR">>))
    @@ ("CURRENT_DATE" :> Form("current_date", <<>>)) @@ ("CURRENT_TIME" :> Form("current_time", <<>>)) @@ ("LOCALTIME" :> Form("localtime", <<>>))
    @@ ("CURRENT_TIMESTAMP" :> Form("current_timestamp", <<>>)) @@ ("LOCALTIMESTAMP" :> Form("localtimestamp", <<>>))
\* what is not supported: before, after the operand
Odd == [next |-> [b |-> <<"NEXT", "VALUE", "FOR">>, a |-> <<>>], convert |-> [b |-> <<"CONVERT">>, a |-> <<"USING", "x", ")">>], translate |-> [b |-> <<"TRANSLATE">>, a |-> <<"USING", "x", ")">>],
        trim |-> [b |-> <<"TRIM", "(">>, a |-> <<")">>], trim2 |-> [b |-> <<"TRIM", "(", "LEADING", "'x'", "FROM">>, a |-> <<")">>], array |-> [b |-> <<"ARRAY", "[">>, a |-> <<"]">>]]

RECURSIVE ExprText(_, _), QueryText(_, _), TableText(_, _)
Atom(e) == e.k \in {"lit", "var", "call", "set", "case", "coalesce", "nullif", "cast", "query", "exists", "host", "ask", "extract", "built", "odd"}
Side(e, p) == IF Atom(e) THEN ExprText(e, p) ELSE <<"(">> \o ExprText(e, p) \o <<")">>
\* e: [k kind, x operator or name, es operands, q query]
ExprText(e, p) ==
    LET o(j) == Side(e.es[j], Sub(p, j))
        bare(j) == ExprText(e.es[j], Sub(p, j))
        list(from) == Listed([j \in 1..(Len(e.es) - from + 1) |-> bare(j + from - 1)])
        q == <<"(">> \o QueryText(e.q, p \o "q") \o <<")">>
        no == IF e.n THEN <<"NOT">> ELSE <<>>
    IN IF e.k = "var" THEN NameText(e.x, p)
       ELSE Mark(p,
        CASE e.k = "lit" -> IF e.x = "m" THEN <<"-">> \o Mark(p \o "i", <<"5">>) ELSE <<Literal[e.x].t>>
          [] e.k = "pre" -> <<e.x>> \o o(1)
          [] e.k \in {"bin", "cmp"} -> o(1) \o <<e.x>> \o o(2)
          [] e.k = "is" -> o(1) \o <<"IS">> \o no \o <<e.x>>
          [] e.k = "between" -> o(1) \o no \o <<"BETWEEN">> \o (IF e.x = "" THEN <<>> ELSE <<e.x>>) \o o(2) \o <<"AND">> \o o(3)
          [] e.k = "in" -> o(1) \o no \o <<"IN", "(">> \o list(2) \o <<")">>
          [] e.k = "inq" -> o(1) \o no \o <<"IN">> \o q
          [] e.k = "like" -> o(1) \o no \o <<"LIKE">> \o o(2) \o (IF Len(e.es) = 3 THEN <<"ESCAPE">> \o o(3) ELSE <<>>)
          [] e.k = "case" -> \* searched: when, then, ..., [else]; simple: the operand comes first
                LET m == IF e.x = "simple" THEN 1 ELSE 0
                    k == (Len(e.es) - m) \div 2
                IN <<"CASE">> \o (IF m = 1 THEN bare(1) ELSE <<>>)
                   \o Flat([j \in 1..k |-> <<"WHEN">> \o bare(m + 2 * j - 1) \o <<"THEN">> \o bare(m + 2 * j)])
                   \o (IF (Len(e.es) - m) % 2 = 1 THEN <<"ELSE">> \o bare(Len(e.es)) ELSE <<>>) \o <<"END">>
          [] e.k = "coalesce" -> <<"COALESCE", "(">> \o list(1) \o <<")">>
          [] e.k = "nullif" -> <<"NULLIF", "(">> \o list(1) \o <<")">>
          [] e.k = "cast" -> <<"CAST", "(">> \o bare(1) \o <<"AS">> \o TypeText(e.x) \o <<")">>
          [] e.k = "call" -> NameText(e.x, p \o "f") \o <<"(">> \o list(1) \o <<")">>
          [] e.k = "set" -> Mark(p \o "f", <<e.x>>) \o <<"(">> \o (IF e.n THEN <<"DISTINCT">> ELSE <<>>) \o (IF e.es = <<>> THEN <<"*">> ELSE list(1)) \o <<")">>
          [] e.k = "host" -> <<":" \o e.x>>
          [] e.k = "ask" -> <<"?">>
          [] e.k = "extract" -> <<"EXTRACT", "(">> \o Field[e.x].t \o (IF e.l = "" THEN <<>> ELSE <<"(", e.l, ")">>) \o <<"FROM">> \o bare(1) \o <<")">>
          [] e.k = "built" -> Mark(p \o "f", <<e.x>>) \o (IF e.es = <<>> THEN <<>>
                ELSE <<"(">> \o Flat([j \in DOMAIN e.es |-> (IF j = 1 THEN <<>> ELSE <<Built[e.x].ws[j - 1]>>) \o (IF e.x = "POSITION" THEN o(j) ELSE bare(j))]) \o <<")">>)
          [] e.k = "odd" -> (IF e.x = "next" THEN Mark(p \o "f", Odd[e.x].b) \o <<"x">>
                             ELSE IF e.x \in {"convert", "translate"} THEN Mark(p \o "f", Odd[e.x].b) \o <<"(">> \o bare(1) ELSE Odd[e.x].b \o bare(1)) \o Odd[e.x].a
          [] e.k = "query" -> q
          [] e.k = "exists" -> <<"EXISTS">> \o q
          [] e.k = "quantified" -> o(1) \o e.x \o q)

AsText(c, p) == Mark(p, (IF c.as THEN <<"AS">> ELSE <<>>) \o Mark(p \o "n", <<Id(c.n)>>)
                        \o (IF c.cols = <<>> THEN <<>> ELSE <<"(">> \o Listed([j \in DOMAIN c.cols |-> Mark(Sub(p, j), <<Id(c.cols[j])>>)]) \o <<")">>))
JoinText == [cross |-> <<"CROSS", "JOIN">>, inner |-> <<"JOIN">>, inner2 |-> <<"INNER", "JOIN">>, left |-> <<"LEFT", "JOIN">>, left2 |-> <<"LEFT", "OUTER", "JOIN">>,
             right |-> <<"RIGHT", "JOIN">>, full |-> <<"FULL", "OUTER", "JOIN">>, natural |-> <<"NATURAL", "JOIN">>, union |-> <<"UNION JOIN">>]
ApplyText == ("" :> <<"APPLY">>) @@ ("cross" :> <<"CROSS", "APPLY">>) @@ ("outer" :> <<"OUTER APPLY">>)
TableText(t, p) ==
    CASE t.k = "ref" -> NameText(t.nm, p) \o Opt(t.as, AsText(t.as[1], p \o "a"))
      [] t.k = "sub" -> <<"(">> \o QueryText(t.q, p \o "q") \o <<")">> \o AsText(t.as[1], p \o "a")
      [] t.k = "join" -> Mark(p, TableText(t.l, p \o "l")
            \o (IF t.y = "union" THEN Mark(p \o "o", JoinText[t.y]) ELSE JoinText[t.y])
            \o (IF t.r.k \in {"join", "apply"} THEN <<"(">> \o TableText(t.r, p \o "r") \o <<")">> ELSE TableText(t.r, p \o "r"))
            \o (CASE t.by = "on" -> Mark(p \o "s", <<"ON">> \o ExprText(t.on[1], p \o "e"))
                  [] t.by = "using" -> Mark(p \o "s", <<"USING", "(">> \o Listed([j \in DOMAIN t.cols |-> Mark(p \o "s" \o N2S(j), <<Id(t.cols[j])>>)]) \o <<")">>)
                  [] OTHER -> <<>>))
      [] t.k = "apply" -> Mark(p, TableText(t.l, p \o "l") \o ApplyText[t.y] \o NameText(t.f, p \o "f")
            \o <<"(">> \o Listed([j \in DOMAIN t.es |-> ExprText(t.es[j], p \o "e" \o N2S(j))]) \o <<")">> \o AsText(t.as, p \o "a"))
ElementText(e, p) ==
    Mark(p \o "m", CASE e.k = "all" -> <<"*">>
                     [] e.k = "each" -> NameText(e.nm, p) \o <<".*">>
                     [] OTHER -> ExprText(e.e, p) \o Opt(e.n, (IF e.as THEN <<"AS">> ELSE <<>>) \o <<Id(e.n[1])>>))
Quantifier == [none |-> <<>>, distinct |-> <<"DISTINCT">>, all |-> <<"ALL">>]
Operator == [union |-> "UNION", difference |-> "EXCEPT", intersection |-> "INTERSECT"]
Operand(q, p) == IF q.k = "set" THEN <<"(">> \o QueryText(q, p) \o <<")">> ELSE QueryText(q, p)
QueryText(q, p) ==
    Mark(p,
    CASE q.k = "table" -> <<"TABLE">> \o NameText(q.nm, p \o "t")
      [] q.k = "values" -> <<"VALUES">> \o Listed([j \in DOMAIN q.rows |-> Mark(p \o "r" \o N2S(j), <<"(">> \o Listed([i \in DOMAIN q.rows[j] |-> ExprText(q.rows[j][i], p \o "v" \o N2S(j) \o "_" \o N2S(i))]) \o <<")">>)])
      [] q.k = "set" -> Operand(q.l, p \o "l") \o Mark(p \o "o", <<Operator[q.x]>>) \o Quantifier[q.y] \o Operand(q.r, p \o "r")
      [] q.k = "with" -> <<"WITH">> \o (IF q.rec THEN <<"RECURSIVE">> ELSE <<>>)
            \o Listed([j \in DOMAIN q.els |-> Mark(p \o "w" \o N2S(j),
                    Mark(p \o "n" \o N2S(j), <<Id(q.els[j].n)>>)
                    \o (IF q.els[j].cols = <<>> THEN <<>> ELSE <<"(">> \o Listed([i \in DOMAIN q.els[j].cols |-> Mark(p \o "c" \o N2S(j) \o "_" \o N2S(i), <<Id(q.els[j].cols[i])>>)]) \o <<")">>)
                    \o <<"AS", "(">> \o QueryText(q.els[j].q, p \o "d" \o N2S(j)) \o <<")">>)])
            \o QueryText(q.q, p \o "b")
      [] q.k = "select" -> <<"SELECT">> \o Quantifier[q.y] \o Listed([j \in DOMAIN q.els |-> ElementText(q.els[j], p \o "e" \o N2S(j))])
            \o (IF q.from = <<>> THEN <<>> ELSE <<"FROM">> \o Listed([j \in DOMAIN q.from |-> TableText(q.from[j], p \o "f" \o N2S(j))]))
            \o Opt(q.where, <<"WHERE">> \o ExprText(q.where[1], p \o "w"))
            \o (IF q.group = <<>> THEN <<>> ELSE <<"GROUP", "BY">> \o Listed([j \in DOMAIN q.group |-> ExprText(q.group[j], p \o "g" \o N2S(j))]))
            \o Opt(q.having, <<"HAVING">> \o ExprText(q.having[1], p \o "h"))
            \o (IF q.order = <<>> THEN <<>> ELSE <<"ORDER", "BY">> \o Listed([j \in DOMAIN q.order |->
                    Mark(p \o "k" \o N2S(j), ExprText(q.order[j].e, p \o "o" \o N2S(j)) \o q.order[j].d \o q.order[j].nulls)]))
            \o Opt(q.limit, <<"LIMIT">> \o ExprText(q.limit[1], p \o "m")))

\* ================================================================ meaning of expressions
\* r: [e error or "", a and b the marks where it begins and ends, t tree, g an aggregate is used, y type, f variables used]
Err(code, a, b) == [e |-> code, a |-> a, b |-> b, t |-> <<>>, g |-> FALSE, y |-> "", f |-> {}]
At(code, p) == Err(code, p, p)
IsErr(r) == r.e # ""
\* a bad name: "code whole" is about the name up to its part, "code last" about the part
Unknown(a, p) == Err(a.x, p, Part(p, a.s))
Fine(t, y, f) == [e |-> "", a |-> "", b |-> "", t |-> t, g |-> FALSE, y |-> y, f |-> f]
FirstErr(rs) == LET bad == {i \in DOMAIN rs : IsErr(rs[i])} IN IF bad = {} THEN Fine(<<>>, "", {}) ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j]
\* trees: op x(cs), var x (identity i) at p, out x: one of a query around this one, agg x(cs) at p, sub x (uses is) around cs at p, let <<v1, .., vn, body>>, loc n
Op(x, cs) == [k |-> "op", x |-> x, cs |-> cs, i |-> "", p |-> "", is |-> {}]
Leaf(x) == Op(x, <<>>)
Loc(n) == [k |-> "loc", x |-> "", cs |-> <<>>, i |-> n, p |-> "", is |-> {}]
Let(vs, body) == [k |-> "let", x |-> "", cs |-> Append(vs, body), i |-> "", p |-> "", is |-> {}]

RECURSIVE Show(_, _)
Show(t, ls) ==
    CASE t.k \in {"var", "out"} -> t.x
      [] t.k = "loc" -> ls[t.i]
      [] t.k = "let" -> LET n == Len(t.cs) - 1 IN Show(t.cs[n + 1], [j \in 1..n |-> Show(t.cs[j], ls)])
      [] t.k = "sub" -> t.x[1] \o Cat([j \in DOMAIN t.cs |-> Show(t.cs[j], ls)]) \o t.x[2]
      [] t.k = "case" -> LET s(j) == Show(t.cs[j], ls) k == Len(t.cs) \div 2
                         IN "case(" \o Cat([j \in 1..k |-> s(2 * j - 1) \o "?" \o s(2 * j) \o ","]) \o (IF Len(t.cs) % 2 = 1 THEN s(Len(t.cs)) ELSE "") \o ")"
      [] t.k = "cast" -> "cast(" \o Show(t.cs[1], ls) \o " as " \o t.x \o ")"
      [] t.k = "op" /\ t.cs = <<>> -> t.x
      [] OTHER -> t.x \o "(" \o Csv([j \in DOMAIN t.cs |-> Show(t.cs[j], ls)]) \o ")"
Shows(t) == Show(t, <<>>)
\* the aggregates of a tree
RECURSIVE Aggs(_, _)
Aggs(t, ls) == CASE t.k = "agg" -> {Show(t, ls)}
                 [] t.k = "let" -> LET n == Len(t.cs) - 1 IN UNION {Aggs(t.cs[j], ls) : j \in 1..n} \cup Aggs(t.cs[n + 1], [j \in 1..n |-> Show(t.cs[j], ls)])
                 [] OTHER -> UNION {Aggs(t.cs[j], ls) : j \in DOMAIN t.cs}
\* outside of aggregates only the variables is; no aggregates within aggregates
RECURSIVE Grouped(_, _, _)
Grouped(t, is, depth) ==
    LET own == CASE t.k = "var" /\ depth = 0 /\ t.i \notin is -> At("invalid_aggregation_column", t.p)
                 [] t.k = "sub" /\ depth = 0 /\ ~(t.is \subseteq is) -> At("invalid_aggregation_column", t.p)
                 [] t.k = "agg" /\ depth > 0 -> At("unsupported_feature", t.p)
                 [] OTHER -> Fine(<<>>, "", {})
    IN IF IsErr(own) THEN own ELSE FirstErr([j \in DOMAIN t.cs |-> Grouped(t.cs[j], is, IF t.k = "agg" THEN depth + 1 ELSE depth)])

\* exact numbers widen when they are passed
Rank(y) == CASE y = "int4" -> 1 [] y = "int8" -> 2 [] OTHER -> 0
Kin(y) == CASE y = "timetz" -> "time" [] y = "timestamptz" -> "timestamp" [] OTHER -> y
Passes(y, z) == Kin(y) = Kin(z) \/ y = "unknown" \/ (Rank(y) > 0 /\ Rank(z) > Rank(y))
Wider(y, z) == IF Passes(y, z) THEN z ELSE y
Applies(ys, zs) == Len(ys) = Len(zs) /\ \A j \in DOMAIN ys : Passes(ys[j], zs[j])
\* the one candidate all whose parameters pass to those of the others; <<>> if there is no such
Best(ds) == LET is == {j \in DOMAIN ds : \A i \in DOMAIN ds : i # j => Applies(ds[j].ps, ds[i].ps) /\ ~Applies(ds[i].ps, ds[j].ps)}
            IN IF is = {} THEN <<>> ELSE <<ds[The(is)]>>
Called(d) == d.s \o "." \o d.n \o Cat([j \in DOMAIN d.ps |-> "~" \o Shown(d.ps[j])])
\* the schemas a callable of that name is looked for: indexes
Holders(w, nm) == IF Len(nm) = 1 THEN w.path
                  ELSE LET a == Find([w EXCEPT !.scopes = <<>>], 0, nm, Len(nm) - 1, {"schema"}, FALSE) IN IF Got(a) THEN <<a.s>> ELSE <<>>
\* values for parameters, by type
ValueText(y) == CASE y \in {"int4", "int8"} -> "7" [] y = "varchar" -> "'p'" [] y = "boolean" -> "true" [] OTHER -> "null"
\* the parameters of that name: a value (the latest), or a variable
Given(w, n) == LET is == {j \in DOMAIN w.given : w.given[j].n = n} IN IF is = {} THEN <<>> ELSE <<w.given[CHOOSE j \in is : \A i \in is : i <= j]>>
HostOf(w, n) == SelectSeq(w.hosts, LAMBDA h : h.n = n)
Key(w, n) == IF w.colon THEN ":" \o n ELSE n
\* question marks are numbered as written
Asks(ts) == LET is == SelectSeq([j \in DOMAIN ts |-> j], LAMBDA j : ts[j] = "?") IN [j \in DOMAIN is |-> ts[is[j] - 1]]
\* a parameter which is a value
Number(w, p) == N2S(CHOOSE j \in DOMAIN w.asks : w.asks[j] = "<" \o p)
Filled(w, e, p) == e.k \in {"host", "ask"} /\ Given(w, Key(w, IF e.k = "host" THEN e.x ELSE Number(w, p))) # <<>>
InSchema(w, what, d, n, k) == SelectSeq(what, LAMBDA x : x.s = w.schemas[d].name /\ x.n = n /\ Len(x.ps) = k)
\* candidates by name: those of the first schema that has one
RECURSIVE Nearest(_, _, _, _, _)
Nearest(w, what, ds, n, k) == IF ds = <<>> THEN <<>> ELSE LET x == InSchema(w, what, ds[1], n, k) IN IF x # <<>> THEN x ELSE Nearest(w, what, Tail(ds), n, k)

Here(path) == IF path = "" THEN "" ELSE "@" \o path
BinaryName == ("+" :> "add") @@ ("-" :> "subtract") @@ ("*" :> "multiply") @@ ("/" :> "divide") @@ ("%" :> "remainder") @@ ("||" :> "concat") @@ ("AND" :> "and") @@ ("OR" :> "or")
CompareName(x) == IF x = "<>" THEN "!=" ELSE x
PrefixName == ("-" :> "minus") @@ ("+" :> "plus") @@ ("NOT" :> "not")
IsName == ("NULL" :> "is_null") @@ ("TRUE" :> "is_true") @@ ("FALSE" :> "is_false") @@ ("UNKNOWN" :> "is_unknown")

Hidden(w) == [w EXCEPT !.scopes[Depth(w)].feat = @ \cup {"expose"}]
Push(w, feat) == [w EXCEPT !.scopes = Append(@, [feat |-> feat, rels |-> <<>>, queries |-> <<>>, defs |-> <<>>])]

RECURSIVE Expr(_, _, _, _, _), Query(_, _, _, _, _), QueryAs(_, _, _, _, _, _), From(_, _, _, _)
\* a query within an expression of the innermost scope
Inner(w, q, p, path) == Query(Push(Hidden(w), {"correlation"}), q, p, path \o "q", FALSE)
Visible1(r) == SelectSeq(r.cols, LAMBDA c : c.out)
Outer(w, r) == {x \in r.f : x.l <= Depth(w)}

Variable1(w, nm, p) ==
    LET a == Find(w, Depth(w), nm, Len(nm), {"column", "field", "global"}, TRUE)
    IN IF IsBad(a) THEN Unknown(a, p)
       ELSE IF a.k # "var" THEN At("variable_not_found", p)
       ELSE IF a.s # Depth(w) /\ (~Has(w, a.s, "expose") \/ Between(w, a.s) = <<>>) THEN At("variable_not_found", p)
       ELSE LET c == w.scopes[a.s].rels[a.r].cols[a.c]
            IN \* one from outside is the same for all rows of the query
               Fine([k |-> IF a.s = Depth(w) THEN "var" ELSE "out", x |-> c.r, cs |-> <<>>, i |-> c.i, p |-> p, is |-> {}], c.y, {[l |-> a.s, i |-> c.i]})

\* c: the type a literal is wanted as ("": any)
InContext(w, x, c) ==
    LET l == Literal[x]
    IN IF x = "u" THEN (IF c = "" THEN Fine(Leaf(l.r), l.y, {}) ELSE Fine(Leaf("null:" \o Shown(c)), c, {}))
       ELSE IF c \in {"", l.y} THEN Fine(Leaf(l.r), l.y, {})
       ELSE Fine([Op(Shown(c) \o " or error", <<Leaf(l.r)>>) EXCEPT !.k = "cast"], c, {})
Expr(w, e, p, path, c) ==
    LET n == Len(e.es)
        inherits == e.k = "case"
        into(j) == LET m == IF e.x = "simple" THEN 1 ELSE 0
                   IN IF inherits /\ (IF (n - m) % 2 = 1 /\ j = n THEN TRUE ELSE j > m /\ (j - m) % 2 = 0) THEN c ELSE ""
        rs == [j \in 1..n |-> Expr(w, e.es[j], Sub(p, j), path, into(j))]
        ts == [j \in 1..n |-> rs[j].t]
        y(j) == rs[j].y
        ys == [j \in 1..n |-> rs[j].y]
        bad == FirstErr(rs)
        make(t, ty) == [Fine(t, ty, UNION {rs[j].f : j \in 1..n}) EXCEPT !.g = \E j \in 1..n : rs[j].g]
        negate(t) == IF e.n THEN Op("not", <<t>>) ELSE t
        inner == Inner(w, e.q, p \o "q", path)
        one == Visible1(inner)
        \* a query in an expression; its left operand comes first
        apply(front, back, single, ty) ==
            IF IsErr(bad) THEN bad ELSE IF IsErr(inner) THEN inner
            ELSE IF single /\ Len(one) # 1 THEN At("inconsistent_columns", p)
            ELSE LET end == IF single THEN ">" \o one[1].r ELSE ""
                     t == [k |-> "sub", x |-> <<front, (IF n > 0 THEN ",{" ELSE "") \o inner.plan \o end \o back>>, cs |-> ts, i |-> "", p |-> p, is |-> {x.i : x \in {z \in Outer(w, inner) : z.l = Depth(w)}}]
                 IN [make(t, IF ty = "" THEN one[1].y ELSE ty) EXCEPT !.f = @ \cup Outer(w, inner)]
        pick(ds, t) ==
            LET good == SelectSeq(ds, LAMBDA d : d.kd = "scalar" /\ Applies(ys, d.ps))
            IN IF good = <<>> THEN <<>> ELSE IF Best(good) = <<>> THEN <<At("function_ambiguous", p \o "f")>>
               ELSE <<[make([Op(Called(Best(good)[1]), ts) EXCEPT !.k = t, !.p = p], Best(good)[1].y) EXCEPT !.g = @ \/ t = "agg"]>>
        body == CASE e.k = "pre" -> make(Op(PrefixName[e.x], ts), IF e.x = "NOT" THEN "boolean" ELSE y(1))
                  [] e.k = "bin" -> make(Op(BinaryName[e.x], ts), IF e.x \in {"AND", "OR"} THEN "boolean" ELSE Wider(y(1), y(2)))
                  [] e.k = "cmp" -> make(Op(CompareName(e.x), ts), "boolean")
                  [] e.k = "is" -> make(negate(Op(IsName[e.x], ts)), "boolean")
                  [] e.k = "between" ->
                        LET within(l, t, h) == Op("and", <<Op("<=", <<l, t>>), Op("<=", <<t, h>>)>>)
                        IN make(negate(IF e.x = "SYMMETRIC" THEN Let(ts, Op("or", <<within(Loc(2), Loc(1), Loc(3)), within(Loc(3), Loc(1), Loc(2))>>))
                                       ELSE Let(<<ts[1]>>, within(ts[2], Loc(1), ts[3]))), "boolean")
                  [] e.k = "in" ->
                        LET eq == [j \in 1..(n - 1) |-> Op("=", <<Loc(1), ts[j + 1]>>)]
                        IN make(negate(Let(<<ts[1]>>, FoldLeft(LAMBDA l, r : Op("or", <<l, r>>), eq[1], Tail(eq)))), "boolean")
                  [] e.k = "like" -> make(negate(Op("like", <<ts[1], ts[2], IF n = 3 THEN ts[3] ELSE Leaf(Literal.s0.r)>>)), "boolean")
                  [] e.k = "case" ->
                        LET m == IF e.x = "simple" THEN 1 ELSE 0
                            cs == [j \in 1..(n - m) |-> IF m = 1 /\ j % 2 = 1 /\ j < n - m + ((n - m) % 2) * 0 /\ ~((n - m) % 2 = 1 /\ j = n - m) THEN Op("=", <<Loc(1), ts[j + m]>>) ELSE ts[j + m]]
                            results == {j \in 1..(n - m) : j % 2 = 0 \/ ((n - m) % 2 = 1 /\ j = n - m)}
                            t == [Op("", cs) EXCEPT !.k = "case"]
                            ty == FoldLeft(LAMBDA x, j : IF j \in results THEN Wider(x, y(j + m)) ELSE x, "unknown", [j \in 1..(n - m) |-> j])
                        IN make(IF m = 1 THEN Let(<<ts[1]>>, t) ELSE t, ty)
                  [] e.k = "coalesce" -> make(Op("coalesce", ts), FoldLeft(Wider, "unknown", ys))
                  [] e.k = "nullif" -> make(Let(<<ts[1]>>, [Op("", <<Op("=", <<Loc(1), ts[2]>>), Leaf("null:" \o Shown(y(1))), Loc(1)>>) EXCEPT !.k = "case"]), y(1))
                  [] e.k = "cast" -> make([Op(Shown(e.x), ts) EXCEPT !.k = "cast"], e.x)
                  [] e.k = "call" ->
                        LET hs == Holders(w, e.x)
                            id == Fold(w, "function", Last(e.x))
                            f == pick(Nearest(w, w.funcs, hs, id, n), "fun")
                            a == pick(Nearest(w, w.aggs, hs, id, n), "agg")
                        IN IF f # <<>> THEN f[1] ELSE IF a # <<>> THEN a[1] ELSE At("function_not_found", p)
                  [] e.k = "built" ->
                        LET f == pick(Flat([j \in DOMAIN w.path |-> InSchema(w, w.funcs, w.path[j], Built[e.x].f, n)]), "fun")
                        IN IF f # <<>> THEN f[1] ELSE At("function_not_found", p)
                  [] e.k = "extract" ->
                        LET m == IF e.x \in Precise THEN 2 ELSE 1
                            good == SelectSeq(Nearest(w, w.funcs, w.path, Field[e.x].f, m), LAMBDA d : d.kd = "scalar" /\ Applies(IF m = 2 THEN <<y(1), "int4">> ELSE ys, d.ps))
                        IN IF y(1) \notin Field[e.x].ys \/ good = <<>> THEN At("function_not_found", p)
                           ELSE IF Best(good) = <<>> THEN At("function_ambiguous", p)
                           ELSE make([Op(Called(Best(good)[1]), ts \o (IF m = 2 THEN <<Leaf(Digits[e.l] \o ":int4")>> ELSE <<>>)) EXCEPT !.k = "fun"], Best(good)[1].y)
                  [] e.k = "set" ->
                        LET id == e.l \o (IF e.n THEN "$distinct" ELSE "")
                            a == pick(Flat([j \in DOMAIN w.path |-> InSchema(w, w.aggs, w.path[j], id, n)]), "agg")
                        IN IF a # <<>> THEN a[1] ELSE At("function_not_found", p)
    IN CASE e.k = "lit" -> IF e.x = "u" /\ c = "" /\ ~w.null THEN At("missing_context_of_null", p) ELSE InContext(w, e.x, c)
         [] e.k = "var" -> Variable1(w, e.x, p)
         [] e.k \in {"host", "ask"} ->
                LET key == Key(w, IF e.k = "host" THEN e.x ELSE Number(w, p))
                    g == Given(w, key)
                    h == HostOf(w, key)
                IN IF g # <<>> THEN Fine(Leaf(ValueText(g[1].y) \o ":" \o Shown(g[1].y)), g[1].y, {})
                   ELSE IF h # <<>> THEN Fine([Leaf("external " \o key) EXCEPT !.i = "external " \o key], h[1].y, {}) ELSE At("variable_not_found", p)
         [] e.k = "odd" -> At("unsupported_feature", IF e.x \in {"next", "convert", "translate"} THEN p \o "f" ELSE p)
         [] e.k = "query" -> apply("query{", "}", TRUE, "")
         [] e.k = "exists" -> apply("exists{", "}", FALSE, "boolean")
         [] e.k = "inq" /\ e.q.k = "values" -> IF IsErr(bad) THEN bad ELSE At("unsupported_feature", p \o "qr1") \* taken for a list of rows
         [] e.k = "inq" -> apply(IF e.n THEN "!=all(" ELSE "=any(", "})", TRUE, "boolean")
         [] e.k = "quantified" -> apply(CompareName(e.x[1]) \o (IF e.x[2] = "ALL" THEN "all" ELSE "any") \o "(", "})", TRUE, "boolean")
         [] IsErr(bad) -> bad
         [] OTHER -> body

\* ================================================================ meaning of tables
\* r: [e, a, b, plan, w (the scope the tables are added to), f]
Rel(e, plan, w, f) == [e |-> e.e, a |-> e.a, b |-> e.b, plan |-> plan, w |-> w, f |-> f]
NoErr == Fine(<<>>, "", {})
Refused(e) == [e |-> e.e, a |-> e.a, b |-> e.b, plan |-> "", w |-> <<>>, f |-> {}, cols |-> <<>>, id |-> "", decl |-> NoDecl]
Col(id, out, r, i, y) == [id |-> id, out |-> out, r |-> r, i |-> i, y |-> y]
TableAt(w, d, n) == CHOOSE x \in Range(w.tables) : x.s = w.schemas[d].name /\ x.n = n
\* a named relation: a table of the catalog, or a query named by WITH
Relation(w, nm, p, path) ==
    LET a == Find(w, Depth(w), nm, Len(nm), {"decl", "query"}, TRUE)
        res(plan, cols, id, decl) == [e |-> "", a |-> "", b |-> "", plan |-> plan, w |-> w, f |-> {}, cols |-> cols, id |-> id, decl |-> decl]
    IN IF IsBad(a) THEN Refused(Unknown(a, p))
       ELSE IF a.k = "query"
       THEN LET def == w.scopes[a.s].defs[a.r]
                q == Query(Push([w EXCEPT !.scopes = SubSeq(@, 1, a.s), !.scopes[a.s].defs = SubSeq(@, 1, a.r - 1), !.scopes[a.s].queries = SubSeq(@, 1, a.r - 1), !.scopes[a.s].rels = def.rels], {"independent"}), def.q, def.p, path \o "s", FALSE)
                cs == Visible1(q)
            IN res("sub[" \o q.plan \o "]", [j \in DOMAIN cs |-> Col(IF def.cols = <<>> THEN cs[j].id ELSE def.cols[j], TRUE, cs[j].r, Part(p, j), cs[j].y)],
                   Fold(w, "relation", Last(nm)), NoDecl)
       ELSE LET t == TableAt(w, a.s, a.x)
            IN IF t.pk = "-" THEN Refused(At("primary_index_not_found", p))
               ELSE res("scan " \o t.s \o "." \o t.n \o Here(path),
                        [j \in DOMAIN t.cols |-> Col(t.cols[j].n, ~t.cols[j].hid, t.n \o "." \o t.cols[j].n \o Here(path), Part(p, j), t.cols[j].y)],
                        "", [s |-> a.s, n |-> a.x])
\* AS n (c, ...): renames; columns beyond the list cannot be reached
Renamed(w, r, c, p) ==
    LET outs == {j \in DOMAIN r.cols : r.cols[j].out}
        rank(j) == Cardinality({i \in outs : i <= j})
        ids == [j \in DOMAIN c.cols |-> Fold(w, "variable", c.cols[j])]
        twice == {j \in DOMAIN ids : \E i \in 1..(j - 1) : ids[i] = ids[j]}
    IN IF Len(c.cols) > Cardinality(outs) THEN Refused(At("inconsistent_columns", p))
       ELSE IF twice # {} THEN Refused(At("column_already_exists", Sub(p, CHOOSE j \in twice : \A i \in twice : j <= i)))
       ELSE [r EXCEPT !.id = Fold(w, "relation", c.n),
                      !.cols = IF c.cols = <<>> THEN @ ELSE [j \in DOMAIN @ |-> IF ~@[j].out THEN @[j] ELSE IF rank(j) <= Len(ids) THEN [@[j] EXCEPT !.id = ids[rank(j)]] ELSE [@[j] EXCEPT !.out = FALSE]]]
Join1(w, r) == [w EXCEPT !.scopes[Depth(w)].rels = Append(@, [id |-> r.id, decl |-> r.decl, cols |-> r.cols])]
Tabled(w, r) == IF IsErr(r) THEN r ELSE Rel(NoErr, r.plan, Join1(w, r), r.f)
Relabel == [cross |-> "inner", inner |-> "inner", inner2 |-> "inner", left |-> "left", left2 |-> "left", right |-> "left", full |-> "full"]
\* USING: the named columns are found once on either side; those of the right side are left out from then on
RECURSIVE Using(_, _, _, _, _, _)
Using(w, origin, pivot, ids, p, j) ==
    IF j > Len(ids) THEN [e |-> NoErr, w |-> w, ts |-> <<>>]
    ELSE LET n == Depth(w)
             all(from, to) == {<<r, c>> \in (from..to) \X (1..20) : c \in DOMAIN w.scopes[n].rels[r].cols /\ w.scopes[n].rels[r].cols[c].id = ids[j] /\ w.scopes[n].rels[r].cols[c].out}
             l == all(origin + 1, pivot)
             r == all(pivot + 1, Len(w.scopes[n].rels))
             at == p \o "s" \o N2S(j)
             no(code) == [e |-> At(code, at), w |-> w, ts |-> <<>>]
             v(x) == w.scopes[n].rels[The(x)[1]].cols[The(x)[2]].r
         IN IF Cardinality(l) > 1 THEN no("column_ambiguous") ELSE IF l = {} THEN no("column_not_found")
            ELSE IF Cardinality(r) > 1 THEN no("column_ambiguous") ELSE IF r = {} THEN no("column_not_found")
            ELSE LET rest == Using([w EXCEPT !.scopes[n].rels[The(r)[1]].cols[The(r)[2]].out = FALSE], origin, pivot, ids, p, j + 1)
                 IN [rest EXCEPT !.ts = <<"=(" \o v(l) \o "," \o v(r) \o ")">> \o @]
From(w, t, p, path) ==
    CASE t.k = "ref" ->
            LET r == Relation(w, t.nm, p, path)
            IN IF IsErr(r) THEN r ELSE Tabled(w, IF t.as = <<>> THEN r ELSE Renamed(w, r, t.as[1], p \o "a"))
      [] t.k = "sub" ->
            LET r == Query(Push(w, {}), t.q, p \o "q", path, FALSE)
            IN IF IsErr(r) THEN Refused(r) ELSE Tabled(w, LET x == Renamed(w, r, t.as[1], p \o "a") IN IF IsErr(x) THEN x ELSE [x EXCEPT !.decl = NoDecl])
      [] t.k = "apply" ->
            LET l == From(w, t.l, p \o "l", path \o "a")
                origin == Len(w.scopes[Depth(w)].rels)
                \* only the operand is visible from the arguments
                inside == [l.w EXCEPT !.scopes[Depth(w)].rels = SubSeq(@, origin + 1, Len(@))]
                es == [j \in DOMAIN t.es |-> Expr(inside, t.es[j], p \o "e" \o N2S(j), path, "")]
                bad == FirstErr([j \in DOMAIN es |-> IF IsErr(es[j]) THEN es[j] ELSE IF es[j].g THEN At("unsupported_feature", p \o "e" \o N2S(j)) ELSE NoErr])
                good == SelectSeq(Nearest(w, w.funcs, Holders(w, t.f), Fold(w, "function", Last(t.f)), Len(t.es)), LAMBDA x : x.kd = "table" /\ Applies([j \in DOMAIN es |-> es[j].y], x.ps))
                d == Best(good)[1]
                ids == [j \in DOMAIN t.as.cols |-> Fold(w, "variable", t.as.cols[j])]
                twice == {j \in DOMAIN ids : \E i \in 1..(j - 1) : ids[i] = ids[j]}
                plan == Called(d) \o "(" \o Csv([j \in DOMAIN es |-> Shows(es[j].t)]) \o ")"
                cols == [j \in DOMAIN d.cs |-> Col(IF ids = <<>> THEN Fold(w, "variable", [t |-> d.cs[j].n, q |-> FALSE]) ELSE ids[j], TRUE, Called(d) \o "#" \o N2S(j) \o Here(path), p \o "c" \o N2S(j), d.cs[j].y)]
            IN IF IsErr(l) THEN l ELSE IF IsErr(bad) THEN Refused(bad)
               ELSE IF good = <<>> THEN Refused(At("function_not_found", p)) ELSE IF Best(good) = <<>> THEN Refused(At("function_ambiguous", p))
               ELSE IF d.cs = <<>> THEN Refused(At("inconsistent_type", p))
               ELSE IF ids # <<>> /\ Len(ids) # Len(d.cs) THEN Refused(At("inconsistent_columns", p \o "a"))
               ELSE IF twice # {} THEN Refused(At("column_already_exists", Sub(p \o "a", CHOOSE j \in twice : \A i \in twice : j <= i)))
               ELSE Rel(NoErr, l.plan \o "|apply " \o (IF t.y = "" THEN "cross" ELSE t.y) \o " " \o plan,
                        Join1(l.w, [id |-> Fold(w, "relation", t.as.n), decl |-> NoDecl, cols |-> cols]), UNION ({l.f} \cup {es[j].f : j \in DOMAIN es}))
      [] t.k = "join" ->
            LET flip == t.y = "right"
                l == From(w, t.l, p \o "l", path \o (IF flip THEN "r" ELSE "l"))
                pivot == Len(l.w.scopes[Depth(w)].rels)
                r == From(l.w, t.r, p \o "r", path \o (IF flip THEN "l" ELSE "r"))
                origin == Len(w.scopes[Depth(w)].rels)
                \* only the operands are visible from the specification
                on == Expr([r.w EXCEPT !.scopes[Depth(w)].rels = SubSeq(@, origin + 1, Len(@))], t.on[1], p \o "e", path, "")
                us == Using(r.w, origin, pivot, [j \in DOMAIN t.cols |-> Fold(w, "variable", t.cols[j])], p, 1)
                plan(cond) == "join " \o Relabel[t.y] \o "[" \o (IF flip THEN r.plan ELSE l.plan) \o "][" \o (IF flip THEN l.plan ELSE r.plan) \o "](" \o cond \o ")"
            IN IF t.y = "union" THEN Refused(At("unsupported_feature", p \o "o"))
               ELSE IF IsErr(l) THEN l ELSE IF IsErr(r) THEN r
               ELSE IF t.y = "natural" THEN Refused(At("unsupported_feature", p))
               ELSE CASE t.by = "" -> Rel(NoErr, plan(""), r.w, l.f \cup r.f)
                      [] t.by = "on" -> IF IsErr(on) THEN Refused(on) ELSE IF on.g THEN Refused(At("unsupported_feature", p \o "s"))
                                        ELSE Rel(NoErr, plan(Shows(on.t)), r.w, l.f \cup r.f \cup on.f)
                      [] t.by = "using" -> IF IsErr(us.e) THEN Refused(us.e)
                                           ELSE Rel(NoErr, plan(FoldLeft(LAMBDA x, y : "and(" \o x \o "," \o y \o ")", us.ts[1], Tail(us.ts))), us.w, l.f \cup r.f)

\* ================================================================ meaning of queries
\* r: [e, a, b, plan, cols, id, decl, f, w]
Result(plan, cols, f) == [e |-> "", a |-> "", b |-> "", plan |-> plan, w |-> <<>>, f |-> f, cols |-> cols, id |-> "", decl |-> NoDecl]
\* the tables of a FROM clause, one after the other
RECURSIVE Froms(_, _, _, _, _)
Froms(w, ts, p, path, j) ==
    LET own == path \o (IF Len(ts) = 1 THEN "" ELSE (IF j = 1 THEN "" ELSE "") \o Cat([i \in 1..(Len(ts) - (IF j = 1 THEN 2 ELSE j)) |-> "l"]) \o (IF j = 1 THEN "l" ELSE "r"))
        r == From(w, ts[j], p \o "f" \o N2S(j), own)
        rest == Froms(r.w, ts, p, path, j + 1)
    IN IF j > Len(ts) THEN [e |-> NoErr, plans |-> <<>>, w |-> w, f |-> {}]
       ELSE IF IsErr(r) THEN [e |-> r, plans |-> <<>>, w |-> w, f |-> {}]
       ELSE [rest EXCEPT !.plans = <<r.plan>> \o @, !.f = @ \cup r.f]
NameOf(w, e) == IF e.n # <<>> THEN Fold(w, "variable", e.n[1]) ELSE IF e.e.k = "var" THEN Fold(w, "variable", Last(e.e.x)) ELSE ""
\* elements of the select list: [e, g, cols, trees (of the computed ones), starred (columns taken over by asterisks, and where), f]
Element(w, el, p, path) ==
    LET n == Depth(w)
        ok(g, cols, trees, stars, f) == [e |-> NoErr, g |-> g, cols |-> cols, trees |-> trees, stars |-> stars, f |-> f]
        no(e) == [e |-> e, g |-> FALSE, cols |-> <<>>, trees |-> <<>>, stars |-> <<>>, f |-> {}]
        outs(rel) == SelectSeq(rel.cols, LAMBDA c : c.out)
        star(cs) == ok(FALSE, cs, <<>>, [j \in DOMAIN cs |-> [i |-> cs[j].i, p |-> p \o "m"]], {})
    IN CASE el.k = "col" ->
                LET r == Expr(w, el.e, p, path, "")
                IN IF IsErr(r) THEN no(r) ELSE ok(r.g, <<Col(NameOf(w, el), TRUE, Shows(r.t), p, r.y)>>, <<r.t>>, <<>>, r.f)
         [] el.k = "all" -> LET cs == Flat([j \in DOMAIN w.scopes[n].rels |-> outs(w.scopes[n].rels[j])]) IN IF cs = <<>> THEN no(At("unsupported_feature", p \o "m")) ELSE star(cs)
         [] el.k = "each" ->
                LET a == Find(w, n, el.nm, Len(el.nm), {"rel"}, TRUE)
                IN IF IsBad(a) THEN no(Unknown(a, p))
                   ELSE IF a.s # n THEN no(At("table_not_found", p)) ELSE star(outs(w.scopes[n].rels[a.r]))

Select(w0, q, p, path) ==
    LET fr == Froms(w0, q.from, p, path, 1)
        w == IF q.from = <<>> THEN [w0 EXCEPT !.scopes[Depth(w0)].rels = Append(@, [id |-> "", decl |-> NoDecl, cols |-> <<>>])] ELSE fr.w
        where == Expr(w, q.where[1], p \o "w", path, "")
        group == [j \in DOMAIN q.group |-> Expr(w, q.group[j], p \o "g" \o N2S(j), path, "")]
        badGroup == FirstErr([j \in DOMAIN group |-> IF IsErr(group[j]) THEN group[j] ELSE IF group[j].g \/ (group[j].t.k \notin {"var", "out"} /\ group[j].t.i = "") THEN At("unsupported_feature", p \o "g" \o N2S(j)) ELSE NoErr])
        keys == {group[j].t.i : j \in DOMAIN group}
        having == Expr(w, q.having[1], p \o "h", path, "")
        els == [j \in DOMAIN q.els |-> Element(w, q.els[j], p \o "e" \o N2S(j), path)]
        badEls == FirstErr([j \in DOMAIN els |-> els[j].e])
        cols == Flat([j \in DOMAIN els |-> els[j].cols])
        order == [j \in DOMAIN q.order |-> Expr(w, q.order[j].e, p \o "o" \o N2S(j), path, "")]
        badOrder == FirstErr([j \in DOMAIN order |->
                        IF q.order[j].nulls # <<>> THEN At("unsupported_feature", p \o "k" \o N2S(j))
                        ELSE IF IsErr(order[j]) THEN order[j] ELSE IF q.order[j].e.k = "lit" \/ Filled(w, q.order[j].e, p \o "o" \o N2S(j)) THEN At("unsupported_feature", p \o "o" \o N2S(j)) ELSE NoErr])
        limit == Expr(w, q.limit[1], p \o "m", path, "")
        count == IF q.limit = <<>> THEN NoErr ELSE IF IsErr(limit) THEN limit
                 ELSE IF (q.limit[1].k = "lit" /\ q.limit[1].x \in {"n0", "n1", "n2"}) \/ limit.t.x \in {"7:int4", "7:int8"} THEN NoErr ELSE At("invalid_unsigned_integer", IF q.limit[1].k = "lit" /\ q.limit[1].x = "m" THEN p \o "mi" ELSE p \o "m")
        active == q.group # <<>> \/ q.having # <<>> \/ (\E j \in DOMAIN els : els[j].g) \/ (\E j \in DOMAIN order : order[j].g)
        trees == Flat([j \in DOMAIN els |-> els[j].trees])
        stars == Flat([j \in DOMAIN els |-> els[j].stars])
        badStars == FirstErr([j \in DOMAIN stars |-> IF stars[j].i \in keys THEN NoErr ELSE At("invalid_aggregation_column", stars[j].p)])
        badAgg == IF ~active THEN NoErr ELSE FirstErr([j \in DOMAIN trees |-> Grouped(trees[j], keys, 0)] \o <<badStars>> \o [j \in DOMAIN order |-> Grouped(order[j].t, keys, 0)])
        aggs == UNION ({Aggs(trees[j], <<>>) : j \in DOMAIN trees} \cup {Aggs(order[j].t, <<>>) : j \in DOMAIN order} \cup (IF q.having = <<>> THEN {} ELSE {Aggs(having.t, <<>>)}))
        firstKey(j) == \A i \in 1..(j - 1) : group[i].t.i # group[j].t.i
        keyText == SelectSeq([j \in DOMAIN group |-> IF firstKey(j) THEN group[j].t.x ELSE ""], LAMBDA x : x # "")
        source == IF q.from = <<>> THEN "values" \o Here(path) \o "()" ELSE FoldLeft(LAMBDA x, y : "join inner[" \o x \o "][" \o y \o "]()", fr.plans[1], Tail(fr.plans))
        sorts == Cat([j \in DOMAIN order |-> " by " \o Shows(order[j].t) \o (IF q.order[j].d = <<"DESC">> THEN "-" ELSE "+")])
        rows == IF q.limit = <<>> THEN "" ELSE IF q.limit[1].k = "lit" THEN Literal[q.limit[1].x].t ELSE "7"
    IN IF IsErr(fr.e) THEN Refused(fr.e)
       ELSE IF q.where # <<>> /\ IsErr(where) THEN Refused(where)
       ELSE IF q.where # <<>> /\ where.g THEN Refused(At("unsupported_feature", p \o "w"))
       ELSE IF IsErr(badGroup) THEN Refused(badGroup)
       ELSE IF q.having # <<>> /\ IsErr(having) THEN Refused(having)
       ELSE IF q.having # <<>> /\ IsErr(Grouped(having.t, keys, 0)) THEN Refused(Grouped(having.t, keys, 0))
       ELSE IF IsErr(badEls) THEN Refused(badEls)
       ELSE IF IsErr(badOrder) THEN Refused(badOrder)
       ELSE IF IsErr(count) THEN Refused(count)
       ELSE IF IsErr(badAgg) THEN Refused(badAgg)
       ELSE Result(source
                   \o (IF q.where = <<>> THEN "" ELSE "|filter " \o Shows(where.t))
                   \o (IF active THEN "|group " \o Csv(keyText) \o " do " ELSE "") \o (IF active THEN "{" \o Text1(SetToSeq(aggs), ";") \o "}" ELSE "")
                   \o (IF q.having = <<>> THEN "" ELSE "|filter " \o Shows(having.t))
                   \o (IF q.y = "distinct" THEN "|distinct " \o Csv([j \in DOMAIN cols |-> cols[j].r]) ELSE "")
                   \o (IF q.order = <<>> /\ q.limit = <<>> THEN "" ELSE "|limit " \o rows \o sorts),
                   cols,
                   fr.f \cup (IF q.where = <<>> THEN {} ELSE where.f) \cup (IF q.having = <<>> THEN {} ELSE having.f)
                   \cup UNION {els[j].f : j \in DOMAIN els} \cup UNION {order[j].f : j \in DOMAIN order} \cup UNION {group[j].f : j \in DOMAIN group})

SetOp(w, q, p, path, v) ==
    LET l == QueryAs(w, q.l, p \o "l", path \o "l", FALSE, v)
        r == QueryAs(w, q.r, p \o "r", path \o "r", FALSE, v)
        lc == Visible1(l)
        rc == Visible1(r)
        y == IF q.y = "all" THEN "all" ELSE "distinct"
        both == "[" \o l.plan \o "][" \o r.plan \o "]"
    IN IF IsErr(l) THEN l ELSE IF IsErr(r) THEN r
       ELSE IF Len(lc) # Len(rc) THEN Refused(At("inconsistent_columns", p \o "o"))
       ELSE IF q.x = "union"
       THEN Result("union " \o y \o both, [j \in DOMAIN lc |-> Col(lc[j].id, TRUE, "u(" \o lc[j].r \o "|" \o rc[j].r \o ")", p \o "u" \o N2S(j), lc[j].y)], l.f \cup r.f)
       ELSE Result(q.x \o " " \o y \o both \o "(" \o Csv([j \in DOMAIN lc |-> lc[j].r \o "|" \o rc[j].r]) \o ")", lc, l.f \cup r.f)

\* WITH: each query sees the ones named before it
RECURSIVE Commons(_, _, _, _)
Commons(w, els, p, j) ==
    IF j > Len(els) THEN [e |-> NoErr, w |-> w]
    ELSE LET el == els[j]
             n == Depth(w)
             r == Query(Push(w, {"independent"}), el.q, p \o "d" \o N2S(j), "", FALSE)
             ids == [i \in DOMAIN el.cols |-> Fold(w, "variable", el.cols[i])]
             twice == {i \in DOMAIN ids : \E k \in 1..(i - 1) : ids[k] = ids[i]}
             id == Fold(w, "relation", el.n)
             no(e) == [e |-> e, w |-> w]
         IN IF IsErr(r) THEN no(r)
            ELSE IF el.cols # <<>> /\ Len(el.cols) # Len(Visible1(r)) THEN no(At("inconsistent_columns", p \o "w" \o N2S(j)))
            ELSE IF twice # {} THEN no(At("column_already_exists", p \o "c" \o N2S(j) \o "_" \o N2S(CHOOSE i \in twice : \A k \in twice : i <= k)))
            ELSE IF id \in Range(w.scopes[n].queries) THEN no(At("view_already_exists", p \o "n" \o N2S(j)))
            ELSE Commons([w EXCEPT !.scopes[n].queries = Append(@, id), !.scopes[n].defs = Append(@, [q |-> el.q, p |-> p \o "d" \o N2S(j), cols |-> ids, rels |-> w.scopes[n].rels])], els, p, j + 1)

\* v: types wanted of the columns of VALUES
QueryAs(w, q, p, path, cont, v) ==
    LET own == IF cont THEN w ELSE Push(w, {})
    IN CASE q.k = "select" -> Select(own, q, p, path)
         [] q.k = "table" -> Relation(own, q.nm, p \o "t", path)
         [] q.k = "values" ->
                LET rows == [j \in DOMAIN q.rows |-> [i \in DOMAIN q.rows[j] |-> Expr(own, q.rows[j][i], p \o "v" \o N2S(j) \o "_" \o N2S(i), path, IF i \in DOMAIN v THEN v[i] ELSE "")]]
                    bad == FirstErr(Flat([j \in DOMAIN rows |-> [i \in DOMAIN rows[j] |-> IF IsErr(rows[j][i]) THEN rows[j][i] ELSE IF rows[j][i].g THEN At("unsupported_feature", p \o "v" \o N2S(j) \o "_" \o N2S(i)) ELSE NoErr]]))
                IN IF IsErr(bad) THEN Refused(bad)
                   ELSE Result("values" \o Here(path) \o Cat([j \in DOMAIN rows |-> "(" \o Csv([i \in DOMAIN rows[j] |-> Shows(rows[j][i].t)]) \o ")"]),
                               [i \in DOMAIN rows[1] |-> Col("", TRUE, "v" \o N2S(i) \o Here(path), p \o "v" \o N2S(i), FoldLeft(LAMBDA x, r : Wider(x, r[i].y), "unknown", rows))],
                               UNION {UNION {rows[j][i].f : i \in DOMAIN rows[j]} : j \in DOMAIN rows})
         [] q.k = "set" -> SetOp(w, q, p, path, v)
         [] q.k = "with" -> IF q.rec THEN Refused(At("unsupported_feature", p))
                            ELSE LET c == Commons(own, q.els, p, 1) IN IF IsErr(c.e) THEN Refused(c.e) ELSE QueryAs(c.w, q.q, p \o "b", path, TRUE, v)
Query(w, q, p, path, cont) == QueryAs(w, q, p, path, cont, <<>>)

\* a query as a statement: rows are handed to the user
Emitted(r) == r.plan \o "|emit " \o Csv([j \in DOMAIN Visible1(r) |-> Visible1(r)[j].id \o "=" \o Visible1(r)[j].r])
=============================================================================
