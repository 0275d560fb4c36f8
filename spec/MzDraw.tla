------------------------------- MODULE MzDraw -------------------------------
(***************************************************************************)
(* Catalogs, expressions, tables and queries drawn at random, reproducibly:*)
(* everything is a function of a seed.                                     *)
(***************************************************************************)
EXTENDS MzQuery
CONSTANTS Grouping, \* one in this many SELECT has GROUP BY, another an aggregate without it
          Focus \* what there is more of: "calls", "parameters" or ""

M == 46337
Roll(s, i) == LET x == (s[1] * 40 + s[2] * 7 + i * 977 + 11) % M
                  y == (s[2] * 40000 + s[1] + i * 31) % M
              IN (((x * x) % M) + y * 3 + i) % M
P(s, i, n) == Roll(s, i) % n
Child(s, i) == <<(s[1] * 40014 + s[2] + i * 977 + 1) % M, (s[2] * 40692 + s[1] + i) % M>>
Pick(s, i, xs) == xs[P(s, i, Len(xs)) + 1]
Maybe(s, i, n, x) == IF P(s, i, n) = 0 THEN <<x>> ELSE <<>>

\* ---------------------------------------------------------------- worlds
TypeOf == <<"int4", "int8", "varchar", "int4", "int8", "boolean", "varchar">> \o (IF Focus = "calls" THEN <<"date", "time", "timetz", "timestamp", "timestamptz">> ELSE <<"timestamp">>)
TableG(s, sch, n) ==
    LET names == Pick(s, 1, <<<<"a", "b">>, <<"a", "b", "c">>, <<"b", "c", "d">>, <<"a", "c">>, <<"c", "b", "a", "d">>, <<"a">>>>)
        col(j) == [n |-> names[j], y |-> IF j = 1 THEN Pick(s, 20, <<"int4", "int8">>) ELSE Pick(s, 20 + j, TypeOf), hid |-> FALSE, nul |-> P(s, 40 + j, 2) = 0]
        hidden == Maybe(s, 2, 3, [n |-> "h", y |-> "int8", hid |-> TRUE, nul |-> FALSE])
        cs == [j \in DOMAIN names |-> col(j)]
        all == IF P(s, 3, 2) = 0 THEN hidden \o cs ELSE cs \o hidden
        key(j) == [n |-> cs[j].n, d |-> Pick(s, 60 + j, <<"+", "+", "-">>)]
        pk == IF P(s, 4, 24) = 0 THEN "-" ELSE IF P(s, 4, 24) < 3 THEN "+" ELSE "keys"
        keys == IF pk # "keys" THEN <<>> ELSE IF Len(names) > 1 /\ P(s, 5, 3) = 0 THEN <<key(2), key(1)>> ELSE <<key(1)>>
    IN [s |-> sch, n |-> n, cols |-> all, pk |-> pk, keys |-> keys]
Fn(sch, n, ps, y) == [s |-> sch, n |-> n, ps |-> ps, y |-> y, kd |-> "scalar", cs |-> <<>>]
Tv(sch, n, ps, cs) == [s |-> sch, n |-> n, ps |-> ps, y |-> "table", kd |-> "table", cs |-> cs]
Cl(n, y) == [n |-> n, y |-> y]
FuncsG == <<Fn("s", "f", <<"int4">>, "int4"), Fn("s", "f", <<"varchar">>, "varchar"), Fn("s", "z", <<>>, "int4"),
            Fn("p", "f", <<"int8">>, "int8"), Fn("p", "g", <<"int8", "int8">>, "int8"), Fn("o", "g", <<"varchar">>, "varchar"),
            Fn("s", "e", <<"int4", "int8">>, "int8"), Fn("s", "e", <<"int8", "int4">>, "int8"), Fn("s", "e", <<"int4", "int4">>, "int4"), Fn("p", "e", <<"int4", "int8">>, "int8"), Fn("p", "e", <<"int8", "int4">>, "int8"),
            Tv("s", "v", <<"int8">>, <<Cl("a", "int8"), Cl("b", "varchar")>>), Tv("s", "v", <<"varchar">>, <<Cl("C", "varchar")>>), Tv("s", "v", <<"int4">>, <<Cl("a", "int4"), Cl("a", "int4"), Cl("d", "boolean")>>),
            Tv("p", "v", <<"int4", "int8">>, <<Cl("a", "int8"), Cl("b", "int4")>>), Tv("p", "v", <<"int8", "int4">>, <<Cl("b", "int8")>>), Tv("p", "v", <<>>, <<Cl("x", "int8"), Cl("y", "varchar")>>),
            Tv("s", "i", <<"int8">>, <<>>), [Tv("s", "i", <<>>, <<>>) EXCEPT !.y = "int8"], Tv("o", "v", <<"int8">>, <<Cl("u", "int8")>>), Tv("p", "z", <<>>, <<Cl("x", "int8")>>), Tv("s", "g", <<"int8">>, <<Cl("x", "int8")>>),
            Tv("p", "w", <<"int8">>, <<Cl("k", "int8")>>), Fn("s", "w", <<"int8">>, "int8"),
            Fn("s", "character_length", <<"varchar">>, "int8"), Fn("s", "octet_length", <<"varchar">>, "int8"), Fn("p", "cardinality", <<"varchar">>, "int8"), Fn("s", "abs", <<"int4">>, "int4"), Fn("p", "abs", <<"int8">>, "int8"),
            Fn("s", "ceil", <<"int8">>, "int8"), Fn("s", "mod", <<"int8", "int8">>, "int8"), Fn("p", "mod", <<"int8", "int8">>, "int4"), Fn("o", "floor", <<"int8">>, "int8"), Fn("s", "upper", <<"varchar">>, "varchar"), Tv("p", "lower", <<"varchar">>, <<Cl("a", "varchar")>>),
            Fn("s", "lower", <<"varchar">>, "varchar"), Fn("p", "length", <<"varchar">>, "int4"), Fn("s", "position", <<"varchar", "varchar">>, "int8"), Fn("s", "substring", <<"varchar", "int8">>, "varchar"), Fn("p", "substring", <<"varchar", "int8", "int8">>, "varchar"),
            Fn("s", "substring", <<"varchar", "int4", "int8">>, "varchar"), Fn("s", "overlay", <<"varchar", "varchar", "int8">>, "varchar"), Fn("p", "overlay", <<"varchar", "varchar", "int8", "int8">>, "varchar"),
            Fn("s", "current_date", <<>>, "date"), Fn("s", "current_time", <<>>, "timetz"), Fn("p", "localtime", <<>>, "time"), Fn("s", "localtime", <<"int8">>, "time"), Fn("s", "current_timestamp", <<>>, "timestamptz"), Fn("p", "current_timestamp", <<"int8">>, "timestamptz"), Fn("s", "localtimestamp", <<>>, "timestamp"),
            Fn("s", "extract_year", <<"date">>, "int8"), Fn("s", "extract_year", <<"timestamp">>, "int4"), Fn("p", "extract_month", <<"date">>, "int8"), Fn("p", "extract_month", <<"timestamp">>, "int8"), Fn("s", "extract_day", <<"date">>, "int8"), Fn("p", "extract_day", <<"timestamp">>, "int8"),
            Fn("s", "extract_hour", <<"time">>, "int8"), Fn("s", "extract_hour", <<"timestamp">>, "int8"), Fn("s", "extract_minute", <<"timetz">>, "int8"), Fn("s", "extract_minute", <<"time">>, "int8"), Fn("s", "extract_second", <<"time", "int4">>, "int8"), Fn("s", "extract_second", <<"timestamp", "int8">>, "int8"), Fn("s", "extract_second", <<"timestamp", "int4">>, "int8"),
            Fn("s", "extract_timezone_hour", <<"timestamptz">>, "int8"), Fn("s", "extract_timezone_hour", <<"timetz">>, "int4"), Fn("p", "extract_timezone_minute", <<"timetz">>, "int8"), Fn("s", "date", <<"timestamp">>, "date"), Fn("s", "date", <<"date">>, "date"),
            Fn("s", "extract_year_to_month", <<"date">>, "int8"), Fn("s", "extract_year_to_month", <<"timestamp">>, "int8"), Fn("s", "extract_year_to_day", <<"date">>, "date"), Fn("p", "extract_year_to_hour", <<"timestamp">>, "int8"), Tv("s", "extract_year_to_minute", <<"timestamp">>, <<Cl("a", "int8")>>),
            Fn("p", "extract_year_to_minute", <<"timestamp">>, "int8"), Fn("s", "extract_year_to_second", <<"timestamp", "int4">>, "timestamp")>>
AggsG == LET raw == <<[s |-> "s", n |-> "count", ps |-> <<>>, y |-> "int8"], [s |-> "s", n |-> "count", ps |-> <<"int8">>, y |-> "int8"], [s |-> "s", n |-> "count", ps |-> <<"varchar">>, y |-> "int8"],
           [s |-> "s", n |-> "sum", ps |-> <<"int4">>, y |-> "int4"], [s |-> "s", n |-> "sum", ps |-> <<"int8">>, y |-> "int8"], [s |-> "s", n |-> "sum$distinct", ps |-> <<"int8">>, y |-> "int8"],
           [s |-> "p", n |-> "max", ps |-> <<"int8">>, y |-> "int8"], [s |-> "p", n |-> "max", ps |-> <<"varchar">>, y |-> "varchar"],
           [s |-> "p", n |-> "m", ps |-> <<"int8">>, y |-> "int8"], [s |-> "s", n |-> "count$distinct", ps |-> <<"int8">>, y |-> "int8"]>>
         IN [j \in DOMAIN raw |-> [s |-> raw[j].s, n |-> raw[j].n, ps |-> raw[j].ps, y |-> raw[j].y, kd |-> "scalar", cs |-> <<>>]]
\* under the focus on parameters most of them are known
Known(s, c, ns, ys) == Flat([j \in DOMAIN ns |-> IF P(s, 10 + j, 6) = 0 THEN <<>> ELSE <<[n |-> (IF c = (P(s, 30 + j, 12) > 0) THEN ":" ELSE "") \o ns[j], y |-> Pick(s, 50 + j, ys)]>>])
GivenG(s, c) == IF Focus = "parameters" THEN Known(s, c, <<"n", "1", "3", "4", "n", "M", "6">>, <<"int4", "int8", "varchar", "boolean", "int8">>)
                ELSE [j \in 1..P(s, 1, 6) |-> [n |-> Pick(s, 10 + j, <<"n", ":n", "N", ":N", "1", ":1", "2", ":2", "m">>), y |-> Pick(s, 20 + j, <<"int4", "int8", "varchar", "boolean", "int8">>)]]
HostsG(s, c) == IF Focus = "parameters" THEN Known(s, c, <<"m", "2", "k", "1", "N", "5", "7">>, <<"int4", "int8", "varchar">>)
                ELSE LET ns == Pick(s, 2, <<<<>>, <<"m">>, <<":m", "n", "3">>, <<"m", ":n", ":3">>, <<"m", ":m", "n", "k", "1", ":1", "3">>>>) IN [j \in DOMAIN ns |-> [n |-> ns[j], y |-> Pick(s, 40 + j, <<"int4", "int8", "varchar">>)]]
WorldG(s) ==
    LET two == <<"s", "p", "o">>
        ts == Flat([j \in 1..3 |-> Flat([i \in 1..3 |-> LET n == <<"t", "u", "v">>[i] IN IF (j = 1 /\ i < 3) \/ P(s, 10 * j + i, 3) = 0 THEN <<TableG(Child(s, 10 * j + i), two[j], n)>> ELSE <<>>])])
        held(d) == {x.n : x \in {ts[j] : j \in {i \in DOMAIN ts : ts[i].s = two[d]}}}
        prims(d) == {x.n : x \in {ts[j] : j \in {i \in DOMAIN ts : ts[i].s = two[d] /\ ts[i].pk # "-"}}}
    IN [lower |-> IF P(s, 1, 2) = 0 THEN {"all"} ELSE {}, catalog |-> "c", path |-> <<1, 2>>, scopes |-> <<>>, null |-> P(s, 2, 2) = 0,
        schemas |-> [d \in 1..3 |-> [name |-> two[d], listed |-> TRUE, rels |-> [n \in held(d) |-> "table"], idx |-> prims(d), vars |-> {}]],
        tables |-> ts, funcs |-> FuncsG, aggs |-> AggsG, colon |-> P(s, 5, 2) = 0, given |-> GivenG(Child(s, 6), P(s, 5, 2) = 0), hosts |-> HostsG(Child(s, 7), P(s, 5, 2) = 0), asks |-> <<>>]

\* ---------------------------------------------------------------- names
Upper == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", k |-> "K", s |-> "S", t |-> "T", u |-> "U", x |-> "X", y |-> "Y", f |-> "F"]
Ident(s, env, n) == IF P(s, 91, 9) = 0 THEN [t |-> n, q |-> TRUE]
                    ELSE IF n \in DOMAIN Upper /\ P(s, 92, IF env.l THEN 3 ELSE 90) = 0 THEN [t |-> Upper[n], q |-> FALSE] ELSE [t |-> n, q |-> FALSE]
Idents(s, env, ns) == [j \in DOMAIN ns |-> Ident(Child(s, 930 + j), env, ns[j])]
Plain(n) == [t |-> n, q |-> FALSE]

\* ---------------------------------------------------------------- expressions
Class(y) == CASE y \in {"int4", "int8"} -> "n" [] y = "boolean" -> "b" [] y = "varchar" -> "s" [] y \in {"date", "time", "timetz", "timestamp", "timestamptz"} -> "d" [] OTHER -> "?"
E(k, x, es) == [k |-> k, x |-> x, es |-> es, n |-> FALSE, q |-> <<>>, l |-> ""]
Temporal == <<"date", "time", "timetz", "timestamp", "timestamptz">>
LitG(s, c) == IF c = "d" THEN E("cast", Pick(s, 82, Temporal), <<E("lit", "s1", <<>>)>>) ELSE E("lit", CASE c = "n" -> Pick(s, 81, <<"n1", "n2", "n0", "m", "n1">>) [] c = "s" -> Pick(s, 81, <<"s1", "s0">>) [] OTHER -> Pick(s, 81, <<"t", "f">>), <<>>)
\* a column of the environment: [q, n, y]; a few names go wrong
NameG(s, env, x) ==
    LET own == IF x.q # <<>> /\ (IF env.many THEN P(s, 71, 8) # 0 ELSE P(s, 71, 3) = 0) THEN Append(x.q, x.n) ELSE <<x.n>>
        odd == CASE P(s, 73, 4) = 0 -> <<"h">> [] P(s, 73, 4) = 1 -> <<"k">> [] P(s, 73, 4) = 2 -> <<"y", x.n>> [] OTHER -> <<x.n, "a">>
    IN Idents(s, env, IF P(s, 72, 90) = 0 THEN odd ELSE own)
VarG(s, env, cs) == E("var", NameG(s, env, Pick(s, 74, cs)), <<>>)
Suit(cs, c) == SelectSeq(cs, LAMBDA x : Class(x.y) = c /\ x.n # "")
Leafs(s, env, c) ==
    LET own == Suit(env.cols, c)
        far == Suit(env.outer, c)
        r == IF Focus = "parameters" /\ P(s, 75, 10) \in {5, 6} THEN 9 ELSE P(s, 75, 10)
        few == IF Focus = "parameters" THEN 3 ELSE 7
    IN IF own # <<>> /\ r < few THEN VarG(s, env, own)
       ELSE IF far # <<>> /\ (r = 7 \/ (own = <<>> /\ r < 9)) THEN VarG(s, env, far)
       ELSE IF r = 9 /\ P(s, 79, IF Focus = "parameters" THEN 1 ELSE 9) = 0 THEN (IF P(s, 80, 3) = 0 THEN E("ask", "", <<>>) ELSE E("host", Pick(s, 83, <<"n", "n", "N", "m", "k", "M">>), <<>>))
       ELSE IF r = 8 /\ P(s, 76, 5) = 0 THEN E("lit", "u", <<>>) ELSE LitG(s, c)
CompareG(s) == Pick(s, 77, <<"=", "<>", "<", "<=", ">", ">=">>)
Not_(s, e) == [e EXCEPT !.n = P(s, 78, 3) = 0]

FieldsG == SetToSeq(DOMAIN Field)
RECURSIVE CallG(_, _, _, _), ApplyG(_, _, _), Ex(_, _, _, _), QueryG(_, _, _, _), SelectG(_, _, _, _), RefG(_, _, _)
Deeper(env) == [env EXCEPT !.outer = env.cols \o env.outer, !.cols = <<>>, !.inner = <<>>, !.agg = FALSE]
SetG(s, env, c, d) ==
    LET inside == [env EXCEPT !.cols = env.inner, !.agg = P(s, 61, 25) = 0]
        arg(cl) == Ex(Child(s, 62), inside, cl, IF d > 1 THEN 1 ELSE 0)
        r == P(s, 63, 8)
        fn(n, l, es, distinct) == [E("set", Pick(s, 64, <<n, n, l>>), es) EXCEPT !.l = l, !.n = distinct]
    IN IF c = "s" THEN fn("MAX", "max", <<arg("s")>>, FALSE)
       ELSE CASE r = 0 -> fn("COUNT", "count", <<>>, FALSE)
              [] r = 1 -> fn("COUNT", "count", <<arg(Pick(s, 65, <<"n", "s", "n", "b">>))>>, FALSE)
              [] r = 2 -> fn("COUNT", "count", <<arg("n")>>, TRUE)
              [] r = 3 -> fn("SUM", "sum", <<arg("n")>>, TRUE)
              [] r = 4 -> fn("MAX", "max", <<arg("n")>>, FALSE)
              [] r = 5 -> E("call", Idents(s, env, <<"m">>), <<arg("n")>>)
              [] OTHER -> fn("SUM", "sum", <<arg("n")>>, FALSE)
CaseG(s, env, c, d) ==
    LET simple == P(s, 51, 2) = 0
        k == 1 + P(s, 52, 2)
        cl == Pick(s, 53, <<"n", "s">>)
        sub(j, t) == Ex(Child(s, 540 + j), env, t, d - 1)
        whens == Flat([j \in 1..k |-> <<IF simple THEN sub(2 * j, cl) ELSE sub(2 * j, "b"), sub(2 * j + 1, c)>>])
    IN E("case", IF simple THEN "simple" ELSE "searched", (IF simple THEN <<sub(0, cl)>> ELSE <<>>) \o whens \o (IF P(s, 55, 2) = 0 THEN <<sub(20, c)>> ELSE <<>>))
\* built-in functions and the like
CallG(s, env, c, d) ==
    LET sub(j, t) == Ex(Child(s, 10 + j), env, t, d - 1)
        b(x, es) == E("built", x, es)
        r == P(s, 1, 12)
        odd == E("odd", Pick(s, 2, <<"next", "convert", "translate", "trim", "trim2", "array">>), <<sub(1, "s")>>)
        field == Pick(s, 3, FieldsG)
        fit == SelectSeq(FieldsG, LAMBDA f : Pick(s, 5, Temporal) \in Field[f].ys)
    IN IF P(s, 4, 40) = 0 THEN odd
       ELSE CASE c = "n" ->
                (CASE r \in {0, 1} -> b(Pick(s, 6, <<"CHAR_LENGTH", "CHARACTER_LENGTH", "OCTET_LENGTH", "LENGTH", "CARDINALITY">>), <<sub(1, "s")>>)
                  [] r \in {2, 3} -> b(Pick(s, 6, <<"ABS", "ABS", "CEIL", "FLOOR">>), <<sub(1, "n")>>)
                  [] r = 4 -> b("MOD", <<sub(1, "n"), sub(2, "n")>>)
                  [] r = 5 -> b("POSITION", <<sub(1, "s"), sub(2, "s")>>)
                  [] OTHER -> LET o == IF P(s, 7, 3) = 0 THEN E("cast", Pick(s, 5, Temporal), <<sub(1, "s")>>) ELSE sub(1, IF P(s, 8, 30) = 0 THEN "n" ELSE "d")
                                  f == IF o.k = "cast" /\ o.x = Pick(s, 5, Temporal) /\ P(s, 8, 8) # 0 THEN Pick(s, 9, fit) ELSE field
                              IN [E("extract", f, <<o>>) EXCEPT !.l = IF f \in Precise THEN Pick(s, 20, <<"", "0", "3", "9", "12", "*">>) ELSE ""])
         [] c = "s" ->
                (CASE r < 4 -> b(Pick(s, 6, <<"UPPER", "LOWER">>), <<sub(1, "s")>>)
                  [] r \in 4..7 -> b("SUBSTRING", <<sub(1, "s"), sub(2, "n")>> \o (IF P(s, 21, 2) = 0 THEN <<sub(3, "n")>> ELSE <<>>))
                  [] OTHER -> b("OVERLAY", <<sub(1, "s"), sub(2, "s"), sub(3, "n")>> \o (IF P(s, 21, 2) = 0 THEN <<sub(4, "n")>> ELSE <<>>)))
         [] OTHER ->
                (CASE r < 3 -> b("CURRENT_DATE", <<>>)
                  [] r \in 3..7 -> b(Pick(s, 6, <<"CURRENT_TIME", "LOCALTIME", "CURRENT_TIMESTAMP", "LOCALTIMESTAMP">>), IF P(s, 21, 3) = 0 THEN <<sub(1, "n")>> ELSE <<>>)
                  [] OTHER -> E("extract", Pick(s, 22, <<"date", "today", "tosecond">>), <<sub(1, "d")>>))
Ex(s, env, c, d) ==
    LET sub(j, t) == Ex(Child(s, 10 + j), env, t, d - 1)
        r == P(s, 1, 14)
        query(t) == QueryG(Child(s, 3), Deeper(env), <<t>>, d - 2)
        many == [j \in 1..(1 + P(s, 4, 3)) |-> sub(j + 2, c)]
        plainOperand == LET e == sub(1, c) IN IF e.k = "lit" \/ e.k = "pre" THEN E("bin", "+", <<e, sub(2, c)>>) ELSE e
    IN IF env.agg /\ c \in {"n", "s"} /\ P(s, 2, 3) = 0 THEN SetG(Child(s, 5), env, c, d)
       ELSE IF d <= 0 THEN Leafs(s, env, c)
       ELSE IF c = "d" THEN (IF r < 4 THEN Leafs(s, env, c) ELSE IF r < 6 THEN E("cast", Pick(s, 6, Temporal), <<sub(1, Pick(s, 8, <<"s", "d">>))>>) ELSE IF r = 6 THEN E("coalesce", "", many) ELSE CallG(Child(s, 7), env, c, d))
       ELSE IF c \in {"n", "s"} /\ P(s, 11, IF Focus = "calls" THEN 2 ELSE 14) = 0 THEN CallG(Child(s, 12), env, c, d)
       ELSE IF c = "n" THEN
            CASE r \in {0, 1, 2} -> E("bin", Pick(s, 6, <<"+", "-", "*", "/", "%">>), <<sub(1, "n"), sub(2, "n")>>)
              [] r = 3 -> E("pre", Pick(s, 6, <<"-", "+">>), <<plainOperand>>)
              [] r = 4 -> CaseG(Child(s, 7), env, c, d)
              [] r = 5 -> E("coalesce", "", many \o <<sub(9, c)>>)
              [] r = 6 -> E("nullif", "", <<sub(1, c), sub(2, c)>>)
              [] r = 7 -> E("cast", Pick(s, 6, <<"int4", "int8">>), <<sub(1, Pick(s, 8, <<"n", "s">>))>>)
              [] r = 8 -> E("call", Idents(s, env, Pick(s, 6, <<<<"f">>, <<"f">>, <<"p", "f">>, <<"s", "f">>, <<"c", "p", "f">>, <<"g">>, <<"q">>, <<"y", "f">>>>)), <<sub(1, c)>>)
              [] r = 9 -> E("call", Idents(s, env, Pick(s, 6, <<<<"g">>, <<"p", "g">>, <<"e">>, <<"p", "e">>>>)), <<sub(1, c), sub(2, c)>>)
              [] r = 10 -> E("call", Idents(s, env, <<"z">>), <<>>)
              [] r \in {11, 12} /\ d > 1 -> [E("query", "", <<>>) EXCEPT !.q = query(c)]
              [] OTHER -> Leafs(s, env, c)
       ELSE IF c = "s" THEN
            CASE r \in {0, 1, 2} -> E("bin", "||", <<sub(1, c), sub(2, c)>>)
              [] r = 3 -> CaseG(Child(s, 7), env, c, d)
              [] r = 4 -> E("coalesce", "", many)
              [] r = 5 -> E("cast", "varchar", <<sub(1, Pick(s, 8, <<"n", "s">>))>>)
              [] r = 6 -> E("call", Idents(s, env, Pick(s, 6, <<<<"f">>, <<"s", "f">>, <<"o", "g">>, <<"p", "f">>>>)), <<sub(1, c)>>)
              [] r = 7 /\ d > 1 -> [E("query", "", <<>>) EXCEPT !.q = query(c)]
              [] OTHER -> Leafs(s, env, c)
       ELSE LET cl == Pick(s, 9, <<"n", "n", "s">>) IN
            CASE r \in {0, 1, 2} -> E("cmp", CompareG(s), LET t == IF Focus = "calls" /\ P(s, 13, 3) = 0 THEN "d" ELSE cl IN <<sub(1, t), sub(2, t)>>)
              [] r = 3 -> Not_(s, E("is", Pick(s, 6, <<"NULL">>), <<sub(1, cl)>>))
              [] r = 4 -> Not_(s, E("is", Pick(s, 6, <<"TRUE", "FALSE", "UNKNOWN">>), <<sub(1, "b")>>))
              [] r = 5 -> Not_(s, E("between", Pick(s, 6, <<"", "", "ASYMMETRIC", "SYMMETRIC">>), <<sub(1, cl), sub(2, cl), sub(3, cl)>>))
              [] r = 6 -> Not_(s, E("in", "", <<sub(1, cl)>> \o [j \in 1..(1 + P(s, 4, 3)) |-> sub(j + 2, cl)]))
              [] r = 7 -> Not_(s, E("like", "", <<sub(1, "s"), sub(2, "s")>> \o (IF P(s, 6, 3) = 0 THEN <<sub(3, "s")>> ELSE <<>>)))
              [] r \in {8, 9} -> E("bin", Pick(s, 6, <<"AND", "OR">>), <<sub(1, "b"), sub(2, "b")>>)
              [] r = 10 -> E("pre", "NOT", <<sub(1, "b")>>)
              [] r = 11 /\ d > 1 -> [E("exists", "", <<>>) EXCEPT !.q = QueryG(Child(s, 3), Deeper(env), <<>>, d - 2)]
              [] r = 12 /\ d > 1 -> [Not_(s, E("inq", "", <<sub(1, cl)>>)) EXCEPT !.q = query(cl)]
              [] r = 13 /\ d > 1 -> [E("quantified", <<CompareG(s), Pick(s, 6, <<"ALL", "ANY", "SOME">>)>>, <<sub(1, cl)>>) EXCEPT !.q = query(cl)]
              [] OTHER -> IF P(s, 6, 3) = 0 THEN Leafs(s, env, "b") ELSE E("cmp", CompareG(s), <<Leafs(Child(s, 1), env, cl), Leafs(Child(s, 2), env, cl)>>)

\* ---------------------------------------------------------------- tables
\* g: [t, cols]
AsG(s, env, n, cols) ==
    LET k == Len(cols)
        names == <<"a", "b", "c", "d", "x", "y">>
        m == IF k = 0 THEN 0 ELSE IF P(s, 43, 12) = 0 THEN k + 1 ELSE IF P(s, 43, 12) = 1 THEN 1 ELSE k
        list == IF P(s, 44, 3) # 0 \/ m > 6 THEN <<>> ELSE [j \in 1..m |-> IF P(s, 46, 20) = 0 THEN names[1] ELSE names[((P(s, 45, 6) + j) % 6) + 1]]
    IN [c |-> [as |-> P(s, 41, 2) = 0, n |-> Ident(Child(s, 42), env, n), cols |-> Idents(Child(s, 47), env, list)],
        cols |-> [j \in 1..(IF list = <<>> THEN k ELSE IF Len(list) < k THEN Len(list) ELSE k) |-> [q |-> <<n>>, n |-> IF list = <<>> THEN cols[j].n ELSE list[j], y |-> cols[j].y]]]
\* about what columns a query has: names and types
RECURSIVE Guess(_), Outs(_, _)
Guess(e) == CASE e.k = "lit" -> IF e.x \in {"s1", "s0"} THEN "varchar" ELSE IF e.x \in {"t", "f"} THEN "boolean" ELSE "int8"
              [] e.k \in {"cmp", "is", "between", "in", "inq", "like", "exists", "quantified"} \/ (e.k = "pre" /\ e.x = "NOT") \/ (e.k = "bin" /\ e.x \in {"AND", "OR"}) -> "boolean"
              [] e.k = "bin" /\ e.x = "||" -> "varchar"
              [] e.k = "cast" -> e.x
              [] e.k \in {"coalesce", "case"} -> Guess(Last(e.es))
              [] OTHER -> "int8"
Outs(env, q) ==
    CASE q.k = "select" -> Flat([j \in DOMAIN q.els |-> IF q.els[j].k # "col" THEN <<>> ELSE
                                <<[n |-> IF q.els[j].n # <<>> THEN q.els[j].n[1].t ELSE IF q.els[j].e.k = "var" THEN Last(q.els[j].e.x).t ELSE "", y |-> Guess(q.els[j].e)]>>])
      [] q.k = "values" -> [j \in DOMAIN q.rows[1] |-> [n |-> "", y |-> Guess(q.rows[1][j])]]
      [] q.k = "set" -> Outs(env, q.l)
      [] q.k = "with" -> Outs(env, q.q)
      [] OTHER -> LET ts == SelectSeq(env.w.tables, LAMBDA t : t.n = Last(q.nm).t) IN IF ts = <<>> THEN <<>> ELSE LET cs == SelectSeq(ts[1].cols, LAMBDA c : ~c.hid) IN [j \in DOMAIN cs |-> [n |-> cs[j].n, y |-> cs[j].y]]
Shown1(t) == SelectSeq(t.cols, LAMBDA c : ~c.hid)
RefG(s, env, d) ==
    LET r == P(s, 31, 10)
        n == Len(env.w.tables)
        t == Pick(s, 32, env.w.tables)
        t1 == IF t.pk = "-" /\ P(s, 33, 5) # 0 THEN env.w.tables[1] ELSE t
        al == Pick(s, 34, <<"x", "y", "t", "u">>)
        qualified == t1.s = "o" \/ P(s, 35, 3) = 0
        base == [j \in DOMAIN Shown1(t1) |-> [q |-> IF qualified /\ P(s, 36, 4) = 0 THEN <<t1.s, t1.n>> ELSE <<t1.n>>, n |-> Shown1(t1)[j].n, y |-> Shown1(t1)[j].y]]
        nm == IF P(s, 37, 60) = 0 THEN Pick(s, 38, <<<<"k">>, <<"p", "k">>, <<"k", "t">>, <<"h", "p", "t">>>>) ELSE IF qualified THEN (IF P(s, 38, 6) = 0 THEN <<"c", t1.s, t1.n>> ELSE <<t1.s, t1.n>>) ELSE <<t1.n>>
        as == AsG(Child(s, 39), env, al, base)
        named(nm1, cols) == LET a == AsG(Child(s, 39), env, al, cols) IN
            IF P(s, 40, 2) = 0 THEN [t |-> [k |-> "ref", nm |-> Idents(Child(s, 50), env, nm1), as |-> <<a.c>>], cols |-> a.cols]
            ELSE [t |-> [k |-> "ref", nm |-> Idents(Child(s, 50), env, nm1), as |-> <<>>], cols |-> cols]
    IN IF env.ctes # <<>> /\ r < 5 THEN LET q == Pick(s, 48, env.ctes) IN named(<<q.n>>, [j \in DOMAIN q.cols |-> [q |-> <<q.n>>, n |-> q.cols[j].n, y |-> q.cols[j].y]])
       ELSE IF r >= 8 /\ d > 0
       THEN LET q == QueryG(Child(s, 49), [env EXCEPT !.outer = <<>>, !.cols = <<>>, !.inner = <<>>, !.agg = FALSE], <<>>, d - 1)
                a == AsG(Child(s, 39), env, al, Outs(env, q))
            IN [t |-> [k |-> "sub", q |-> q, as |-> <<a.c>>], cols |-> a.cols]
       ELSE named(nm, base)
RECURSIVE JoinG(_, _, _)
\* a table function for every row of a table
ApplyG(s, env, d) ==
    LET l == JoinG(Child(s, 1), env, d - 1)
        seen == [env EXCEPT !.cols = IF P(s, 2, 9) = 0 THEN l.cols \o env.before ELSE l.cols, !.many = TRUE, !.inner = l.cols, !.agg = P(s, 3, 40) = 0]
        arg(j, c) == Ex(Child(s, 10 + j), seen, c, IF P(s, 14 + j, 3) = 0 THEN 1 ELSE 0)
        r == P(s, 4, 12)
        ab == <<Cl("a", "int8"), Cl("b", "varchar")>>
        x == CASE r < 4 -> [f |-> <<"v">>, es |-> <<arg(1, "n")>>, cs |-> IF P(s, 5, 2) = 0 THEN ab ELSE <<Cl("a", "int4"), Cl("a", "int4"), Cl("d", "boolean")>>]
               [] r \in {4, 5} -> [f |-> <<"v">>, es |-> <<arg(1, "s")>>, cs |-> <<Cl("c", "varchar")>>]
               [] r = 6 -> [f |-> <<"v">>, es |-> <<arg(1, "n"), arg(2, "n")>>, cs |-> <<Cl("a", "int8"), Cl("b", "int4")>>]
               [] r = 7 -> [f |-> <<"v">>, es |-> <<>>, cs |-> <<Cl("x", "int8"), Cl("y", "varchar")>>]
               [] r = 8 -> [f |-> Pick(s, 6, <<<<"o", "v">>, <<"p", "v">>, <<"c", "o", "v">>, <<"y", "v">>>>), es |-> <<arg(1, "n")>>, cs |-> <<Cl("u", "int8")>>]
               [] r = 9 -> [f |-> Pick(s, 6, <<<<"f">>, <<"w">>, <<"i">>, <<"g">>, <<"q">>, <<"p", "w">>>>), es |-> <<arg(1, "n")>>, cs |-> <<Cl("x", "int8")>>]
               [] r = 10 -> [f |-> Pick(s, 6, <<<<"z">>, <<"p", "z">>, <<"i">>>>), es |-> <<>>, cs |-> <<Cl("x", "int8")>>]
               [] OTHER -> [f |-> <<"v">>, es |-> <<arg(1, "n")>>, cs |-> ab]
        a == AsG(Child(s, 7), env, Pick(s, 8, <<"x", "y", "d">>), x.cs)
    IN [t |-> [k |-> "apply", l |-> l.t, y |-> Pick(s, 9, <<"", "cross", "outer">>), f |-> Idents(Child(s, 20), env, x.f), es |-> x.es, as |-> a.c], cols |-> l.cols \o a.cols]
JoinG(s, env, d) ==
    IF d > 0 /\ P(s, 20, IF Focus = "calls" THEN 3 ELSE 12) = 0 THEN ApplyG(Child(s, 17), env, d)
    ELSE IF P(s, 21, 3) # 0 \/ d <= 0 THEN RefG(s, env, d)
    ELSE LET l == JoinG(Child(s, 22), env, d - 1)
             r == IF P(s, 23, 4) = 0 THEN JoinG(Child(s, 24), env, d - 1) ELSE RefG(Child(s, 24), env, d - 1)
             y == IF P(s, 25, 40) = 0 THEN Pick(s, 26, <<"natural", "union">>) ELSE Pick(s, 26, <<"cross", "inner", "inner2", "left", "left2", "right", "full">>)
             common == ({x.n : x \in Range(l.cols)} \cap {x.n : x \in Range(r.cols)}) \ {""}
             by == CASE y \in {"cross", "natural", "union"} -> "" [] common # {} /\ P(s, 27, 2) = 0 -> "using" [] OTHER -> "on"
             cols == l.cols \o r.cols
             used == LET q == SetToSeq(common) IN IF P(s, 28, 20) = 0 THEN <<"k">> ELSE IF Len(q) > 1 /\ P(s, 29, 2) = 0 THEN <<q[2], q[1]>> ELSE <<q[1]>>
         IN [t |-> [k |-> "join", l |-> l.t, r |-> r.t, y |-> y, by |-> by, cols |-> IF by = "using" THEN Idents(Child(s, 30), env, used) ELSE <<>>,
                    on |-> IF by = "on" THEN <<Ex(Child(s, 30), [env EXCEPT !.cols = IF P(s, 18, 8) = 0 THEN cols \o env.before ELSE cols, !.many = TRUE, !.agg = P(s, 19, 40) = 0, !.inner = cols], "b", 1)>> ELSE <<>>],
             cols |-> cols]

\* ---------------------------------------------------------------- queries
SelectG(s, env, cs, d) ==
    LET k == IF P(s, 101, 12) = 0 /\ cs # <<>> THEN 0 ELSE IF P(s, 101, 12) < 3 THEN 2 ELSE 1
        bare == [env EXCEPT !.cols = <<>>, !.inner = <<>>, !.before = <<>>]
        first == JoinG(Child(s, 111), bare, d)
        fs == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<first>> ELSE <<first, JoinG(Child(s, 112), [bare EXCEPT !.before = first.cols], d)>>
        cols == Flat([j \in 1..k |-> fs[j].cols])
        base == [env EXCEPT !.cols = cols, !.many = k > 1 \/ (k = 1 /\ fs[1].t.k # "ref"), !.inner = cols, !.agg = FALSE]
        keyed == P(s, 102, Grouping) = 0 /\ cols # <<>>
        loose == ~keyed /\ P(s, 99, Grouping + 3) = 3
        named == SelectSeq(cols, LAMBDA x : x.n # "")
        keys == IF ~keyed \/ named = <<>> THEN <<>> ELSE IF P(s, 103, 3) = 0 THEN <<Pick(s, 104, named), Pick(s, 105, named)>> ELSE <<Pick(s, 104, named)>>
        group == [j \in DOMAIN keys |-> IF P(s, 106 + j, 40) = 0 THEN Ex(Child(s, 120 + j), base, "n", 1) ELSE E("var", NameG(Child(s, 120 + j), base, keys[j]), <<>>)]
        over == IF keys # <<>> \/ loose THEN [base EXCEPT !.cols = IF P(s, 108, 10) = 0 THEN cols ELSE keys, !.agg = TRUE] ELSE base
        classes == IF cs # <<>> THEN cs ELSE [j \in 1..(1 + P(s, 109, 3)) |-> Pick(s, 130 + j, <<"n", "n", "s", "b">>)]
        e(j) == LET x == IF loose THEN SetG(Child(s, 140 + j), over, IF classes[j] = "s" THEN "s" ELSE "n", d + 1) ELSE Ex(Child(s, 140 + j), over, classes[j], IF P(s, 150 + j, 3) = 0 THEN d + 1 ELSE 0)
                    star == cs = <<>> /\ k > 0 /\ (Len(classes) = 1 \/ (cols # <<>> /\ Pick(s, 170 + j, cols).q # <<>>)) /\ ~loose /\ P(s, 160 + j, IF keyed THEN 12 ELSE 5) = 0
                    rel == IF cols = <<>> THEN <<>> ELSE Pick(s, 170 + j, cols).q
                IN IF star THEN (IF Len(classes) = 1 /\ (rel = <<>> \/ P(s, 180 + j, 2) = 0) THEN [k |-> "all"] ELSE [k |-> "each", nm |-> Idents(Child(s, 190 + j), env, IF P(s, 195 + j, 20) = 0 THEN <<"k">> ELSE rel)])
                   ELSE [k |-> "col", e |-> x, as |-> P(s, 200 + j, 2) = 0, n |-> IF P(s, 205 + j, 2) = 0 THEN <<Ident(Child(s, 210 + j), env, <<"a", "b", "x", "y", "c">>[P(s, 215 + j, 5) + 1])>> ELSE <<>>]
        order == IF d < 0 \/ P(s, 220, 4) # 0 \/ env.operand THEN <<>> ELSE [j \in 1..(1 + P(s, 221, 2)) |->
                    [e |-> IF P(s, 230 + j, 30) = 0 THEN LitG(s, "n") ELSE LET x == Ex(Child(s, 240 + j), over, "n", IF P(s, 250 + j, 3) = 0 THEN 1 ELSE 0) IN IF x.k = "lit" THEN [x EXCEPT !.k = "bin", !.x = "+", !.es = <<x, x>>] ELSE x,
                     d |-> Pick(s, 260 + j, <<<<>>, <<"ASC">>, <<"DESC">>>>), nulls |-> IF P(s, 270 + j, 40) = 0 THEN <<"NULLS", "FIRST">> ELSE <<>>]]
    IN [k |-> "select", y |-> Pick(s, 280, <<"none", "none", "none", "all", "distinct">>), els |-> [j \in DOMAIN classes |-> e(j)], from |-> [j \in 1..k |-> fs[j].t],
        where |-> IF k > 0 /\ P(s, 281, 2) = 0 THEN <<Ex(Child(s, 282), [base EXCEPT !.agg = P(s, 283, 40) = 0], "b", d + 1)>> ELSE <<>>,
        group |-> group,
        having |-> IF keys # <<>> /\ P(s, 284, 3) = 0 THEN <<Ex(Child(s, 285), over, "b", 2)>> ELSE <<>>,
        order |-> IF k = 0 THEN <<>> ELSE order,
        limit |-> IF k = 0 \/ env.operand \/ P(s, 286, 6) # 0 THEN <<>> ELSE <<IF P(s, 287, 12) = 0 THEN Ex(Child(s, 288), base, Pick(s, 289, <<"n", "s">>), 0) ELSE LitG(s, "n")>>]
ValuesG(s, env, cs) ==
    LET classes == IF cs # <<>> THEN cs ELSE [j \in 1..(1 + P(s, 301, 3)) |-> Pick(s, 302 + j, <<"n", "s", "b">>)]
    IN [k |-> "values", rows |-> [j \in 1..(1 + P(s, 306, 2)) |-> [i \in DOMAIN classes |-> IF P(s, 310 + 5 * j + i, 4) = 0 THEN Ex(Child(s, 330 + 5 * j + i), [env EXCEPT !.agg = P(s, 309, 60) = 0, !.inner = <<>>, !.cols = <<>>], classes[i], 1) ELSE LitG(Child(s, 350 + 5 * j + i), classes[i])]]]
RECURSIVE WithG(_, _, _, _, _)
WithG(s, env, d, j, els) ==
    IF j > 1 + P(s, 401, 2) THEN [els |-> els, env |-> env]
    ELSE LET q == QueryG(Child(s, 410 + j), [env EXCEPT !.outer = <<>>, !.cols = <<>>], <<>>, d - 1)
             n == Pick(s, 420 + j, <<"x", "y", "t">>)
             outs == Outs(env, q)
             list == IF P(s, 430 + j, 3) = 0 THEN [i \in 1..(IF P(s, 440 + j, 10) = 0 THEN Len(outs) + 1 ELSE Len(outs)) |-> IF P(s, 445 + j, 15) = 0 THEN "a" ELSE <<"a", "b", "c", "d", "x", "y">>[(i % 6) + 1]] ELSE <<>>
             cols == [i \in DOMAIN outs |-> [n |-> IF list = <<>> THEN outs[i].n ELSE list[i], y |-> outs[i].y]]
         IN WithG(s, [env EXCEPT !.ctes = Append(@, [n |-> n, cols |-> cols])], d, j + 1,
                  Append(els, [n |-> Ident(Child(s, 450 + j), env, n), cols |-> Idents(Child(s, 460 + j), env, list), q |-> q]))
QueryG(s, env, cs, d) ==
    LET r == P(s, 500, 20)
        many == IF cs # <<>> THEN cs ELSE [j \in 1..(1 + P(s, 501, 2)) |-> Pick(s, 502 + j, <<"n", "s", "n">>)]
        operand(i) == LET e == [env EXCEPT !.operand = TRUE] c == IF P(s, 505 + i, 30) = 0 THEN Append(many, "n") ELSE many
                      IN IF P(s, 510 + i, 6) = 0 THEN ValuesG(Child(s, 520 + i), e, c) ELSE IF d > 0 /\ P(s, 510 + i, 6) = 1 THEN QueryG(Child(s, 520 + i), e, c, d - 1) ELSE SelectG(Child(s, 520 + i), e, c, d - 1)
    IN CASE r \in {0, 1} /\ d >= 0 -> [k |-> "set", x |-> Pick(s, 530, <<"union", "difference", "intersection">>), y |-> Pick(s, 531, <<"none", "distinct", "all">>), l |-> operand(1), r |-> operand(2)]
         [] r = 2 /\ cs = <<>> -> LET t == Pick(s, 540, env.w.tables) IN [k |-> "table", nm |-> Idents(s, env, IF t.s = "o" \/ P(s, 541, 3) = 0 THEN <<t.s, t.n>> ELSE IF P(s, 542, 30) = 0 THEN <<"k">> ELSE <<t.n>>)]
         [] r = 3 -> ValuesG(s, [env EXCEPT !.operand = FALSE], cs)
         [] r \in {4, 5} /\ d > 0 /\ ~env.operand ->
                LET x == WithG(s, env, d, 1, <<>>) IN [k |-> "with", rec |-> P(s, 550, 40) = 0, els |-> x.els, q |-> SelectG(Child(s, 551), x.env, cs, d - 1)]
         [] OTHER -> SelectG(s, env, cs, d)
=============================================================================
