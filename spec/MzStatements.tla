---------------------------- MODULE MzStatements ----------------------------
(***************************************************************************)
(* Statements over catalogs drawn at random, with their meaning by         *)
(* MzStatement.                                                            *)
(***************************************************************************)
EXTENDS MzDraw, MzStatement, Json, CSV, IOUtils
CONSTANTS OutFile, Chains, Steps, Seed0

\* ---------------------------------------------------------------- worlds with other indexes, and settings
WorldS(s) ==
    LET w == WorldG(s)
        extra == Flat([j \in DOMAIN w.tables |-> IF P(s, 700 + j, 3) = 0 THEN <<[s |-> w.tables[j].s, t |-> w.tables[j].n, n |-> Pick(s, 720 + j, <<"i", "j", "k">>) \o w.tables[j].n, keys |-> <<[n |-> Last(Shown1(w.tables[j])).n, d |-> "+"]>>]>> ELSE <<>>])
        more(d) == {x.n : x \in {y \in Range(extra) : y.s = w.schemas[d].name}}
        opts == Maybe(s, 740, 2, "w") \o Maybe(s, 741, 2, "c")
    IN [schemas |-> [d \in DOMAIN w.schemas |-> [w.schemas[d] EXCEPT !.idx = @ \cup more(d)]], idx |-> extra, opts |-> opts] @@ w

\* ---------------------------------------------------------------- parts of statements
Wide(t) == [j \in DOMAIN Shown1(t) |-> Class(Shown1(t)[j].y)]
Named3(s, env, t) == Idents(Child(s, 750), env, IF P(s, 751, 30) = 0 THEN Pick(s, 752, <<<<"k">>, <<"p", "k">>, <<"h", "t">>, <<"h", "p", "t">>>>)
                                                ELSE IF t.s = "o" \/ P(s, 753, 3) = 0 THEN (IF P(s, 754, 6) = 0 THEN <<"c", t.s, t.n>> ELSE <<t.s, t.n>>) ELSE <<t.n>>)
TableD(s, env) == LET t == Pick(s, 755, env.w.tables) IN IF t.pk # "keys" /\ P(s, 756, 5) # 0 THEN env.w.tables[1] ELSE t
ColsOf(t, n) == [j \in DOMAIN Shown1(t) |-> [q |-> <<n>>, n |-> Shown1(t)[j].n, y |-> Shown1(t)[j].y]]
Scoped(env, cols) == [env EXCEPT !.cols = cols, !.inner = cols]
\* a list of column names in some order
RECURSIVE Shuffled(_, _)
Shuffled(s, xs) == IF xs = <<>> THEN <<>> ELSE LET j == P(s, 757, Len(xs)) + 1 IN <<xs[j]>> \o Shuffled(Child(s, 758), SubSeq(xs, 1, j - 1) \o SubSeq(xs, j + 1, Len(xs)))
InsertG(s, env) ==
    LET t == TableD(s, env)
        order == IF P(s, 760, 3) = 0 THEN SelectSeq(Shuffled(s, Shown1(t)), LAMBDA c : P(s, 761, 4) # 0 \/ c.n # Shown1(t)[1].n) ELSE Shown1(t)
        listed == P(s, 762, 2) = 0 /\ order # <<>>
        names == [j \in DOMAIN order |-> IF P(s, 770 + j, 50) = 0 THEN "h" ELSE IF P(s, 770 + j, 50) = 1 THEN order[1].n ELSE order[j].n]
        base == IF listed THEN [j \in DOMAIN order |-> Class(order[j].y)] ELSE Wide(t)
        classes == IF P(s, 763, 25) = 0 THEN Append(base, "n") ELSE base
        source == IF P(s, 764, 12) = 0 THEN <<>>
                  ELSE IF P(s, 765, 3) = 0 THEN <<QueryG(Child(s, 766), env, classes, 1)>>
                  ELSE IF P(s, 765, 30) = 1 THEN <<[k |-> "table", nm |-> Named3(Child(s, 767), env, Pick(s, 768, env.w.tables))]>>
                  ELSE <<ValuesG(Child(s, 769), env, classes)>>
    IN [k |-> "insert", how |-> Pick(s, 780, <<"none", "none", "none", "replace", "ignore", "absent", "upsert">>), nm |-> Named3(s, env, t), cols |-> IF listed THEN Idents(Child(s, 781), env, names) ELSE <<>>, q |-> source]
ChangeG(s, env, k) ==
    LET t == TableD(s, env)
        as == Maybe(s, 790, 3, Pick(s, 791, <<"x", "y", "t">>))
        cols == ColsOf(t, IF as = <<>> THEN t.n ELSE as[1])
        own == [Scoped(env, cols) EXCEPT !.agg = P(s, 792, 20) = 0]
        targets == LET x == Shuffled(Child(s, 793), Shown1(t)) IN SubSeq(x, 1, 1 + P(s, 794, Len(x)))
        set(j) == LET n == IF P(s, 800 + j, 60) = 0 THEN <<"h">> ELSE IF P(s, 800 + j, 60) = 1 THEN <<targets[1].n>> ELSE IF P(s, 800 + j, 60) = 2 THEN <<t.n, targets[j].n>> ELSE <<targets[j].n>>
                  IN [n |-> Idents(Child(s, 810 + j), env, n), e |-> Ex(Child(s, 820 + j), own, Class(targets[j].y), P(s, 830 + j, 3))]
    IN [k |-> k, nm |-> Named3(s, env, t), as |-> [j \in DOMAIN as |-> Ident(Child(s, 840), env, as[j])], asw |-> P(s, 841, 2) = 0,
        sets |-> IF k = "delete" THEN <<>> ELSE [j \in DOMAIN targets |-> set(j)],
        where |-> IF P(s, 842, 3) = 0 THEN <<>> ELSE <<Ex(Child(s, 843), [own EXCEPT !.agg = P(s, 844, 30) = 0], "b", 1 + P(s, 845, 3))>>]

\* ---------------------------------------------------------------- definitions
AmountG(s, env, lo, hi) ==
    CASE P(s, 850, 14) = 0 -> [k |-> "expr", e |-> Pick(s, 851, <<LitG(s, "s"), LitG(s, "b"), E("lit", "u", <<>>), E("bin", "+", <<LitG(s, "n"), LitG(s, "n")>>), E("call", <<Plain("z")>>, <<>>), E("var", <<Plain("a")>>, <<>>)>>), n |-> 1]
      [] P(s, 850, 14) = 1 -> [k |-> "half", e |-> <<>>, n |-> 5 + P(s, 852, 6)]
      [] P(s, 850, 14) = 2 -> [k |-> "point", e |-> <<>>, n |-> Pick(s, 853, <<4, 5, 6, 7, 8, 9, 10, 11>>)]
      [] P(s, 850, 14) < 7 -> [k |-> "int", e |-> <<>>, n |-> 1 + P(s, 854, Len(Numbers))]
      [] OTHER -> [k |-> "int", e |-> <<>>, n |-> lo + P(s, 855, hi - lo + 1)]
OptionG(s, env, g) ==
    LET k == CASE g = "min" /\ P(s, 860, 5) = 0 -> "nomin" [] g = "max" /\ P(s, 860, 5) = 0 -> "nomax" [] g = "cycle" /\ P(s, 860, 2) = 0 -> "nocycle" [] OTHER -> g
        o(a) == [k |-> k, w |-> P(s, 861, 2) = 0, a |-> a]
    IN CASE k = "start" -> o(AmountG(Child(s, 862), env, 8, 10))
         [] k = "increment" -> o(AmountG(Child(s, 862), env, 5, 9))
         [] k = "min" -> o(AmountG(Child(s, 862), env, 5, 9))
         [] k = "max" -> o(AmountG(Child(s, 862), env, 8, 12))
         [] OTHER -> o(<<>>)
C0 == [k |-> "", named |-> FALSE, e |-> <<>>, always |-> FALSE, os |-> <<>>, keys |-> <<>>, inc |-> <<>>, with |-> FALSE]
KeyG(s, env, n) == [e |-> IF P(s, 870, 25) = 0 THEN Ex(Child(s, 871), env, "n", 1) ELSE E("var", NameG(Child(s, 872), env, n), <<>>),
                    d |-> Pick(s, 873, <<<<>>, <<"ASC">>, <<"DESC">>>>), nulls |-> IF P(s, 874, 40) = 0 THEN <<"NULLS", Pick(s, 875, <<"FIRST", "LAST">>)>> ELSE <<>>]
KeysG(s, env, cols) ==
    LET x == SubSeq(Shuffled(Child(s, 876), cols), 1, 1 + P(s, 877, IF Len(cols) > 2 THEN 3 ELSE Len(cols)))
    IN [j \in DOMAIN x |-> KeyG(Child(s, 880 + j), env, IF P(s, 885 + j, 25) = 0 THEN x[1] ELSE x[j])]
ConstraintG(s, env, y, j) ==
    LET r == P(s, 890, 24)
        default == LET e == IF P(s, 891, 5) = 0 THEN Ex(Child(s, 892), [env EXCEPT !.cols = <<>>, !.agg = P(s, 893, 20) = 0], Class(y), 1 + P(s, 894, 2))
                            ELSE IF P(s, 891, 5) = 1 THEN E("call", Idents(s, env, Pick(s, 895, <<<<"z">>, <<"s", "z">>, <<"z">>>>)), <<>>)
                            ELSE IF P(s, 891, 25) = 2 THEN E("lit", "u", <<>>) ELSE LitG(s, IF Class(y) = "?" THEN "s" ELSE Class(y))
                   IN [C0 EXCEPT !.k = "default", !.e = <<IF P(s, 896, 8) = 0 THEN E("cast", Pick(s, 897, <<"int4", "int8", "varchar">>), <<e>>) ELSE e>>]
        base == CASE r < 6 -> default
                  [] r < 9 -> [C0 EXCEPT !.k = "notnull"]
                  [] r < 11 -> [C0 EXCEPT !.k = "null"]
                  [] r < 14 -> IF j = 1 \/ P(s, 898, 8) = 0 THEN [C0 EXCEPT !.k = "pk", !.inc = IF P(s, 899, 16) = 0 THEN <<E("var", <<Plain("a")>>, <<>>)>> ELSE <<>>, !.with = P(s, 900, 24) = 0] ELSE default
                  [] r < 21 -> [C0 EXCEPT !.k = "identity", !.always = P(s, 901, 2) = 0, !.os = [i \in 1..P(s, 902, 4) |-> OptionG(Child(s, 903 + i), env, Shuffled(s, <<"start", "increment", "min", "max", "cycle">>)[i])]]
                  [] r = 21 /\ P(s, 904, 3) = 0 -> [C0 EXCEPT !.k = Pick(s, 905, <<"unique", "check", "generated", "references">>), !.e = <<LitG(s, "b")>>]
                  [] OTHER -> [C0 EXCEPT !.k = "notnull"]
    IN [base EXCEPT !.named = P(s, 906, 10) = 0]
TableDefG(s, env) ==
    LET t == Pick(s, 910, env.w.tables)
        k == IF P(s, 912, 40) = 0 THEN 0 ELSE 1 + P(s, 911, 4)
        names == Shuffled(Child(s, 913), <<"a", "b", "c", "d", "x", "y">>)
        name(j) == IF j > 1 /\ P(s, 914 + j, 30) = 0 THEN names[1] ELSE names[j]
        type(j) == Pick(s, 920 + j, <<"int4", "int8", "int4", "int8", "varchar", "boolean", "date">>)
        col(j) == [k |-> "col", n |-> Ident(Child(s, 925 + j), env, name(j)), y |-> type(j), doc |-> IF P(s, 930 + j, 6) = 0 THEN Pick(s, 935 + j, <<"one", "two three">>) ELSE "",
                   cs |-> [i \in 1..P(s, 940 + j, 3) |-> ConstraintG(Child(s, 945 + 5 * j + i), env, type(j), j)]]
        cols == [j \in 1..k |-> col(j)]
        id == IF P(s, 970, 6) = 0 THEN <<t.n>> ELSE IF P(s, 970, 20) = 1 THEN <<"s", "x">> ELSE <<Pick(s, 971, <<"x", "y", "k", "x">>)>>
        \* NameG reads the columns by their qualifier
        own == Scoped(env, [j \in 1..k |-> [q |-> <<Last(id)>>, n |-> name(j), y |-> type(j)]])
        key == IF k > 0 /\ P(s, 972, 3) = 0 THEN <<[k |-> "con", c |-> [C0 EXCEPT !.k = IF P(s, 973, 12) = 0 THEN "unique" ELSE "pk", !.keys = KeysG(Child(s, 974), own, own.cols), !.named = P(s, 975, 5) = 0,
                                                    !.inc = IF P(s, 976, 20) = 0 THEN <<E("var", <<Plain("a")>>, <<>>), LitG(s, "n")>> ELSE <<>>, !.with = P(s, 977, 30) = 0]]>> ELSE <<>>
        check == IF P(s, 978, 40) = 0 THEN <<[k |-> "con", c |-> [C0 EXCEPT !.k = "check", !.e = <<LitG(s, "b")>>]]>> ELSE <<>>
        els == IF P(s, 979, 6) = 0 THEN key \o check \o cols ELSE cols \o check \o key \o (IF P(s, 980, 8) = 0 THEN key ELSE <<>>)
    IN [k |-> "table", doc |-> IF P(s, 981, 5) = 0 THEN Pick(s, 982, <<"all of it", "t">>) ELSE "", temp |-> P(s, 983, 40) = 0, absent |-> P(s, 984, 3) = 0, nm |-> Idents(Child(s, 985), env, id), els |-> els, with |-> P(s, 986, 50) = 0]
AnyIndex(s, w) == Pick(s, 990, IndexesOf(w))
NamedI(s, env, i) == Idents(Child(s, 991), env, IF P(s, 992, 30) = 0 THEN Pick(s, 993, <<<<"k">>, <<"p", "k">>, <<"h", "i">>>>) ELSE IF i.s = "o" \/ P(s, 994, 3) = 0 THEN <<i.s, i.n>> ELSE <<i.n>>)
IndexDefG(s, env) ==
    LET t == TableD(s, env)
        cols == ColsOf(t, t.n)
        n == IF P(s, 1000, 6) = 0 THEN <<>> ELSE IF P(s, 1000, 6) = 1 THEN NamedI(s, env, AnyIndex(s, env.w)) ELSE IF P(s, 1001, 30) = 0 THEN Idents(s, env, <<"s", "x">>) ELSE Idents(s, env, <<Pick(s, 1002, <<"x", "y", "k">>)>>)
    IN [k |-> "index", doc |-> IF P(s, 1003, 5) = 0 THEN "quick" ELSE "", unique |-> P(s, 1004, 30) = 0, absent |-> P(s, 1005, 3) = 0 /\ n # <<>>, n |-> n, nm |-> Named3(s, env, t), keys |-> KeysG(Child(s, 1006), Scoped(env, cols), cols),
        inc |-> IF P(s, 1007, 40) = 0 THEN <<LitG(s, "n")>> ELSE <<>>, with |-> P(s, 1008, 40) = 0, where |-> IF P(s, 1009, 40) = 0 THEN <<LitG(s, "b")>> ELSE <<>>]
AlterG(s, env) ==
    LET t == Pick(s, 1010, env.w.tables)
        i == AnyIndex(s, env.w)
        column == P(s, 1011, 3) # 0
        index == P(s, 1012, 4) = 0
        cols == <<t.cols[1].n>> \o [j \in DOMAIN t.cols |-> t.cols[j].n]
    IN [k |-> "alter", what |-> IF index THEN "INDEX" ELSE "TABLE", exists |-> P(s, 1013, 3) = 0, nm |-> IF index THEN NamedI(s, env, i) ELSE Named3(s, env, t),
        col |-> IF index \/ ~column THEN <<>> ELSE <<Ident(Child(s, 1014), env, IF P(s, 1015, 8) = 0 THEN "z" ELSE Pick(s, 1016, cols))>>, cexists |-> P(s, 1017, 3) = 0,
        to |-> Ident(Child(s, 1018), env, IF index THEN Pick(s, 1019, <<"x", "y", i.n, AnyIndex(Child(s, 1), env.w).n>>) ELSE IF column THEN Pick(s, 1019, <<"x", "y", "x", Pick(s, 1020, cols)>>) ELSE Pick(s, 1019, <<"x", "y", "k", "u", "v", t.n>>))]
DropG(s, env) ==
    LET what == IF P(s, 1030, 15) = 0 THEN Pick(s, 1031, <<"VIEW", "SEQUENCE">>) ELSE Pick(s, 1031, <<"TABLE", "INDEX">>)
    IN [k |-> "drop", what |-> what, exists |-> P(s, 1032, 2) = 0, nm |-> IF what = "INDEX" THEN NamedI(s, env, AnyIndex(s, env.w)) ELSE Named3(s, env, Pick(s, 1033, env.w.tables)), how |-> Pick(s, 1034, <<"", "", "", "", "RESTRICT", "RESTRICT", "CASCADE">>)]
UserG(s) == Pick(s, 1040, <<[k |-> "id", n |-> Plain("U")], [k |-> "id", n |-> Plain("u")], [k |-> "id", n |-> [t |-> "u", q |-> TRUE]], [k |-> "id", n |-> Plain("w")], [k |-> "public"], [k |-> "current"], IF P(s, 1041, 4) = 0 THEN [k |-> "all"] ELSE [k |-> "public"]>>)
PrivilegeG(s, env) ==
    [k |-> "privilege", how |-> Pick(s, 1050, <<"GRANT", "REVOKE">>), acts |-> IF P(s, 1051, 5) = 0 THEN <<"ALL">> ELSE [j \in 1..(1 + P(s, 1052, 3)) |-> Pick(s, 1053 + j, <<"SELECT", "INSERT", "UPDATE", "DELETE">>)],
     objs |-> [j \in 1..(1 + P(s, 1057, 3)) |-> [w |-> P(s, 1058 + j, 2) = 0, nm |-> Named3(Child(s, 1061 + j), env, Pick(s, 1064 + j, env.w.tables))]],
     users |-> [j \in 1..(1 + P(s, 1068, 4)) |-> UserG(Child(s, 1069 + j))]]
OtherG(s, env) ==
    [k |-> "other", ts |-> Pick(s, 1080, <<<<"CREATE", "VIEW", "x", "AS", "SELECT", "1">>, <<"CREATE", "SCHEMA", "x">>, <<"CREATE", "SEQUENCE", "x">>, <<"DROP", "SCHEMA", "x">>, <<"CREATE", "OR", "REPLACE", "VIEW", "x", "AS", "TABLE", "t">>>>)]
StatementG(s, env) ==
    LET r == P(s, 1090, 32)
    IN CASE r < 6 -> InsertG(s, env)
         [] r < 11 -> ChangeG(s, env, "update")
         [] r < 13 -> ChangeG(s, env, "delete")
         [] r < 21 -> TableDefG(s, env)
         [] r < 24 -> IndexDefG(s, env)
         [] r < 26 -> AlterG(s, env)
         [] r < 28 -> DropG(s, env)
         [] r = 28 -> [k |-> "truncate", nm |-> Named3(s, env, Pick(s, 1091, env.w.tables)), how |-> Pick(s, 1092, <<"", "RESTART", "CONTINUE">>)]
         [] r < 31 -> PrivilegeG(s, env)
         [] OTHER -> IF P(s, 1093, 3) = 0 THEN OtherG(s, env) ELSE AlterG(s, env)

\* ---------------------------------------------------------------- behaviour
Worlds == [k \in 1..12 |-> WorldS(Child(<<Seed0 % M, 78>>, k))]
VARIABLES seed, step
vars == <<seed, step>>
Init == seed \in {Child(<<(Seed0 * 7 + 5) % M, c>>, c) : c \in 1..Chains} /\ step = 1
Next == step < Steps /\ step' = step + 1 /\ seed' = Child(seed, 3)
Spec == Init /\ [][Next]_vars
Case(s) == LET k == P(s, 601, 12) + 1
               w == Worlds[k]
               env == [l |-> w.lower # {}, w |-> w, cols |-> <<>>, outer |-> <<>>, inner |-> <<>>, ctes |-> <<>>, many |-> FALSE, agg |-> FALSE, operand |-> FALSE, before |-> <<>>]
               st == StatementG(Child(s, 602), env)
           IN [w |-> k, st |-> st, r |-> Statement([w EXCEPT !.asks = Asks(StatementText(st))], st)]
Told(r) == IF IsErr(r) THEN [e |-> r.e, a |-> r.a, b |-> r.b] ELSE [told |-> r.told]
\* ---------------------------------------------------------------- what this guarantees
\* a refusal is about a part of the text
Pointed(st, r) == IsErr(r) => LET t == StatementText(st) IN \E i, j \in DOMAIN t : i < j /\ t[i] = "<" \o r.a /\ t[j] = ">" \o r.b
Emit == LET c == Case(seed)
        IN /\ Pointed(c.st, c.r)
           /\ CSVWrite("%1$s", <<ToJson([w |-> c.w, k |-> c.st.k, t |-> StatementText(c.st), r |-> Told(c.r)])>>, OutFile)
ASSUME CSVWrite("%1$s", <<ToJson([worlds |-> Worlds])>>, OutFile)
=============================================================================
