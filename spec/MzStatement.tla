---------------------------- MODULE MzStatement ----------------------------
(***************************************************************************)
(* Statements which define and change data over a catalog: what the text   *)
(* is, and the plan or the definition it stands for, or the diagnostic it  *)
(* deserves. Builds on MzQuery.                                            *)
(***************************************************************************)
EXTENDS MzQuery

\* ================================================================ text
Doc(d) == IF d = "" THEN <<>> ELSE <<"/** " \o d \o " */">>
IfThen(b, ts) == IF b THEN ts ELSE <<>>
\* numbers as written in the options of a sequence, in increasing order; what INT and BIGINT can hold
Numbers == <<
    [t |-> <<"-", "9223372036854775809">>, v |-> "", y |-> 0], [t |-> <<"-", "9223372036854775808">>, v |-> "-9223372036854775808", y |-> 8], [t |-> <<"-", "2147483649">>, v |-> "-2147483649", y |-> 8],
    [t |-> <<"-", "2147483648">>, v |-> "-2147483648", y |-> 4], [t |-> <<"-", "5">>, v |-> "-5", y |-> 4], [t |-> <<"-", "1">>, v |-> "-1", y |-> 4], [t |-> <<"0">>, v |-> "0", y |-> 4], [t |-> <<"1">>, v |-> "1", y |-> 4],
    [t |-> <<"7">>, v |-> "7", y |-> 4], [t |-> <<"100">>, v |-> "100", y |-> 4], [t |-> <<"2147483647">>, v |-> "2147483647", y |-> 4], [t |-> <<"2147483648">>, v |-> "2147483648", y |-> 8],
    [t |-> <<"9223372036854775807">>, v |-> "9223372036854775807", y |-> 8], [t |-> <<"9223372036854775808">>, v |-> "", y |-> 0], [t |-> <<"18446744073709551617">>, v |-> "", y |-> 0]>>
Zero == 7
\* a value of an option: n in Numbers, as it is or with a fraction of zero; or another expression
AmountText(a, p) == IF a.k = "expr" THEN ExprText(a.e, p)
                    ELSE LET t == Numbers[a.n].t
                             digits == IF a.k = "point" THEN Last(t) \o ".0" ELSE IF a.k = "half" THEN Last(t) \o ".5" ELSE Last(t)
                         IN IF Len(t) = 2 THEN Mark(p, <<"-">> \o Mark(p \o "i", <<digits>>)) ELSE Mark(p, Mark(p \o "i", <<digits>>))
OptionText(o, p) ==
    CASE o.k = "start" -> <<"START">> \o IfThen(o.w, <<"WITH">>) \o AmountText(o.a, p)
      [] o.k = "increment" -> <<"INCREMENT">> \o IfThen(o.w, <<"BY">>) \o AmountText(o.a, p)
      [] o.k = "min" -> <<"MINVALUE">> \o AmountText(o.a, p)
      [] o.k = "max" -> <<"MAXVALUE">> \o AmountText(o.a, p)
      [] o.k = "nomin" -> <<"NO", "MINVALUE">>
      [] o.k = "nomax" -> <<"NO", "MAXVALUE">>
      [] o.k = "cycle" -> <<"CYCLE">>
      [] o.k = "nocycle" -> <<"NO", "CYCLE">>
IncludeText(es, p) == IF es = <<>> THEN <<>> ELSE <<"INCLUDE", "(">> \o Listed([j \in DOMAIN es |-> ExprText(es[j], p \o "u" \o N2S(j))]) \o <<")">>
WithText(with, p) == IfThen(with, <<"WITH", "(">> \o Mark(p \o "z", <<"z">>) \o <<"=", "1", ")">>)
KeysText(ks, p) == <<"(">> \o Listed([j \in DOMAIN ks |-> ExprText(ks[j].e, p \o "y" \o N2S(j)) \o ks[j].d \o (IF ks[j].nulls = <<>> THEN <<>> ELSE Mark(p \o "n" \o N2S(j), ks[j].nulls))]) \o <<")">>
ConstraintText(c, p) ==
    IfThen(c.named, <<"CONSTRAINT", "z">>) \o Mark(p,
        CASE c.k = "null" -> <<"NULL">>
          [] c.k = "notnull" -> <<"NOT", "NULL">>
          [] c.k = "default" -> <<"DEFAULT">> \o (IF c.e[1].k = "exists" THEN <<"(">> \o ExprText(c.e[1], p \o "e") \o <<")">> ELSE Side(c.e[1], p \o "e"))
          [] c.k = "identity" -> <<"GENERATED">> \o (IF c.always THEN <<"ALWAYS">> ELSE <<"BY", "DEFAULT">>) \o <<"AS", "IDENTITY">>
                                 \o (IF c.os = <<>> THEN <<>> ELSE <<"(">> \o Flat([j \in DOMAIN c.os |-> OptionText(c.os[j], p \o "o" \o N2S(j))]) \o <<")">>)
          [] c.k = "pk" -> <<"PRIMARY", "KEY">> \o (IF c.keys = <<>> THEN <<>> ELSE KeysText(c.keys, p)) \o IncludeText(c.inc, p) \o WithText(c.with, p)
          [] c.k = "unique" -> <<"UNIQUE">> \o (IF c.keys = <<>> THEN <<>> ELSE KeysText(c.keys, p))
          [] c.k = "check" -> <<"CHECK", "(">> \o ExprText(c.e[1], p \o "e") \o <<")">>
          [] c.k = "generated" -> <<"GENERATED", "ALWAYS", "AS", "(">> \o ExprText(c.e[1], p \o "e") \o <<")">>
          [] c.k = "references" -> <<"REFERENCES", "t">>)
TableElementText(el, p) ==
    IF el.k = "col" THEN Doc(el.doc) \o Mark(p \o "n", <<Id(el.n)>>) \o TypeText(el.y) \o Flat([j \in DOMAIN el.cs |-> ConstraintText(el.cs[j], p \o "k" \o N2S(j))])
    ELSE ConstraintText(el.c, p)
SetsText(ss) == Listed([j \in DOMAIN ss |-> NameText(ss[j].n, "qx" \o N2S(j)) \o <<"=">> \o ExprText(ss[j].e, "qv" \o N2S(j))])
AliasText(st) == Opt(st.as, IfThen(st.asw, <<"AS">>) \o <<Id(st.as[1])>>)
InsertText == [none |-> <<"INSERT">>, replace |-> <<"INSERT", "OR", "REPLACE">>, ignore |-> <<"INSERT", "OR", "IGNORE">>, absent |-> <<"INSERT", "IF", "NOT", "EXISTS">>, upsert |-> <<"UPDATE", "OR", "INSERT">>]
UserText(u, p) == Mark(p, CASE u.k = "id" -> <<Id(u.n)>> [] u.k = "public" -> <<"PUBLIC">> [] u.k = "current" -> <<"CURRENT_USER">> [] u.k = "all" -> <<"*">>)
StatementText(st) ==
    CASE st.k = "insert" -> Mark("qs", InsertText[st.how] \o <<"INTO">> \o NameText(st.nm, "qt")
            \o (IF st.cols = <<>> THEN <<>> ELSE <<"(">> \o Listed([j \in DOMAIN st.cols |-> Mark("qc" \o N2S(j), <<Id(st.cols[j])>>)]) \o <<")">>)
            \o (IF st.q = <<>> THEN <<"DEFAULT", "VALUES">> ELSE QueryText(st.q[1], "qq")))
      [] st.k = "update" -> Mark("qs", <<"UPDATE">> \o NameText(st.nm, "qt") \o AliasText(st) \o <<"SET">> \o SetsText(st.sets) \o Opt(st.where, <<"WHERE">> \o ExprText(st.where[1], "qw")))
      [] st.k = "delete" -> Mark("qs", <<"DELETE", "FROM">> \o NameText(st.nm, "qt") \o AliasText(st) \o Opt(st.where, <<"WHERE">> \o ExprText(st.where[1], "qw")))
      [] st.k = "table" -> Doc(st.doc) \o Mark("qs", <<"CREATE">> \o IfThen(st.temp, Mark("qm", <<"TEMPORARY">>)) \o <<"TABLE">> \o IfThen(st.absent, <<"IF", "NOT", "EXISTS">>) \o NameText(st.nm, "qt")
            \o <<"(">> \o Listed([j \in DOMAIN st.els |-> TableElementText(st.els[j], "qe" \o N2S(j))]) \o <<")">> \o WithText(st.with, "qp"))
      [] st.k = "index" -> Doc(st.doc) \o Mark("qs", <<"CREATE">> \o IfThen(st.unique, Mark("qi", <<"UNIQUE">>)) \o <<"INDEX">> \o IfThen(st.absent, <<"IF", "NOT", "EXISTS">>)
            \o (IF st.n = <<>> THEN <<>> ELSE NameText(st.n, "qd")) \o <<"ON">> \o NameText(st.nm, "qt") \o KeysText(st.keys, "qk") \o IncludeText(st.inc, "qk") \o WithText(st.with, "qp")
            \o Opt(st.where, <<"WHERE">> \o ExprText(st.where[1], "qw")))
      [] st.k = "alter" -> Mark("qs", <<"ALTER", st.what>> \o IfThen(st.exists, <<"IF", "EXISTS">>) \o NameText(st.nm, "qt") \o <<"RENAME">>
            \o (IF st.col = <<>> THEN <<>> ELSE <<"COLUMN">> \o IfThen(st.cexists, <<"IF", "EXISTS">>) \o Mark("qc", <<Id(st.col[1])>>)) \o <<"TO">> \o Mark("qr", <<Id(st.to)>>))
      [] st.k = "drop" -> Mark("qs", <<"DROP", st.what>> \o IfThen(st.exists, <<"IF", "EXISTS">>) \o NameText(st.nm, "qt") \o (IF st.how = "" THEN <<>> ELSE Mark("qb", <<st.how>>)))
      [] st.k = "truncate" -> Mark("qs", <<"TRUNCATE", "TABLE">> \o NameText(st.nm, "qt") \o (IF st.how = "" THEN <<>> ELSE <<st.how, "IDENTITY">>))
      [] st.k = "privilege" -> Mark("qs", <<st.how>> \o (IF st.acts = <<"ALL">> THEN <<"ALL", "PRIVILEGES">> ELSE Listed([j \in DOMAIN st.acts |-> <<st.acts[j]>>])) \o <<"ON">>
            \o Listed([j \in DOMAIN st.objs |-> IfThen(st.objs[j].w, <<"TABLE">>) \o NameText(st.objs[j].nm, "qo" \o N2S(j))])
            \o <<IF st.how = "GRANT" THEN "TO" ELSE "FROM">> \o Listed([j \in DOMAIN st.users |-> UserText(st.users[j], "qu" \o N2S(j))]))
      [] st.k = "other" -> Mark("qs", st.ts)

\* ================================================================ meaning
\* r: [e, a, b, told]
Told1(s) == [e |-> "", a |-> "", b |-> "", told |-> s]
No(r) == [e |-> r.e, a |-> r.a, b |-> r.b, told |-> ""]
NoAt(code, p) == No(At(code, p))
Nothing == Told1("statement empty")
Fresh(w) == [w EXCEPT !.scopes = <<>>]
\* the table, or index, a name stands for in the schemas of the search path
Named2(w, nm, kind, loud) == Find(Fresh(w), 0, nm, Len(nm), {kind}, loud)
IndexesOf(w) == w.idx \o Flat([j \in DOMAIN w.tables |-> IF w.tables[j].pk = "-" THEN <<>> ELSE <<[s |-> w.tables[j].s, t |-> w.tables[j].n, n |-> w.tables[j].n, keys |-> w.tables[j].keys]>>])
IndexAt(w, d, n) == CHOOSE x \in Range(IndexesOf(w)) : x.s = w.schemas[d].name /\ x.n = n
TableName(t) == t.s \o "." \o t.n
IndexName(i) == i.s \o "." \o i.t \o (IF i.n = i.t THEN "" ELSE "#" \o i.n)
Default1(w) == w.schemas[1].name
\* columns of a table in a scope of its own
RelOf(t, d, alias) == [id |-> alias, decl |-> [s |-> d, n |-> t.n], cols |-> [j \in DOMAIN t.cols |-> Col(t.cols[j].n, ~t.cols[j].hid, t.n \o "." \o t.cols[j].n, "qt." \o N2S(j), t.cols[j].y)]]
Alone(w, rel) == [w EXCEPT !.scopes = <<[feat |-> {}, rels |-> <<rel>>, queries |-> <<>>, defs |-> <<>>]>>]
Bare(w) == [w EXCEPT !.scopes = <<[feat |-> {}, rels |-> <<>>, queries |-> <<>>, defs |-> <<>>]>>]
Shown2(t) == SelectSeq(t.cols, LAMBDA c : ~c.hid)
Own(t, id) == {c \in Range(t.cols) : c.n = id /\ ~c.hid}
Twice(ids) == {j \in DOMAIN ids : \E i \in 1..(j - 1) : ids[i] = ids[j]}
Least(S) == CHOOSE j \in S : \A i \in S : j <= i

\* ---------------------------------------------------------------- rows
RECURSIVE Nested(_), Simple(_)
Nested(e) == e.k \in {"query", "exists", "inq", "quantified"} \/ \E j \in DOMAIN e.es : Nested(e.es[j])
Simple(q) == CASE q.k = "values" -> \A j \in DOMAIN q.rows : \A i \in DOMAIN q.rows[j] : ~Nested(q.rows[j][i])
               [] q.k = "with" -> Simple(q.q)
               [] OTHER -> FALSE
WriteKind == [none |-> "insert", replace |-> "overwrite", ignore |-> "skip", absent |-> "skip", upsert |-> "overwrite"]
KeyNames(t) == {t.keys[j].n : j \in DOMAIN t.keys}
Pairs(ps) == Csv([j \in DOMAIN ps |-> ps[j].c \o "=" \o ps[j].v])
Insert(w, st) ==
    LET a == Named2(w, st.nm, "table", TRUE)
        t == TableAt(w, a.s, a.x)
        ids == [j \in DOMAIN st.cols |-> Fold(w, "variable", st.cols[j])]
        badCol == {j \in DOMAIN ids : Own(t, ids[j]) = {} \/ j \in Twice(ids)}
        dest == IF st.cols = <<>> THEN Shown2(t) ELSE [j \in DOMAIN ids |-> The(Own(t, ids[j]))]
        kind == WriteKind[st.how] \o " " \o TableName(t)
        prefer == "w" \in Range(w.opts)
        r == QueryAs(Fresh(w), st.q[1], "qq", "", FALSE, [j \in DOMAIN dest |-> dest[j].y])
        src == Visible1(r)
        all == [j \in DOMAIN dest |-> [c |-> dest[j].n, v |-> src[j].r]]
    IN IF IsBad(a) THEN No(Unknown(a, "qt"))
       ELSE IF t.pk = "-" THEN NoAt("primary_index_not_found", "qt")
       ELSE IF badCol # {} THEN LET j == Least(badCol) IN NoAt(IF Own(t, ids[j]) = {} THEN "column_not_found" ELSE "column_already_exists", "qc" \o N2S(j))
       ELSE IF st.q = <<>> THEN (IF prefer THEN Told1("statement write " \o kind \o " ()()") ELSE Told1("plan values()|" \o kind \o " keys() set()"))
       ELSE IF IsErr(r) THEN No(r)
       ELSE IF Len(src) # Len(dest) THEN NoAt("inconsistent_columns", "qq")
       ELSE IF prefer /\ Simple(st.q[1]) THEN Told1("statement write " \o kind \o " (" \o Csv([j \in DOMAIN dest |-> dest[j].n]) \o ")" \o SubSeq(r.plan, 7, Len(r.plan)))
       ELSE Told1("plan " \o r.plan \o "|" \o kind \o " keys(" \o Pairs(SelectSeq(all, LAMBDA x : x.c \in KeyNames(t))) \o ") set(" \o Pairs(SelectSeq(all, LAMBDA x : x.c \notin KeyNames(t))) \o ")")
\* UPDATE and DELETE: rows of a table, by their keys
Change(w, st) ==
    LET a == Named2(w, st.nm, "table", TRUE)
        t == TableAt(w, a.s, a.x)
        own == Alone(w, RelOf(t, a.s, IF st.as = <<>> THEN "" ELSE Fold(w, "relation", st.as[1])))
        where == Expr(own, st.where[1], "qw", "", "")
        sets == IF st.k = "delete" THEN <<>> ELSE st.sets
        ids == [j \in DOMAIN sets |-> Fold(w, "variable", Last(sets[j].n))]
        value(j) == Expr(own, sets[j].e, "qv" \o N2S(j), "", The(Own(t, ids[j])).y)
        bad(j) == IF Len(sets[j].n) > 1 THEN At("unsupported_feature", "qx" \o N2S(j))
                  ELSE IF Own(t, ids[j]) = {} THEN At("column_not_found", "qx" \o N2S(j))
                  ELSE IF j \in Twice(ids) THEN At("column_already_exists", "qx" \o N2S(j))
                  ELSE IF IsErr(value(j)) THEN value(j)
                  ELSE IF value(j).g THEN At("unsupported_feature", "qv" \o N2S(j)) ELSE NoErr
        badSet == FirstErr([j \in DOMAIN sets |-> bad(j)])
    IN IF IsBad(a) THEN No(Unknown(a, "qt"))
       ELSE IF t.pk = "-" THEN NoAt("primary_index_not_found", "qt")
       ELSE IF st.where # <<>> /\ IsErr(where) THEN No(where)
       ELSE IF st.where # <<>> /\ where.g THEN NoAt("unsupported_feature", "qw")
       ELSE IF t.keys = <<>> THEN NoAt("unknown", "qt")
       ELSE IF IsErr(badSet) THEN No(badSet)
       ELSE Told1("plan scan " \o TableName(t) \o (IF st.where = <<>> THEN "" ELSE "|filter " \o Shows(where.t))
                  \o "|" \o st.k \o " " \o TableName(t) \o " keys(" \o Pairs([j \in DOMAIN t.keys |-> [c |-> t.keys[j].n, v |-> t.n \o "." \o t.keys[j].n]])
                  \o ") set(" \o Pairs([j \in DOMAIN sets |-> [c |-> The(Own(t, ids[j])).n, v |-> Shows(value(j).t)]]) \o ")")

\* ---------------------------------------------------------------- definitions
\* the columns of an index: [e] or [keys]
Keys(w, ks, p) ==
    LET r(j) == Expr(w, ks[j].e, p \o "y" \o N2S(j), "", "")
        col(j) == r(j).t.x
        bad(j) == IF ks[j].nulls # <<>> THEN At("unsupported_feature", p \o "n" \o N2S(j))
                  ELSE IF IsErr(r(j)) THEN r(j)
                  ELSE IF ks[j].e.k # "var" THEN At("unsupported_feature", p \o "y" \o N2S(j))
                  ELSE IF \E i \in 1..(j - 1) : ks[i].e.k = "var" /\ ~IsErr(r(i)) /\ col(i) = col(j) THEN At("column_already_exists", p \o "y" \o N2S(j)) ELSE NoErr
    IN [e |-> FirstErr([j \in DOMAIN ks |-> bad(j)]), keys |-> [j \in DOMAIN ks |-> [i |-> IF IsErr(r(j)) THEN "" ELSE r(j).t.i, d |-> IF ks[j].d = <<"DESC">> THEN "-" ELSE "+"]]]
Amount(w, a, p, wide) ==
    LET no == [e |-> At("invalid_sequence_value", p), n |-> 0]
        x == Numbers[a.n]
    IN IF a.k = "expr" THEN LET r == Expr(w, a.e, p, "", "") IN IF IsErr(r) THEN [e |-> r, n |-> 0] ELSE no
       ELSE IF a.k = "half" \/ x.y = 0 \/ (x.y = 8 /\ ~wide) THEN no ELSE [e |-> NoErr, n |-> a.n]
\* the options of a sequence; of a kind there is one
Identity(w, c, y, p) ==
    LET wide == y = "int8"
        last(ks) == LET is == {j \in DOMAIN c.os : c.os[j].k \in ks} IN IF is = {} THEN 0 ELSE CHOOSE j \in is : \A i \in is : i <= j
        given(ks) == LET j == last(ks) IN j # 0 /\ c.os[j].k \notin {"nomin", "nomax"}
        take(ks) == Amount(w, c.os[last(ks)].a, p \o "o" \o N2S(last(ks)), wide)
        or(ks, n) == IF given(ks) THEN take(ks) ELSE [e |-> NoErr, n |-> n]
        inc == or({"increment"}, 8)
        up == inc.n > Zero
        min == or({"min", "nomin"}, IF up THEN 8 ELSE IF wide THEN 2 ELSE 4)
        max == or({"max", "nomax"}, IF ~up THEN 6 ELSE IF wide THEN 13 ELSE 11)
        start == or({"start"}, IF up THEN min.n ELSE max.n)
        cycle == LET j == last({"cycle", "nocycle"}) IN IF j = 0 THEN "c" \in Range(w.opts) ELSE c.os[j].k = "cycle"
        v(x) == Numbers[x.n].v
    IN IF y \notin {"int4", "int8"} THEN [e |-> At("inconsistent_type", p), v |-> ""]
       ELSE IF IsErr(inc.e) THEN [e |-> inc.e, v |-> ""]
       ELSE IF inc.n = Zero THEN [e |-> At("invalid_sequence_value", p \o "o" \o N2S(last({"increment"}))), v |-> ""]
       ELSE LET bad == FirstErr(<<min.e, max.e, start.e>>)
            IN IF IsErr(bad) THEN [e |-> bad, v |-> ""]
               ELSE IF start.n < min.n \/ start.n > max.n THEN [e |-> At("invalid_sequence_value", p), v |-> ""]
               ELSE [e |-> NoErr, v |-> "sequence(" \o v(start) \o "," \o v(inc) \o "," \o v(min) \o "," \o v(max) \o "," \o (IF cycle THEN "1" ELSE "0") \o ")"]
ValueOf == [n1 |-> "1", n2 |-> "23", n0 |-> "0", m |-> "-5", s1 |-> "'x'", s0 |-> "''", t |-> "true", f |-> "false", u |-> "null"]
\* DEFAULT: a literal, a parameter with a value, or a function without arguments; types are converted later
Constant(w, e, p, y) ==
    LET r == Expr(w, e, p, "", y)
        RECURSIVE of(_, _)
        of(x, t) == CASE t.k = "cast" /\ x.k = "lit" -> ValueOf[x.x]
                   [] t.k = "cast" -> of(x.es[1], t.cs[1])
                   [] t.k = "fun" -> IF t.cs = <<>> THEN t.x \o "()" ELSE ""
                   [] x.k = "lit" -> ValueOf[x.x]
                   [] x.k \in {"host", "ask"} -> LET is == {j \in DOMAIN w.given : ValueText(w.given[j].y) \o ":" \o Shown(w.given[j].y) = t.x} IN IF is = {} THEN "" ELSE ValueText(w.given[CHOOSE j \in is : TRUE].y)
                   [] OTHER -> ""
    IN IF IsErr(r) THEN [e |-> r, v |-> ""] ELSE IF of(e, r.t) = "" THEN [e |-> At("unsupported_feature", p), v |-> ""] ELSE [e |-> NoErr, v |-> of(e, r.t)]
\* constraints of a column one after the other: [e, nul ("?": not said), v, always, pk, pks (of any column so far)]
RECURSIVE Constraints(_, _, _, _, _, _)
Constraints(w, cs, y, p, j, s) ==
    IF j > Len(cs) THEN s
    ELSE LET c == cs[j]
             at == p \o "k" \o N2S(j)
             on(s1) == Constraints(w, cs, y, p, j + 1, s1)
             no(e) == [s EXCEPT !.e = e]
             value(x, always) == IF s.v # "" THEN no(At("invalid_constraint", at)) ELSE IF IsErr(x.e) THEN no(x.e) ELSE on([s EXCEPT !.v = x.v, !.always = @ \/ always])
         IN CASE c.k = "pk" -> IF s.pks # {} THEN no(At("primary_index_already_exists", at))
                               ELSE IF c.inc # <<>> THEN no(At("unsupported_feature", at \o "u1"))
                               ELSE IF c.with THEN no(At("malformed_syntax", at \o "z"))
                               ELSE IF s.nul = "null" THEN no(At("invalid_constraint", at))
                               ELSE on([s EXCEPT !.pk = TRUE, !.pks = {1}])
              [] c.k = "null" -> IF s.nul # "?" \/ s.pk THEN no(At("invalid_constraint", at)) ELSE on([s EXCEPT !.nul = "null"])
              [] c.k = "notnull" -> IF s.nul # "?" THEN no(At("invalid_constraint", at)) ELSE on([s EXCEPT !.nul = "notnull"])
              [] c.k = "default" -> value(IF s.v # "" THEN [e |-> NoErr, v |-> ""] ELSE Constant(Bare(w), c.e[1], at \o "e", y), FALSE)
              [] c.k = "identity" -> value(IF s.v # "" THEN [e |-> NoErr, v |-> ""] ELSE Identity(Bare(w), c, y, at), c.always)
              [] OTHER -> no(At("unsupported_feature", at))
\* elements in order: columns first, then constraints of the table
RECURSIVE Cols(_, _, _, _, _)
Cols(w, els, j, done, pks) ==
    IF j > Len(els) THEN [e |-> NoErr, cols |-> done, pks |-> pks]
    ELSE IF els[j].k # "col" THEN Cols(w, els, j + 1, done, pks)
    ELSE LET el == els[j]
             p == "qe" \o N2S(j)
             id == Fold(w, "variable", el.n)
             r == Constraints(w, el.cs, el.y, p, 1, [e |-> NoErr, nul |-> "?", v |-> "", always |-> FALSE, pk |-> FALSE, pks |-> pks])
             no(e) == [e |-> e, cols |-> <<>>, pks |-> {}]
         IN IF \E x \in Range(done) : x.n = id THEN no(At("column_already_exists", p \o "n"))
            ELSE IF IsErr(r.e) THEN no(r.e)
            ELSE Cols(w, els, j + 1, Append(done, [n |-> id, y |-> el.y, nul |-> r.nul # "notnull" /\ ~r.pk, v |-> r.v, always |-> r.always, doc |-> el.doc, hid |-> FALSE]), IF r.pk THEN {[i |-> "qt." \o N2S(Len(done) + 1), d |-> "+"]} ELSE r.pks)
RECURSIVE Tabulars(_, _, _, _, _)
Tabulars(w, els, j, cols, pks) ==
    IF j > Len(els) THEN [e |-> NoErr, keys |-> IF pks = {} THEN <<>> ELSE The(pks)]
    ELSE IF els[j].k = "col" THEN Tabulars(w, els, j + 1, cols, pks)
    ELSE LET c == els[j].c
             p == "qe" \o N2S(j)
             no(e) == [e |-> e, keys |-> <<>>]
             ks == Keys(w, c.keys, p)
         IN IF c.k # "pk" THEN no(At("unsupported_feature", p))
            ELSE IF pks # {} THEN no(At("primary_index_already_exists", p))
            ELSE IF c.inc # <<>> THEN no(At("unsupported_feature", p \o "u1"))
            ELSE IF c.with THEN no(At("malformed_syntax", p \o "z"))
            ELSE IF IsErr(ks.e) THEN no(ks.e)
            ELSE Tabulars(w, els, j + 1, cols, {ks.keys})
DocShown(d) == IF d = "" THEN "" ELSE " '" \o d \o "'"
CreateTable(w, st) ==
    LET a == Named2(w, st.nm, "table", FALSE)
        id == Fold(w, "relation", Last(st.nm))
        c == Cols(w, st.els, 1, <<>>, {})
        own == Alone(w, RelOf([s |-> "", n |-> id, cols |-> c.cols], 0, ""))
        t == Tabulars(own, st.els, 1, c.cols, {<<k>> : k \in c.pks})
        key(j) == {k \in Range(t.keys) : k.i = "qt." \o N2S(j)}
        nul(j) == c.cols[j].nul /\ key(j) = {}
        value(j) == IF c.cols[j].v = "" /\ nul(j) THEN "null" ELSE c.cols[j].v
        name(k) == c.cols[CHOOSE j \in DOMAIN c.cols : k.i = "qt." \o N2S(j)].n
    IN IF st.with THEN NoAt("unsupported_feature", "qpz")
       ELSE IF Got(a) THEN (IF st.absent THEN Nothing ELSE NoAt("table_already_exists", "qt"))
       ELSE IF Len(st.nm) > 1 THEN NoAt("unsupported_feature", "qt")
       ELSE IF IsErr(c.e) THEN No(c.e)
       ELSE IF c.cols = <<>> THEN NoAt("malformed_syntax", "qs")
       ELSE IF IsErr(t.e) THEN No(t.e)
       ELSE Told1("statement create table " \o Default1(w) \o "." \o id \o DocShown(st.doc)
                  \o Cat([j \in DOMAIN c.cols |-> "(" \o c.cols[j].n \o " " \o Shown(c.cols[j].y) \o (IF nul(j) THEN "?" ELSE "") \o (IF value(j) = "" THEN "" ELSE " = " \o value(j))
                                                  \o (IF c.cols[j].always THEN " always" ELSE "") \o DocShown(c.cols[j].doc) \o ")"])
                  \o " keys " \o Csv([j \in DOMAIN t.keys |-> name(t.keys[j]) \o t.keys[j].d]))
CreateIndex(w, st) ==
    LET i == Named2(w, st.n, "index", FALSE)
        a == Named2(w, st.nm, "table", TRUE)
        t == TableAt(w, a.s, a.x)
        ks == Keys(Alone(w, RelOf(t, a.s, "")), st.keys, "qk")
        name(k) == t.cols[CHOOSE j \in DOMAIN t.cols : k.i = "qt." \o N2S(j)].n
    IN IF st.inc # <<>> THEN NoAt("unsupported_feature", "qku1")
       ELSE IF st.where # <<>> THEN NoAt("unsupported_feature", "qw")
       ELSE IF st.unique THEN NoAt("unsupported_feature", "qi")
       ELSE IF st.with THEN NoAt("unsupported_feature", "qpz")
       ELSE IF st.n # <<>> /\ Got(i) THEN (IF st.absent THEN Nothing ELSE NoAt("index_already_exists", "qd"))
       ELSE IF IsBad(a) THEN No(Unknown(a, "qt"))
       ELSE IF Len(st.n) > 1 THEN NoAt("unsupported_feature", "qd")
       ELSE IF IsErr(ks.e) THEN No(ks.e)
       ELSE Told1("statement create index " \o Default1(w) \o "." \o (IF st.n = <<>> THEN "" ELSE Fold(w, "relation", Last(st.n))) \o " on " \o TableName(t)
                  \o " keys " \o Csv([j \in DOMAIN ks.keys |-> name(ks.keys[j]) \o ks.keys[j].d]) \o DocShown(st.doc))
Alter(w, st) ==
    LET table == st.what = "TABLE"
        a == Named2(w, st.nm, IF table THEN "table" ELSE "index", ~st.exists)
        t == TableAt(w, a.s, a.x)
        x == IndexAt(w, a.s, a.x)
        sch == w.schemas[a.s].name
        to == Fold(w, "relation", st.to)
        of(id) == {c \in Range(t.cols) : c.n = id} \* even hidden ones
        from == Fold(w, "variable", st.col[1])
        into == Fold(w, "variable", st.to)
    IN IF IsBad(a) THEN No(Unknown(a, "qt"))
       ELSE IF ~Got(a) THEN Nothing
       ELSE IF table /\ st.col # <<>>
       THEN (IF of(from) = {} THEN (IF st.cexists THEN Nothing ELSE NoAt("column_not_found", "qc"))
             ELSE IF of(into) # {} THEN NoAt("column_already_exists", "qr")
             ELSE Told1("statement rename column " \o TableName(t) \o " " \o from \o " to " \o into))
       ELSE IF table THEN (IF Got(SchemaTable(w, a.s, to)) THEN NoAt("table_already_exists", "qr") ELSE Told1("statement rename table " \o sch \o "/" \o TableName(t) \o " to " \o to))
       ELSE IF x.n = x.t THEN NoAt("unsupported_feature", "qr") \* a primary index
       ELSE IF Got(SchemaIndex(w, a.s, to)) THEN NoAt("index_already_exists", "qr")
       ELSE Told1("statement rename index " \o sch \o "/" \o IndexName(x) \o " to " \o to)
Drop(w, st) ==
    LET table == st.what = "TABLE"
        a == Named2(w, st.nm, IF table THEN "table" ELSE "index", ~st.exists)
        sch == w.schemas[a.s].name
    IN IF st.what \notin {"TABLE", "INDEX"} THEN NoAt("unsupported_feature", "qs")
       ELSE IF st.how = "CASCADE" THEN NoAt("unsupported_feature", "qb")
       ELSE IF IsBad(a) THEN No(Unknown(a, "qt"))
       ELSE IF ~Got(a) THEN Nothing
       ELSE IF table THEN Told1("statement drop table " \o sch \o "/" \o TableName(TableAt(w, a.s, a.x))) ELSE Told1("statement drop index " \o sch \o "/" \o IndexName(IndexAt(w, a.s, a.x)))
Truncate(w, st) ==
    LET a == Named2(w, st.nm, "table", TRUE)
    IN IF IsBad(a) THEN No(Unknown(a, "qt")) ELSE Told1("statement truncate " \o TableName(TableAt(w, a.s, a.x)) \o (IF st.how = "RESTART" THEN " restart" ELSE ""))
\* the same privileges on each table, for each user once
ActionName == [SELECT |-> "select", INSERT |-> "insert", UPDATE |-> "update", DELETE |-> "delete", ALL |-> "control"]
Privilege(w, st) ==
    LET as == [j \in DOMAIN st.objs |-> Named2(w, st.objs[j].nm, "table", TRUE)]
        same(i, j) == as[i].s = as[j].s /\ as[i].x = as[j].x
        acts == Text1([j \in DOMAIN st.acts |-> ActionName[st.acts[j]]], "/")
        stars == {j \in DOMAIN st.users : st.users[j].k = "all" /\ st.how = "GRANT"}
        bad == FirstErr([j \in DOMAIN as |-> IF IsBad(as[j]) THEN Unknown(as[j], "qo" \o N2S(j)) ELSE IF stars # {} THEN At("malformed_syntax", "qu" \o N2S(Least(stars))) ELSE NoErr])
        entry(j) == LET u == st.users[j]
                    IN CASE u.k = "id" -> IF \E i \in 1..(j - 1) : st.users[i].k = "id" /\ st.users[i].n.t = u.n.t THEN "" ELSE "[specified " \o u.n.t \o " " \o acts \o "]"
                         [] u.k = "current" -> "[current_user  " \o acts \o "]"
                         [] u.k = "all" -> "[all_users  " \o acts \o "]"
                         [] OTHER -> ""
        public == \E j \in DOMAIN st.users : st.users[j].k = "public"
        entries == "(" \o (IF public THEN acts ELSE "") \o ")" \o Cat([j \in DOMAIN st.users |-> entry(j)])
    IN IF IsErr(bad) THEN No(bad)
       ELSE Told1("statement " \o (IF st.how = "GRANT" THEN "grant" ELSE "revoke") \o Cat([j \in DOMAIN as |-> IF \E i \in 1..(j - 1) : same(i, j) THEN "" ELSE " " \o TableName(TableAt(w, as[j].s, as[j].x)) \o entries]))
Statement(w, st) ==
    CASE st.k = "insert" -> Insert(w, st)
      [] st.k \in {"update", "delete"} -> Change(w, st)
      [] st.k = "table" -> IF st.temp THEN NoAt("unsupported_feature", "qm") ELSE CreateTable(w, st)
      [] st.k = "index" -> CreateIndex(w, st)
      [] st.k = "alter" -> Alter(w, st)
      [] st.k = "drop" -> Drop(w, st)
      [] st.k = "truncate" -> Truncate(w, st)
      [] st.k = "privilege" -> Privilege(w, st)
      [] st.k = "other" -> NoAt("unsupported_feature", "qs")
=============================================================================
