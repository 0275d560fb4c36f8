------------------------------ MODULE MzNaming ------------------------------
(***************************************************************************)
(* What a name stands for in a world: a catalog of schemas, a search path  *)
(* and a chain of query scopes (the last one is where the name is used).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* ---------------------------------------------------------------- names
Big == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", K |-> "k", S |-> "s", T |-> "t", U |-> "u", X |-> "x", Y |-> "y", I |-> "i", F |-> "f"]
Lower(t) == IF t \in DOMAIN Big THEN Big[t] ELSE t
\* q: written in quotation marks, which keep it as it is
Kinds == {"all", "variable", "function", "relation", "schema", "catalog"}
Fold(w, kind, i) == IF ~i.q /\ (("all" \in w.lower) \/ (kind \in w.lower)) THEN Lower(i.t) ELSE i.t

\* ---------------------------------------------------------------- answers
Not == [k |-> "none", x |-> "", s |-> 0, r |-> 0, c |-> 0]
Bad(code, part, n) == [k |-> "E", x |-> code \o " " \o part, s |-> n, r |-> 0, c |-> 0]
Is(k, x, s, r, c) == [k |-> k, x |-> x, s |-> s, r |-> r, c |-> c]
IsBad(a) == a.k = "E"
Got(a) == a.k \notin {"E", "none"}
\* the first answer, if any, among possibilities in order
RECURSIVE First(_)
First(as) == IF as = <<>> THEN Not ELSE IF Head(as).k # "none" THEN Head(as) ELSE First(Tail(as))

\* ---------------------------------------------------------------- what scopes and schemas hold
NoDecl == [s |-> 0, n |-> ""]
Label(r) == IF r.id # "" THEN r.id ELSE r.decl.n
Depth(w) == Len(w.scopes)
Rels(w, s) == w.scopes[s].rels
Named(w, s, id) == {r \in DOMAIN Rels(w, s) : id # "" /\ Label(Rels(w, s)[r]) = id}
Columns(rel, id) == {c \in DOMAIN rel.cols : rel.cols[c].id = id /\ rel.cols[c].out}
Visible(w, s, id) == UNION {{<<r, c>> : c \in Columns(Rels(w, s)[r], id)} : r \in DOMAIN Rels(w, s)}
The(S) == CHOOSE x \in S : TRUE

RECURSIVE FindRelation(_, _, _, _)
FindRelation(w, s, id, n) ==
    IF s = 0 THEN Not
    ELSE LET f == Named(w, s, id)
         IN IF Cardinality(f) > 1 THEN Bad("relation_ambiguous", "whole", n)
            ELSE IF f # {} THEN Is("rel", "", s, The(f), 0)
            ELSE FindRelation(w, s - 1, id, n)
RECURSIVE FindColumn(_, _, _, _)
FindColumn(w, s, id, n) ==
    IF s = 0 THEN Not
    ELSE LET f == Visible(w, s, id)
         IN IF Cardinality(f) > 1 THEN Bad("column_ambiguous", "whole", n)
            ELSE IF f # {} THEN Is("var", "", s, The(f)[1], The(f)[2])
            ELSE FindColumn(w, s - 1, id, n)
RECURSIVE FindQuery(_, _, _)
FindQuery(w, s, id) ==
    IF s = 0 THEN Not
    ELSE LET f == {q \in DOMAIN w.scopes[s].queries : w.scopes[s].queries[q] = id}
         IN IF f # {} THEN Is("query", "", s, CHOOSE q \in f : \A p \in f : q <= p, 0) ELSE FindQuery(w, s - 1, id)

\* entities of the schema w.schemas[d]
SchemaVariable(w, d, id) == IF id \in w.schemas[d].vars THEN Is("ext", id, d, 0, 0) ELSE Not
SchemaRelation(w, d, id) == IF id \in DOMAIN w.schemas[d].rels /\ w.schemas[d].rels[id] # "none" THEN Is("decl", id, d, 0, 0) ELSE Not
SchemaTable(w, d, id) == IF id \in DOMAIN w.schemas[d].rels /\ w.schemas[d].rels[id] = "table" THEN Is("table", id, d, 0, 0) ELSE Not
SchemaIndex(w, d, id) == IF id \in w.schemas[d].idx THEN Is("index", id, d, 0, 0) ELSE Not
\* the relation of the scope where the name is used that is declared so, and not renamed
SchemaScope(w, s, d, id, n) ==
    IF ~Got(SchemaRelation(w, d, id)) THEN Not
    ELSE LET f == {r \in DOMAIN Rels(w, s) : Rels(w, s)[r].id = "" /\ Rels(w, s)[r].decl = [s |-> d, n |-> id]}
         IN IF Cardinality(f) > 1 THEN Bad("relation_ambiguous", "last", n) ELSE IF f # {} THEN Is("rel", "own", s, The(f), 0) ELSE Not
FindSchema(w, id) == LET f == {d \in DOMAIN w.schemas : w.schemas[d].name = id /\ w.schemas[d].listed} IN IF f # {} THEN Is("schema", "", The(f), 0, 0) ELSE Not

\* ---------------------------------------------------------------- names with qualifiers
\* kinds of things a name may stand for
Vars == {"column", "field", "global"}
Over(k) == CASE k = "column" -> {"rel"}
             [] k = "field" -> Vars
             [] k \in {"global", "rel", "decl", "table", "index"} -> {"schema"}
             [] k = "schema" -> {"catalog"}
             [] OTHER -> {}
Missing(ks) == IF ks = {"column"} THEN "column_not_found"
               ELSE IF ks \subseteq Vars THEN "variable_not_found"
               ELSE IF ks \subseteq {"rel", "decl", "query"} /\ (Cardinality(ks) = 1 \/ "rel" \notin ks) THEN "table_not_found"
               ELSE IF ks = {"table"} THEN "table_not_found"
               ELSE IF ks = {"index"} THEN "index_not_found"
               ELSE IF ks = {"schema"} THEN "schema_not_found"
               ELSE IF ks = {"catalog"} THEN "catalog_not_found"
               ELSE "symbol_not_found"
Lost(ks, n, loud) == IF loud THEN Bad(Missing(ks), "last", n) ELSE Not
Path(w, F(_)) == First([i \in DOMAIN w.path |-> F(w.path[i])])

\* what the first n parts of the name stand for, as seen in scope s, among the kinds ks
RECURSIVE Find(_, _, _, _, _, _)
Find(w, s, nm, n, ks, loud) ==
    LET id(kind) == Fold(w, kind, nm[n])
        on(k, a) == IF k \in ks THEN a ELSE Not
    IN IF n = 1
       THEN LET a == First(<<
                    on("rel", FindRelation(w, s, id("relation"), n)),
                    on("column", FindColumn(w, s, id("variable"), n)),
                    on("global", Path(w, LAMBDA d : SchemaVariable(w, d, id("variable")))),
                    on("query", FindQuery(w, s, id("relation"))),
                    on("decl", Path(w, LAMBDA d : SchemaRelation(w, d, id("relation")))),
                    on("table", Path(w, LAMBDA d : SchemaTable(w, d, id("relation")))),
                    on("index", Path(w, LAMBDA d : SchemaIndex(w, d, id("relation")))),
                    on("schema", FindSchema(w, id("schema"))),
                    on("catalog", IF w.catalog # "" /\ id("catalog") = w.catalog THEN Is("catalog", "", 0, 0, 0) ELSE Not)>>)
            IN IF a.k = "none" THEN Lost(ks, n, loud) ELSE a
       ELSE LET q == Find(w, s, nm, n - 1, UNION {Over(k) : k \in ks}, loud)
                only(a, more) == IF a.k = "none" THEN Lost(ks \cap more, n, loud) ELSE a
            IN CASE ~Got(q) -> q
                 [] q.k \in {"var", "ext"} -> IF "field" \in ks THEN Bad("unsupported_feature", "last", n) ELSE Lost({}, n, loud)
                 [] q.k = "rel" ->
                        LET rel == Rels(w, q.s)[q.r]
                            f == Columns(rel, id("variable"))
                        IN only(on("column", IF Cardinality(f) > 1 THEN Bad("column_ambiguous", "last", n)
                                             ELSE IF f # {} THEN Is("var", q.x, q.s, q.r, The(f)) ELSE Not), {"column"})
                 [] q.k = "schema" ->
                        only(First(<<
                            on("global", SchemaVariable(w, q.s, id("variable"))),
                            on("rel", SchemaScope(w, s, q.s, id("relation"), n)),
                            on("decl", SchemaRelation(w, q.s, id("relation"))),
                            on("table", SchemaTable(w, q.s, id("relation"))),
                            on("index", SchemaIndex(w, q.s, id("relation")))>>), {"global", "rel", "decl", "table", "index"})
                 [] q.k = "catalog" -> only(on("schema", FindSchema(w, id("schema"))), {"schema"})
                 [] OTHER -> Lost(ks, n, loud)

\* ---------------------------------------------------------------- scopes between a variable and its use
Has(w, s, f) == f \in w.scopes[s].feat
\* the scopes between the one of the column and the one of the name which take parameters, outermost first
Between(w, s) == IF \E m \in (s + 1)..Depth(w) : Has(w, m, "independent") THEN <<>>
                 ELSE SelectSeq([i \in 1..(Depth(w) - s) |-> s + i], LAMBDA m : Has(w, m, "correlation"))
=============================================================================
