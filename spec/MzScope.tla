------------------------------ MODULE MzScope ------------------------------
(***************************************************************************)
(* What names stand for.                                                   *)
(*                                                                         *)
(* A world is a catalog of schemas, a search path, and a chain of query    *)
(* scopes (1 is the outermost, the last one is where names are used), each *)
(* with the relations and named queries it introduces.  Asking what a name *)
(* stands for gives a declaration, or a diagnostic at some part of the     *)
(* name; columns of enclosing queries are reached through parameters,      *)
(* which are state: the scopes remember the parameters they handed out.    *)
(***************************************************************************)
EXTENDS MzNaming, Json, CSV

CONSTANTS OutFile, Mode, Top, Asks \* Mode: walk (random worlds) or all (every small world)

Texts == {"a", "A", "b", "c"}
Idents == [t: {"a", "A", "b", "B", "c"}, q: BOOLEAN]

\* ---------------------------------------------------------------- variables, and the parameters of the scopes between
Text(s, r, c) == "c" \o ToString(s) \o "." \o ToString(r) \o "." \o ToString(c)
\* hands the variable v down the scopes ms; ps: the parameters so far
RECURSIVE Hand(_, _, _, _)
Hand(ps, ms, v, from) ==
    IF ms = <<>> THEN [v |-> v, ps |-> ps]
    ELSE LET m == Head(ms)
             f == {i \in DOMAIN ps[m] : ps[m][i].v = v}
             qs == IF f # {} THEN ps ELSE [ps EXCEPT ![m] = Append(@, [v |-> v, from |-> from])]
             i == IF f # {} THEN The(f) ELSE Len(ps[m]) + 1
         IN Hand(qs, Tail(ms), "p" \o ToString(m) \o "." \o ToString(i), from)

Variable(w, ps, nm) ==
    LET n == Len(nm)
        a == Find(w, Depth(w), nm, n, Vars, TRUE)
    IN IF IsBad(a) THEN [a |-> a, ps |-> ps]
       ELSE IF a.k = "ext" THEN [a |-> Is("V", "e" \o ToString(a.s) \o "/" \o a.x, 0, 0, 0), ps |-> ps]
       ELSE IF a.k # "var" THEN [a |-> Bad("variable_not_found", "whole", n), ps |-> ps]
       ELSE LET v == Text(a.s, a.r, a.c)
            IN IF a.s = Depth(w) \/ a.x = "own" THEN [a |-> Is("V", v, a.s, a.r, a.c), ps |-> ps]
               ELSE IF ~Has(w, a.s, "expose") \/ Between(w, a.s) = <<>> THEN [a |-> Bad("variable_not_found", "whole", n), ps |-> ps]
               ELSE LET h == Hand(ps, Between(w, a.s), v, v) IN [a |-> Is("V", h.v, a.s, a.r, a.c), ps |-> h.ps]

\* ---------------------------------------------------------------- the other questions
Holder(w, d) == ToString(d)
RelationInfo(w, nm) ==
    LET n == Len(nm) a == Find(w, Depth(w), nm, n, {"rel"}, TRUE)
    IN IF IsBad(a) THEN a ELSE IF a.s = Depth(w) THEN Is("R", ToString(a.s) \o "." \o ToString(a.r), a.s, a.r, 0) ELSE Bad("table_not_found", "whole", n)
RelationDecl(w, nm) ==
    LET n == Len(nm) a == Find(w, Depth(w), nm, n, {"decl", "query"}, TRUE)
    IN IF IsBad(a) THEN a
       ELSE IF a.k = "query" THEN Is("Q", ToString(a.s) \o "." \o ToString(a.r), 0, 0, 0)
       ELSE IF w.schemas[a.s].rels[a.x] = "table" THEN Is("T", Holder(w, a.s) \o "/" \o a.x, 0, 0, 0)
       ELSE Bad("table_not_found", "whole", n)
\* outside of queries: no scopes
Bare(w) == [w EXCEPT !.scopes = <<>>]
Quiet(a) == IF a.k = "none" THEN Is("N", "", 0, 0, 0) ELSE a
Table(w, nm, loud) == LET a == Find(Bare(w), 0, nm, Len(nm), {"table"}, loud) IN IF Got(a) THEN Is("T", Holder(w, a.s) \o "/" \o a.x, 0, 0, 0) ELSE Quiet(a)
Index(w, nm, loud) == LET a == Find(Bare(w), 0, nm, Len(nm), {"index"}, loud) IN IF Got(a) THEN Is("I", Holder(w, a.s) \o "/" \o a.x, 0, 0, 0) ELSE Quiet(a)
Schema(w, nm, loud) == LET a == Find(Bare(w), 0, nm, Len(nm), {"schema"}, loud) IN IF Got(a) THEN Is("S", Holder(w, a.s), 0, 0, 0) ELSE Quiet(a)
\* how many candidates of that name and number of arguments the schema d holds
Held(w, d, nm, what, n) == IF Fold(w, "function", nm[Len(nm)]) \in DOMAIN w.schemas[d][what][n + 1] THEN w.schemas[d][what][n + 1][Fold(w, "function", nm[Len(nm)])] ELSE 0
Callable(w, nm, what, n) ==
    LET m == Len(nm)
        ds == IF m = 1 THEN w.path
              ELSE LET a == Find(Bare(w), 0, nm, m - 1, {"schema"}, FALSE) IN IF Got(a) THEN <<a.s>> ELSE <<>>
        with == SelectSeq(ds, LAMBDA d : Held(w, d, nm, what, n) > 0)
    IN IF with = <<>> THEN Is("F", "", 0, 0, 0)
       ELSE Is("F", Holder(w, with[1]) \o "/" \o Fold(w, "function", nm[m]) \o "/" \o ToString(n) \o "#" \o ToString(Held(w, with[1], nm, what, n)), 0, 0, 0)
Normal(w, nm) == Is("n", Fold(w, "", nm[1]) \o Fold(w, "variable", nm[1]) \o Fold(w, "function", nm[1]) \o Fold(w, "relation", nm[1]) \o Fold(w, "schema", nm[1]) \o Fold(w, "catalog", nm[1]), 0, 0, 0)

Answer(w, ps, q) ==
    CASE q.k = "variable" -> Variable(w, ps, q.nm)
      [] q.k = "info" -> [a |-> RelationInfo(w, q.nm), ps |-> ps]
      [] q.k = "relation" -> [a |-> RelationDecl(w, q.nm), ps |-> ps]
      [] q.k = "table" -> [a |-> Table(w, q.nm, q.n = 1), ps |-> ps]
      [] q.k = "index" -> [a |-> Index(w, q.nm, q.n = 1), ps |-> ps]
      [] q.k = "schema" -> [a |-> Schema(w, q.nm, q.n = 1), ps |-> ps]
      [] q.k = "function" -> [a |-> Callable(w, q.nm, "funcs", q.n), ps |-> ps]
      [] q.k = "aggregate" -> [a |-> Callable(w, q.nm, "aggs", q.n), ps |-> ps]
      [] q.k = "normal" -> [a |-> Normal(w, q.nm), ps |-> ps]

\* ---------------------------------------------------------------- worlds
VARIABLES world, params, asked, said
vars == <<world, params, asked, said>>

OneOf(S) == RandomElement(S)
\* draws several times: RandomElement must be evaluated anew for each
Draw(n, F(_)) == [i \in 1..n |-> F(i)]
Feats == {{}, {"expose"}, {"correlation"}, {"expose", "correlation"}, {"independent"}, {"expose", "independent", "correlation"}}
RandomSchema(i) ==
    [name |-> <<"a", "b", "A", "c">>[i], listed |-> i # 4 \/ OneOf({TRUE, FALSE}),
     rels |-> [t \in Texts |-> OneOf({"none", "table", "table", "view"})], idx |-> OneOf(SUBSET Texts), vars |-> OneOf(SUBSET {"a", "A", "b"}) \cap OneOf(SUBSET {"a", "A", "b"}),
     funcs |-> [n \in 1..3 |-> [t \in {"a", "A", "b"} |-> OneOf({0, 0, 1, 2})]], aggs |-> [n \in 1..3 |-> [t \in {"a", "A", "b"} |-> OneOf({0, 0, 1, 2})]]]
RandomCol(i) == [id |-> OneOf({"a", "A", "b", "c", ""}), out |-> OneOf(1..6) > 1]
RandomRel(ss, i) ==
    LET d == OneOf(1..4) n == OneOf(Texts) id == OneOf({"a", "A", "b", "c", ""})
        declared == ss[d].rels[n] # "none" /\ OneOf(1..4) > 1
    IN [id |-> id, decl |-> IF declared THEN [s |-> d, n |-> n] ELSE NoDecl, cols |-> Draw(OneOf(0..3), RandomCol)]
RandomQuery(i) == OneOf({"a", "A", "b"})
RandomScope(ss, i) ==
    [feat |-> IF OneOf(1..3) > 1 THEN {"expose", "correlation"} ELSE OneOf(Feats), rels |-> Draw(OneOf(0..3), LAMBDA j : RandomRel(ss, j)), queries |-> Draw(OneOf({0, 0, 1, 2}), RandomQuery)]
RandomWorld(i) ==
    LET ss == Draw(4, RandomSchema)
    IN [lower |-> OneOf({{}, {}, {"all"}, OneOf(SUBSET Kinds), OneOf(SUBSET Kinds)}), catalog |-> OneOf({"", "a", "c", "A", "k"}), schemas |-> ss,
        path |-> OneOf({<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 4, 1>>, <<4>>}), scopes |-> Draw(OneOf(1..4), LAMBDA j : RandomScope(ss, j))]
Length == <<1, 1, 1, 2, 2, 2, 2, 3, 3, 4>>
\* names that exist, half of the time, so that questions get somewhere
RandomPart(i) == [t |-> OneOf({"a", "A", "b", "B", "c"}), q |-> OneOf({TRUE, FALSE, FALSE})]
RandomName(i) == LET n == Length[OneOf(1..10)] IN Draw(n, RandomPart)
Questions == {"variable", "variable1", "variable2", "variable3", "info", "info1", "relation", "relation1", "table", "index", "schema", "function", "aggregate", "normal"}
RandomAsk(i) == LET k == OneOf(Questions) IN [k |-> IF k \in {"variable1", "variable2", "variable3"} THEN "variable" ELSE IF k = "info1" THEN "info" ELSE IF k = "relation1" THEN "relation" ELSE k, nm |-> RandomName(i), n |-> OneOf(IF k \in {"function", "aggregate"} THEN 0..2 ELSE {0, 1, 1})]

\* every small world: one schema with the tables a and b and the variable b
Empty == [lower |-> {}, catalog |-> "", path |-> <<1>>, scopes |-> <<>>,
          schemas |-> <<[name |-> "b", listed |-> TRUE, rels |-> [t \in {"a", "b"} |-> "table"], idx |-> {}, vars |-> {"b"}, funcs |-> <<[t \in {} |-> 0], [t \in {} |-> 0], [t \in {} |-> 0]>>, aggs |-> <<[t \in {} |-> 0], [t \in {} |-> 0], [t \in {} |-> 0]>>]>>]
Size(w) == LET S[i \in 0..Depth(w)] == IF i = 0 THEN 0 ELSE S[i - 1] + 1 + Len(w.scopes[i].queries) + (LET T[j \in 0..Len(w.scopes[i].rels)] == IF j = 0 THEN 0 ELSE T[j - 1] + 1 + Len(w.scopes[i].rels[j].cols) IN T[Len(w.scopes[i].rels)]) IN S[Depth(w)]
U(t) == [t |-> t, q |-> FALSE]
Standard == <<[k |-> "variable", nm |-> <<U("a")>>, n |-> 0], [k |-> "variable", nm |-> <<U("b")>>, n |-> 0], [k |-> "variable", nm |-> <<U("a"), U("a")>>, n |-> 0],
              [k |-> "variable", nm |-> <<U("b"), U("a")>>, n |-> 0], [k |-> "variable", nm |-> <<U("b"), U("a"), U("a")>>, n |-> 0], [k |-> "variable", nm |-> <<U("a"), U("b"), U("a")>>, n |-> 0],
              [k |-> "variable", nm |-> <<U("a"), U("b")>>, n |-> 0], [k |-> "info", nm |-> <<U("a")>>, n |-> 0], [k |-> "info", nm |-> <<U("b"), U("a")>>, n |-> 0], [k |-> "info", nm |-> <<U("b")>>, n |-> 0],
              [k |-> "relation", nm |-> <<U("a")>>, n |-> 0], [k |-> "variable", nm |-> <<U("a")>>, n |-> 0]>>
Upto == Len(Standard)
Last_(w) == w.scopes[Depth(w)]
Build ==
    /\ Size(world) < Top
    /\ UNCHANGED <<params, asked, said>>
    /\ \/ \E f \in {{}, {"expose"}, {"correlation"}, {"expose", "correlation"}, {"independent", "correlation"}} :
              /\ Depth(world) > 0 \/ f \in {{}, {"expose"}}
              /\ world' = [world EXCEPT !.scopes = Append(@, [feat |-> f, rels |-> <<>>, queries |-> <<>>])]
       \/ /\ Depth(world) > 0
          /\ \E id \in {"", "a", "b"}, d \in {NoDecl, [s |-> 1, n |-> "a"]} :
                 /\ d = NoDecl \/ id # "a"
                 /\ world' = [world EXCEPT !.scopes[Depth(world)].rels = Append(@, [id |-> id, decl |-> d, cols |-> <<>>])]
       \/ /\ Depth(world) > 0
          /\ Last_(world).rels # <<>>
          /\ \E c \in {[id |-> "a", out |-> TRUE], [id |-> "b", out |-> TRUE], [id |-> "a", out |-> FALSE]} :
                 world' = [world EXCEPT !.scopes[Depth(world)].rels[Len(Last_(world).rels)].cols = Append(@, c)]
       \/ /\ Depth(world) > 0
          /\ Last_(world).queries = <<>>
          /\ world' = [world EXCEPT !.scopes[Depth(world)].queries = <<"a">>]

NoParams(w) == [s \in 1..Depth(w) |-> <<>>]
Init == world = Empty /\ params = <<>> /\ asked = <<>> /\ said = <<>>
Start == /\ world = Empty
         /\ \E w \in {RandomWorld(0)} : world' = w /\ params' = NoParams(w)
         /\ UNCHANGED <<asked, said>>
Ask == /\ world # Empty
       /\ Len(asked) < Asks
       /\ \E q \in {IF asked # <<>> /\ OneOf(1..4) = 1 THEN asked[OneOf(DOMAIN asked)] ELSE RandomAsk(0)} :
              LET r == Answer(world, params, q)
              IN asked' = Append(asked, q) /\ said' = Append(said, r.a) /\ params' = r.ps
       /\ UNCHANGED world
Next == IF Mode = "walk" THEN Start \/ Ask ELSE Build
Spec == Init /\ [][Next]_vars

RECURSIVE Fill(_, _, _)
Fill(w, ps, qs) == IF qs = <<>> THEN [as |-> <<>>, ps |-> ps] ELSE LET r == Answer(w, ps, Head(qs)) f == Fill(w, r.ps, Tail(qs)) IN [as |-> <<r.a>> \o f.as, ps |-> f.ps]
Result == IF Mode = "walk" THEN [as |-> said, ps |-> params] ELSE Fill(world, NoParams(world), Standard)
Done == IF Mode = "walk" THEN Len(asked) = Asks ELSE Depth(world) > 0

\* ---------------------------------------------------------------- what this guarantees
Pairs == IF Done THEN LET r == Result qs == IF Mode = "walk" THEN asked ELSE Standard IN [q |-> qs, a |-> r.as, ps |-> r.ps] ELSE [q |-> <<>>, a |-> <<>>, ps |-> <<>>]
\* the same question has the same answer, whatever was asked in between
Stable == LET p == Pairs IN \A i, j \in DOMAIN p.q : p.q[i] = p.q[j] => p.a[i] = p.a[j]
\* an unqualified column is the only one of that name in its scope, and no scope inside has one
Nearest == LET p == Pairs IN \A i \in DOMAIN p.q :
    (p.q[i].k = "variable" /\ Len(p.q[i].nm) = 1 /\ p.a[i].k = "V" /\ p.a[i].s > 0) =>
        LET id == Fold(world, "variable", p.q[i].nm[1]) a == p.a[i]
        IN Visible(world, a.s, id) = {<<a.r, a.c>>} /\ \A m \in (a.s + 1)..Depth(world) : Visible(world, m, id) = {}
\* names do not reach out of independent scopes, nor into scopes that do not expose theirs, and never to columns which are not exported
Closed == LET p == Pairs IN \A i \in DOMAIN p.q :
    (p.q[i].k = "variable" /\ p.a[i].k = "V" /\ p.a[i].s > 0) =>
        LET a == p.a[i] d == Depth(world)
        IN Rels(world, a.s)[a.r].cols[a.c].out
           /\ (a.s < d => "expose" \in world.scopes[a.s].feat /\ \A m \in (a.s + 1)..d : "independent" \notin world.scopes[m].feat)
\* parameters: only where they may be, each for another variable, each standing for a column of a scope further out, and connected from there
Parameters == LET p == Pairs IN \A s \in DOMAIN p.ps :
    /\ p.ps[s] # <<>> => "correlation" \in world.scopes[s].feat
    /\ \A i, j \in DOMAIN p.ps[s] : p.ps[s][i].v = p.ps[s][j].v => i = j
    /\ \A i \in DOMAIN p.ps[s] : LET x == p.ps[s][i] IN
           \/ x.v = x.from
           \/ \E m \in 1..(s - 1) : \E j \in DOMAIN p.ps[m] : x.v = "p" \o ToString(m) \o "." \o ToString(j) /\ p.ps[m][j].from = x.from
\* names that are not found, and only those, have a diagnostic, except where it is left to the caller
Told == LET p == Pairs IN \A i \in DOMAIN p.q : p.a[i].k = "N" => p.q[i].k \in {"table", "index", "schema"} /\ p.q[i].n # 1
\* quoted names are never folded
Quoted == LET p == Pairs IN \A i \in DOMAIN p.q : (p.q[i].k = "normal" /\ p.q[i].nm[1].q) => p.a[i].x = LET t == p.q[i].nm[1].t IN t \o t \o t \o t \o t \o t

Emit == Done => LET p == Pairs IN CSVWrite("%1$s", <<ToJson([w |-> world, q |-> p.q, a |-> p.a, ps |-> p.ps])>>, OutFile)
=============================================================================
