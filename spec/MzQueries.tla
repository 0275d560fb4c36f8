----------------------------- MODULE MzQueries -----------------------------
(***************************************************************************)
(* Queries over catalogs drawn at random, with their meaning by MzQuery.   *)
(***************************************************************************)
EXTENDS MzDraw, Json, CSV, IOUtils
CONSTANTS OutFile, Chains, Steps, Seed0

\* ---------------------------------------------------------------- behaviour
Worlds == [k \in 1..12 |-> WorldG(Child(<<Seed0 % M, 77>>, k))]
VARIABLES seed, step
vars == <<seed, step>>
Init == seed \in {Child(<<(Seed0 * 7 + 3) % M, c>>, c) : c \in 1..Chains} /\ step = 1
Next == step < Steps /\ step' = step + 1 /\ seed' = Child(seed, 3)
Spec == Init /\ [][Next]_vars

Case(s) == LET k == P(s, 601, 12) + 1
               w == Worlds[k]
               env == [l |-> w.lower # {}, w |-> w, cols |-> <<>>, outer |-> <<>>, inner |-> <<>>, ctes |-> <<>>, many |-> FALSE, agg |-> FALSE, operand |-> FALSE, before |-> <<>>]
               q == QueryG(Child(s, 602), env, <<>>, 2)
               r == Query([w EXCEPT !.asks = Asks(QueryText(q, "q"))], q, "q", "", FALSE)
           IN [w |-> k, q |-> q, r |-> r]
Told(r) == IF IsErr(r) THEN [e |-> r.e, a |-> r.a, b |-> r.b] ELSE [plan |-> Emitted(r)]

\* ---------------------------------------------------------------- what this guarantees
\* one column for every element of the select list, in order and with its name; asterisks stand for the columns of the tables
RECURSIVE Named1(_, _), Lists(_, _)
Named1(w, el) == IF el.n # <<>> THEN Fold(w, "variable", el.n[1]) ELSE IF el.e.k = "var" THEN Fold(w, "variable", Last(el.e.x)) ELSE ""
Lists(w, q) == CASE q.k = "select" -> IF \A j \in DOMAIN q.els : q.els[j].k = "col" THEN <<[j \in DOMAIN q.els |-> Named1(w, q.els[j])]>> ELSE <<>>
                 [] q.k = "values" -> <<[j \in DOMAIN q.rows[1] |-> ""]>>
                 [] q.k = "set" -> Lists(w, q.l)
                 [] q.k = "with" -> Lists(w, q.q)
                 [] OTHER -> <<>>
InOrder(w, q, r) == LET l == Lists(w, q) IN ~IsErr(r) /\ l # <<>> => [j \in DOMAIN Visible1(r) |-> Visible1(r)[j].id] = l[1]
\* a refusal is about a part of the text
Pointed(q, r) == IsErr(r) => LET t == QueryText(q, "q") IN \E i, j \in DOMAIN t : i < j /\ t[i] = "<" \o r.a /\ t[j] = ">" \o r.b
\* set operations keep the names of their left side and demand as many columns of both
RECURSIVE Sides(_, _)
Sides(w, q) == CASE q.k = "set" -> Sides(w, q.l) /\ Sides(w, q.r) /\ LET l == Lists(w, q.l) r == Lists(w, q.r) IN l # <<>> /\ r # <<>> => Len(l[1]) = Len(r[1])
                 [] q.k = "with" -> Sides(w, q.q) /\ \A j \in DOMAIN q.els : Sides(w, q.els[j].q)
                 [] OTHER -> TRUE
Emit == LET c == Case(seed)
            w == Worlds[c.w]
        IN /\ InOrder(w, c.q, c.r)
           /\ Pointed(c.q, c.r)
           /\ ~IsErr(c.r) => Sides(w, c.q)
           /\ CSVWrite("%1$s", <<ToJson([w |-> c.w, t |-> QueryText(c.q, "q"), r |-> Told(c.r)])>>, OutFile)
ASSUME CSVWrite("%1$s", <<ToJson([worlds |-> Worlds])>>, OutFile)
=============================================================================
