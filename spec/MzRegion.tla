----------------------------- MODULE MzRegion -----------------------------
(***************************************************************************)
(* Source ranges.  A range is a pair of positions; NP stands for "no       *)
(* position" and a range holding it is empty.  Positions are points of an  *)
(* ordered line: the conformance check places the points 0..N anywhere in  *)
(* the machine's number range, keeping their order.                        *)
(*                                                                         *)
(* The machine accumulates ranges by joining, from either side.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, N, Depth

NP == -1
Pts == 0..N
R(b, e) == <<b, e>>
Ordered == {r \in Pts \X Pts : r[1] <= r[2]}
Empty == {R(NP, NP), R(0, NP), R(N, NP), R(NP, 0), R(NP, N)}
Regions == Ordered \cup Empty

IsEmpty(r) == r[1] = NP \/ r[2] = NP
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Join(a, b) == CASE IsEmpty(a) -> b
                [] IsEmpty(b) -> a
                [] OTHER -> R(Min(a[1], b[1]), Max(a[2], b[2]))
Covers(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
\* the part of r from point p to point q, or to the end
Part(r, p, q) == R(Min(p, r[2]), IF q = NP THEN r[2] ELSE Min(q, r[2]))
Same(a, b) == a[1] = b[1] /\ a[2] = b[2]

VARIABLES acc, parts, hist, ask
vars == <<acc, parts, hist, ask>>
None == [op |-> "none"]

Init == acc = R(NP, NP) /\ parts = {} /\ hist = <<>> /\ ask = None

Add == \E r \in Regions : \E left \in BOOLEAN :
         /\ Len(hist) < Depth
         /\ acc' = IF left THEN Join(r, acc) ELSE Join(acc, r)
         /\ parts' = parts \cup {r}
         /\ hist' = Append(hist, <<r, IF left THEN "left" ELSE "right">>)
         /\ UNCHANGED ask
\* joining two accumulated values: any grouping of joins
AddPair == \E r, s \in Regions :
         /\ Len(hist) < Depth
         /\ acc' = Join(acc, Join(r, s))
         /\ parts' = parts \cup {r, s}
         /\ hist' = Append(hist, <<r, "pair", s>>)
         /\ UNCHANGED ask
Ask == /\ hist = <<>>
       /\ \/ \E a, b \in Regions : ask' = [op |-> "compare", a |-> a, b |-> b, x |-> Same(a, b)]
          \/ \E a \in Regions : ask' = [op |-> "look", a |-> a, b |-> a, x |-> ~IsEmpty(a)]
          \/ \E a \in Ordered : \E p \in a[1]..N : \E q \in {NP} \cup p..N :
                ask' = [op |-> "part", a |-> a, b |-> R(p, q), x |-> Part(a, p, q)]
          \* a value carrying a range compares by its value only
          \/ \E a, b \in Regions : \E v, w \in 0..1 : ask' = [op |-> "carry", a |-> a, b |-> b, v |-> v, w |-> w, x |-> v = w]
       /\ UNCHANGED <<acc, parts, hist>>
Next == ask = None /\ (Add \/ AddPair \/ Ask)
Spec == Init /\ [][Next]_vars

Real == {r \in parts : ~IsEmpty(r)}
\* the accumulated range is the smallest one covering all that were joined
Smallest == IF Real = {} THEN IsEmpty(acc)
            ELSE /\ ~IsEmpty(acc)
                 /\ \A r \in Real : Covers(acc, r)
                 /\ \E r \in Real : acc[1] = r[1]
                 /\ \E r \in Real : acc[2] = r[2]
\* up to the choice among empty ranges
Alike(a, b) == Same(a, b) \/ (IsEmpty(a) /\ IsEmpty(b))
Laws == hist = <<>> /\ ask = None =>
        /\ \A a, b \in Regions : Alike(Join(a, b), Join(b, a))
        /\ \A a \in Regions : Same(Join(a, a), a)
        /\ \A a, b, c \in Regions : Alike(Join(Join(a, b), c), Join(a, Join(b, c)))
        /\ \A a, b \in Regions : IsEmpty(b) => Alike(Join(a, b), a)
        /\ \A a, b, c \in Ordered : Covers(c, a) /\ Covers(c, b) => Covers(c, Join(a, b))
PartInside == ask.op = "part" => Covers(ask.a, ask.x) /\ ask.x[1] <= ask.x[2]

Emit == IF ask # None THEN CSVWrite("%1$s", <<ToJson(ask)>>, OutFile)
        ELSE hist # <<>> => CSVWrite("%1$s", <<ToJson([op |-> "join", h |-> hist, x |-> acc])>>, OutFile)
=============================================================================
