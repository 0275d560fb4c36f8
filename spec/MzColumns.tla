----------------------------- MODULE MzColumns -----------------------------
(***************************************************************************)
(* The columns of one relation in a query: added, renamed, hidden and      *)
(* removed, and always found by name (all of that name, in order) and by   *)
(* declaration (the one column declared so).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, Most, Wide

\* a column: its number, name ("~": none), whether it is visible, declaration (0: none)
VARIABLES cols, ops, next
vars == <<cols, ops, next>>
Init == cols = <<>> /\ ops = <<>> /\ next = 1
Add == \E id \in {"a", "b", "~"} \cup (IF Wide THEN {"A"} ELSE {}), out \in (IF Wide THEN BOOLEAN ELSE {TRUE}), d \in 0..2 :
           /\ cols' = Append(cols, [n |-> next, id |-> id, out |-> out, d |-> d])
           /\ next' = next + 1
           /\ ops' = Append(ops, [k |-> "a", x |-> id, i |-> d, j |-> IF out THEN 1 ELSE 0])
Erase == \E i \in 0..Len(cols), j \in 0..Len(cols) :
           /\ i <= j \/ (i = 1 /\ j = 0)
           /\ i < Len(cols)
           /\ cols' = IF i < j THEN SubSeq(cols, 1, i) \o SubSeq(cols, j + 1, Len(cols)) ELSE cols
           /\ ops' = Append(ops, [k |-> "e", x |-> "", i |-> i, j |-> j])
           /\ UNCHANGED next
Rename == \E i \in DOMAIN cols, id \in {"a", "b", "~"} :
           /\ cols[i].id # id
           /\ cols' = [cols EXCEPT ![i].id = id]
           /\ ops' = Append(ops, [k |-> "n", x |-> id, i |-> i - 1, j |-> 0])
           /\ UNCHANGED next
Hide == \E i \in DOMAIN cols :
           /\ cols' = [cols EXCEPT ![i].out = ~@]
           /\ ops' = Append(ops, [k |-> "x", x |-> "", i |-> i - 1, j |-> 0])
           /\ UNCHANGED next
Next == Len(ops) < Most /\ (Add \/ (cols # <<>> /\ (Erase \/ Rename \/ (Wide /\ Hide))))
Spec == Init /\ [][Next]_vars

Is(id) == SelectSeq(cols, LAMBDA c : c.id = id)
Numbers(s) == [i \in DOMAIN s |-> s[i].n]
ByName == [i \in 1..4 |-> Numbers(Is(<<"a", "b", "A", "">>[i]))]
ByDecl == [d \in 1..3 |-> LET s == SelectSeq(cols, LAMBDA c : c.d = d) IN IF Len(s) > 1 THEN -1 ELSE IF s = <<>> THEN 0 ELSE s[1].n]

\* every column with a name is found by it, once
Found == \A i \in DOMAIN cols : cols[i].id \in {"a", "b", "A"} => Cardinality({p \in {<<k, j>> : k \in 1..4, j \in 1..Len(cols)} : p[2] <= Len(ByName[p[1]]) /\ ByName[p[1]][p[2]] = cols[i].n}) = 1
Ordered == \A i, j \in DOMAIN cols : i < j => cols[i].n < cols[j].n
Emit == Len(ops) > 0 => CSVWrite("%1$s", <<ToJson([ops |-> ops, cols |-> cols, name |-> ByName, decl |-> ByDecl])>>, OutFile)
=============================================================================
