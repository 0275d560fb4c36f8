------------------------------ MODULE MzLimits ------------------------------
(***************************************************************************)
(* Limits as an abstract machine: it carries out the list growth events of *)
(* a sentence one by one, stops at the first surplus element, and measures *)
(* the tree of a sentence that got through.                                *)
(*                                                                         *)
(*   cur    sentence (record of the file), as derived by MzDerive:         *)
(*          gr  events <<list kind, new length, begin, end of the blamed>> *)
(*          err violated context condition <<code, b, e, events before>>   *)
(*          tree  list of statements                                       *)
(*   flat   the nodes of the tree of cur                                   *)
(*   lim    element limit of each list kind (0: none)                      *)
(*   nl,dl  limits of the number of nodes and of the depth                 *)
(*   step   events carried out                                             *)
(*   out    outcome: <<>> while running, else <<"V", count, depth>> or     *)
(*          <<"E", code, set of places>>                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzAction

CONSTANTS OutFile, File, Mode

Recs == ndJsonDeserialize(File)

VARIABLES cur, flat, lim, nl, dl, step, out
vars == <<cur, flat, lim, nl, dl, step, out>>

\* every kind of list
Kinds == { "statement", "schema_element_definition", "table_element_definition", "column_constraint_definition",
           "column_reference", "storage_parameter", "set_clause", "with_element", "select_element", "table_reference",
           "grouping_element", "ordering_element", "field_definition", "row_expression", "scalar_expression",
           "when_clause", "string_literal_concatenation", "privilege_action", "privilege_object", "privilege_user" }
ASSUME \A i \in 1..Len(Prods) : Prods[i].act.o = "snoc" => Prods[i].act.k \in Kinds

\* ---- the tree
Last(s) == s[Len(s)]
\* blank after the last semicolon is no statement
Shown(t) == IF t[2] # <<>> /\ Last(t[2])[2] = "statement.empty_statement" THEN SubSeq(t[2], 1, Len(t[2]) - 1) ELSE t[2]
RECURSIVE Flat(_, _), FlatAll(_, _)
\* the nodes of v below d nodes: <<begin, end, depth>>
Flat(v, d) ==
    CASE v = <<>>   -> <<>>
      [] v[1] = "N" -> IF v[2] \in NodeElement THEN FlatAll([ j \in 1..Len(v[3]) |-> v[3][j][2] ], d)
                       ELSE << <<v[4], v[5], d + 1>> >> \o FlatAll([ j \in 1..Len(v[3]) |-> v[3][j][2] ], d + 1)
      [] v[1] = "L" -> FlatAll(v[2], d)
      [] OTHER      -> <<>>
FlatAll(s, d) == IF s = <<>> THEN <<>> ELSE Flat(Head(s), d) \o FlatAll(Tail(s), d)

\* ---- settings worth looking at
KindsOf(r) == { r.gr[j][1] : j \in 1..Len(r.gr) }
LenOf(r, k) == MaxSeq([ j \in 1..Len(r.gr) |-> IF r.gr[j][1] = k THEN r.gr[j][2] ELSE 0 ])
None == [ k \in Kinds |-> 0 ]
ListSettings(r) ==
    { None, [ k \in Kinds |-> IF k \in KindsOf(r) THEN LenOf(r, k) ELSE 1 ], [ k \in Kinds |-> 1 ], [ k \in Kinds |-> 2 ] }
    \cup UNION { { [None EXCEPT ![k] = n] : n \in (1..(LenOf(r, k) + 1)) \ (4..(LenOf(r, k) - 2)) } : k \in KindsOf(r) }
    \cup { [ k \in Kinds |-> IF k = x THEN LenOf(r, k) - 1 ELSE IF k \in KindsOf(r) THEN LenOf(r, k) ELSE 1 ] : x \in KindsOf(r) }
TreeSettings(n, d) ==
    { <<a, 0>> : a \in {1, n - 1, n, n + 1, 2 * n} } \cup { <<0, a>> : a \in {1, d - 1, d, d + 1, 2 * d} }
    \cup { <<n, d>>, <<n - 1, d>>, <<n, d - 1>>, <<n - 1, d - 1>>, <<n + 1, d - 1>>, <<n - 1, d + 1>>, <<n + 1, d + 1>>, <<0, 0>> }

Init ==
    /\ cur \in 1..Len(Recs)
    /\ step = 0 /\ out = <<>>
    /\ flat = IF Recs[cur].err # <<>> THEN <<>> ELSE FlatAll(Shown(Recs[cur].tree), 0)
    /\ IF Mode = "lists"
       THEN lim \in ListSettings(Recs[cur]) /\ nl = 0 /\ dl = 0
       ELSE /\ lim \in { None, [ k \in Kinds |-> IF k \in KindsOf(Recs[cur]) THEN LenOf(Recs[cur], k) ELSE 1 ] }
            /\ LET s == TreeSettings(Len(flat), MaxSeq([ j \in 1..Len(flat) |-> flat[j][3] ]))
               IN  \E x \in s : x[1] >= 0 /\ x[2] >= 0 /\ nl = x[1] /\ dl = x[2]

R0 == Recs[cur]
Events == IF R0.err = <<>> THEN Len(R0.gr) ELSE R0.err[4]

\* one list grows
Element ==
    /\ out = <<>> /\ step < Events
    /\ step' = step + 1
    /\ LET g == R0.gr[step + 1] IN
       out' = IF lim[g[1]] # 0 /\ g[2] > lim[g[1]] THEN <<"E", "exceed_number_of_elements", { <<g[3], g[4]>> }>> ELSE out
    /\ UNCHANGED <<cur, flat, lim, nl, dl>>
Violate ==
    /\ out = <<>> /\ step = Events /\ R0.err # <<>>
    /\ out' = <<"E", R0.err[1], { <<R0.err[2], R0.err[3]>> }>>
    /\ UNCHANGED <<cur, flat, lim, nl, dl, step>>
\* the tree is complete
Measure ==
    /\ out = <<>> /\ step = Events /\ R0.err = <<>>
    /\ LET f  == flat
           n  == Len(f)
           d  == MaxSeq([ j \in 1..n |-> f[j][3] ])
           tooMany == nl > 0 /\ n > nl
           tooDeep == dl > 0 /\ d > dl
       IN  out' = IF tooMany \/ tooDeep
                  THEN <<"E", "exceed_number_of_elements",
                         { <<f[j][1], f[j][2]>> : j \in { j \in 1..n : tooMany \/ f[j][3] = dl + 1 } }>>
                  ELSE IF nl = 0 /\ dl = 0 THEN <<"V", 0, 0>> ELSE <<"V", n, d>>
    /\ UNCHANGED <<cur, flat, lim, nl, dl, step>>
Next == Element \/ Violate \/ Measure
Spec == Init /\ [][Next]_vars

Emit == out = <<>> \/ CSVWrite("%1$s", <<ToJson([i |-> cur, lim |-> { <<k, lim[k]>> : k \in { k \in Kinds : lim[k] # 0 } },
                                                 nl |-> nl, dl |-> dl, out |-> out])>>, OutFile)

\* a sentence is refused for a list exactly if some single list is longer than its limit
Exact ==
    out # <<>> /\ R0.err = <<>> /\ Mode = "lists" =>
        ((out[1] = "E") <=> \E j \in 1..Len(R0.gr) : lim[R0.gr[j][1]] # 0 /\ R0.gr[j][2] > lim[R0.gr[j][1]])
\* the measurements of MzDerive, less the statement that is not shown
Agrees ==
    out # <<>> /\ out[1] = "V" /\ (nl > 0 \/ dl > 0) =>
        LET x == Len(R0.tree[2]) - Len(Shown(R0.tree)) IN
        out[2] = R0.n - x /\ (Shown(R0.tree) # <<>> => out[3] = R0.d)
=============================================================================
