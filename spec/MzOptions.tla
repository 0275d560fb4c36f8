---------------------------- MODULE MzOptions ----------------------------
(***************************************************************************)
(* Option objects and element maps as values that are created, written,    *)
(* read, copied and moved.                                                 *)
(*                                                                         *)
(* opt[i] is an option object (0: never created or moved from), map[j] an  *)
(* element map.  A write always uses a value never written before, or 0,   *)
(* so that a value found in a wrong place betrays itself.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile,
          Slots,      \* number of option objects and of element maps
          Depth,      \* length of the histories
          Kinds,      \* element kinds written (numbers 0 .. 19 in declaration order)
          Walk        \* long random histories, emitted only at the end

NKinds == 20
AllKinds == 0..NKinds - 1
Fields == {"max_expected_candidates", "tree_node_limit", "tree_depth_limit", "enable_description_comments", "debug"}

\* documented defaults
Zero == [k \in AllKinds |-> 0]
Default == [max_expected_candidates |-> 5, tree_node_limit |-> 0, tree_depth_limit |-> 0,
            enable_description_comments |-> 1, debug |-> 0, limits |-> Zero]
Gone == [gone |-> 0]
Live(o) == o # Gone

VARIABLES opt, map, hist, done
vars == <<opt, map, hist, done>>
S == 1..Slots

Fresh == 10 + Len(hist)
Op(n, i, x, v, w) == <<n, i, x, v, w>>
Did(op) == hist' = Append(hist, op) /\ UNCHANGED done
\* random walks choose the operation first, its operands after
Some(T) == IF Walk THEN {RandomElement(T)} ELSE T

Init == /\ opt = [i \in S |-> IF i = 1 THEN Default ELSE Gone]
        /\ map = [i \in S |-> Zero]
        /\ hist = <<>>
        /\ done = FALSE

\* a new option object, in place of whatever the slot held
New == \E i \in S : /\ opt' = [opt EXCEPT ![i] = Default]
                    /\ Did(Op("new", i, 0, 0, "")) /\ UNCHANGED map
NewMap == \E i \in S : /\ map' = [map EXCEPT ![i] = Zero]
                       /\ Did(Op("newmap", i, 0, 0, "")) /\ UNCHANGED opt

SetField == \E i \in S : \E f \in Fields : \E v \in (IF f = "enable_description_comments" THEN {0, 1} ELSE {0, Fresh}) :
              /\ Live(opt[i])
              /\ opt' = [opt EXCEPT ![i][f] = v]
              /\ Did(Op("set", i, f, v, "")) /\ UNCHANGED map
SetLimit == \E i \in S : \E k \in Some(Kinds) : \E v \in Some({0, Fresh}) : \E w \in Some({"index", "get"}) :
              /\ Live(opt[i])
              /\ opt' = [opt EXCEPT ![i].limits[k] = v]
              /\ Did(Op("limit", i, k, v, w)) /\ UNCHANGED map
SetMap == \E i \in S : \E k \in Some(Kinds) : \E v \in Some({0, Fresh}) : \E w \in Some({"index", "get"}) :
              /\ map' = [map EXCEPT ![i][k] = v]
              /\ Did(Op("map", i, k, v, w)) /\ UNCHANGED opt

\* writing through references taken before other accesses
SetTwo == \E i \in S : \E k \in Some(Kinds) : \E l \in Some(IF Walk THEN Kinds ELSE Kinds \cap {(k + 1) % NKinds, (k + 7) % NKinds}) :
              /\ Live(opt[i]) /\ k # l
              /\ opt' = [opt EXCEPT ![i].limits[k] = Fresh, ![i].limits[l] = Fresh + 1000]
              /\ Did(Op("two", i, k, Fresh, ToString(l))) /\ UNCHANGED map

\* moving an option object: the source can no longer be used, only replaced
MoveOpt == \E i, j \in S : \E w \in {"construct", "assign"} :
              /\ i # j /\ Live(opt[i]) /\ (w = "assign" => Live(opt[j]))
              /\ opt' = [opt EXCEPT ![j] = opt[i], ![i] = Gone]
              /\ Did(Op("moveopt", i, j, 0, w)) /\ UNCHANGED map
SwapOpt == \E i, j \in S :
              /\ i < j /\ Live(opt[i]) /\ Live(opt[j])
              /\ opt' = [opt EXCEPT ![j] = opt[i], ![i] = opt[j]]
              /\ Did(Op("swapopt", i, j, 0, "")) /\ UNCHANGED map
\* copying maps between each other and into and out of option objects
CopyMap == \E i, j \in S : \E w \in {"construct", "assign", "self"} :
              /\ (w = "self") = (i = j)
              /\ map' = [map EXCEPT ![j] = map[i]]
              /\ Did(Op("copymap", i, j, 0, w)) /\ UNCHANGED opt
Export == \E i, j \in S :
              /\ Live(opt[i])
              /\ map' = [map EXCEPT ![j] = opt[i].limits]
              /\ Did(Op("export", i, j, 0, "")) /\ UNCHANGED opt
Import == \E i, j \in S :
              /\ Live(opt[j])
              /\ opt' = [opt EXCEPT ![j].limits = map[i]]
              /\ Did(Op("import", i, j, 0, "")) /\ UNCHANGED map
CopyLimits == \E i, j \in S :
              /\ i # j /\ Live(opt[i]) /\ Live(opt[j])
              /\ opt' = [opt EXCEPT ![j].limits = opt[i].limits]
              /\ Did(Op("copylimits", i, j, 0, "")) /\ UNCHANGED map

Writes == New \/ NewMap \/ SetField \/ SetLimit \/ SetMap \/ SetTwo \/ MoveOpt \/ SwapOpt \/ CopyMap \/ Export \/ Import \/ CopyLimits

Row(m) == [k \in 1..NKinds |-> m[k - 1]]
Show(o) == IF Live(o) THEN <<o.max_expected_candidates, o.tree_node_limit, o.tree_depth_limit, o.enable_description_comments, o.debug>> \o Row(o.limits)
           ELSE <<>>
Emit == CSVWrite("%1$s", <<ToJson([h |-> hist, o |-> [i \in S |-> Show(opt[i])], m |-> [i \in S |-> Row(map[i])]])>>, OutFile)
Finish == ~done /\ (Walk => Len(hist) = Depth) /\ done' = TRUE /\ UNCHANGED <<opt, map, hist>> /\ Emit
Next == \/ ~done /\ Len(hist) < Depth /\ Writes
        \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every write touches what it names and nothing else
Last(h) == h[Len(h)]
Frame == [][LET o == Last(hist') IN hist' # hist =>
            CASE o[1] = "set"   -> /\ \A f \in Fields \ {o[3]} : opt'[o[2]][f] = opt[o[2]][f]
                                   /\ opt'[o[2]].limits = opt[o[2]].limits
                                   /\ \A i \in S \ {o[2]} : opt'[i] = opt[i]
              [] o[1] = "limit" -> /\ \A f \in Fields : opt'[o[2]][f] = opt[o[2]][f]
                                   /\ \A k \in AllKinds \ {o[3]} : opt'[o[2]].limits[k] = opt[o[2]].limits[k]
                                   /\ \A i \in S \ {o[2]} : opt'[i] = opt[i]
              [] o[1] = "map"   -> /\ \A k \in AllKinds \ {o[3]} : map'[o[2]][k] = map[o[2]][k]
                                   /\ \A i \in S \ {o[2]} : map'[i] = map[i]
              [] o[1] \in {"new", "moveopt", "swapopt", "two", "import", "copylimits"} -> map' = map
              [] OTHER -> opt' = opt]_vars
\* a value written once can be found only in copies of the object it was written to
NoInvention == \A i \in S : Live(opt[i]) => opt[i].max_expected_candidates \in {0, 5} \cup 10..9 + Len(hist)
=============================================================================
