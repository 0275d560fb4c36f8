------------------------------ MODULE MzTables ------------------------------
(***************************************************************************)
(* Tables computed from the grammar data: symbol sets, minimal sentences,  *)
(* cheapest contexts, nullable symbols and first sets.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, MzGrammar

NP       == Len(Prods)
PI       == 1..NP
NT       == { Prods[i].lhs : i \in PI }
Symbols  == UNION { { Prods[i].rhs[j] : j \in 1..Len(Prods[i].rhs) } : i \in PI }
Term     == Symbols \ NT
EOFT     == "<END_OF_FILE>"
ProdsOf  == [ n \in NT |-> { i \in PI : Prods[i].lhs = n } ]

Inf == 1000000

RECURSIVE SumLen(_, _, _)
SumLen(f, s, j) == IF j > Len(s) THEN 0
                   ELSE (IF s[j] \in NT THEN f[s[j]] ELSE 1) + SumLen(f, s, j + 1)
Cap(x) == IF x > Inf THEN Inf ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE FixMin(_)
FixMin(f) ==
    LET g == [ n \in NT |-> MinOf({ Cap(1 + SumLen(f, Prods[i].rhs, 1)) : i \in ProdsOf[n] }) ]
    IN  IF g = f THEN f ELSE FixMin(g)

\* size of the smallest derivation of each nonterminal (tokens + nonterminals, hence well-founded)
MinSize == FixMin([ n \in NT |-> Inf ])
MinProd == [ n \in NT |->
    CHOOSE i \in ProdsOf[n] : Cap(1 + SumLen(MinSize, Prods[i].rhs, 1)) = MinSize[n] ]

\* cheapest context in which a nonterminal occurs: Dijkstra-like fixpoint from Start.
\* An occurrence is <<production, position>>.
Occ == UNION { { <<i, j>> : j \in { j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] \in NT } } : i \in PI }
OccOf == [ n \in NT |-> { o \in Occ : Prods[o[1]].rhs[o[2]] = n } ]
OccCost(f, o) ==
    LET p == Prods[o[1]]
    IN  Cap(f[p.lhs] + 1 + SumLen(MinSize, p.rhs, 1) - MinSize[p.rhs[o[2]]])
RECURSIVE FixCtx(_)
FixCtx(f) ==
    LET g == [ n \in NT |-> IF n = Start THEN 0
                            ELSE MinOf({ Inf } \cup { OccCost(f, o) : o \in OccOf[n] }) ]
    IN  IF g = f THEN f ELSE FixCtx(g)
CtxCost == FixCtx([ n \in NT |-> IF n = Start THEN 0 ELSE Inf ])
CtxOcc  == [ n \in NT \ { Start } |->
    CHOOSE o \in OccOf[n] : OccCost(CtxCost, o) = CtxCost[n] ]
RECURSIVE Spine(_)
\* the occurrences leading from Start to nonterminal n
Spine(n) == IF n = Start THEN <<>> ELSE Append(Spine(Prods[CtxOcc[n][1]].lhs), CtxOcc[n])
SpineOf == [ n \in NT |-> Spine(n) ]

RECURSIVE FixNull(_)
FixNull(S) ==
    LET T == S \cup { Prods[i].lhs : i \in { i \in PI : \A j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] \in S } }
    IN  IF T = S THEN S ELSE FixNull(T)
Nullable == FixNull({})

\* smallest production that is not empty
FullProd == [ n \in Nullable |->
    LET S == { i \in ProdsOf[n] : Prods[i].rhs # <<>> /\ ~ \A j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] \in Nullable }
        T == IF S = {} THEN ProdsOf[n] ELSE S
    IN  CHOOSE i \in T : \A k \in T : SumLen(MinSize, Prods[i].rhs, 1) <= SumLen(MinSize, Prods[k].rhs, 1) ]

ASSUME \A n \in NT : MinSize[n] < Inf          \* every nonterminal is productive
ASSUME \A n \in NT : CtxCost[n] < Inf          \* and reachable
=============================================================================
