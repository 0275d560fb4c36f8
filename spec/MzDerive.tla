------------------------------ MODULE MzDerive ------------------------------
(***************************************************************************)
(* The parser as an abstract machine: a pushdown automaton that produces   *)
(* sentences of the language together with their meaning.                  *)
(*                                                                         *)
(*   stack   what remains to be read: symbols and reductions               *)
(*   toks    terminals emitted so far                                      *)
(*   vals    denotations of completed symbols (semantic stack)             *)
(*   err     first violated context condition                              *)
(*   gr      list growth events so far, in order                           *)
(*                                                                         *)
(* A stack entry is [s, pl]: symbol s to be expanded following plan pl     *)
(* (NoPlan = smallest completion), or [s, r] with r > 0: reduce            *)
(* production r.  A plan is a production and plans for some of its         *)
(* positions.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzTables, MzAction

CONSTANTS OutFile, Mode, Fuel, Part, Parts

VARIABLES goal, stack, toks, vals, err, gr
vars == <<goal, stack, toks, vals, err, gr>>

Sym(s, pl)  == [s |-> s, pl |-> pl, r |-> 0]
PlanOf(i, s) == [p |-> i, s |-> s]
NoPlan      == PlanOf(0, <<>>)
Red(i)      == [s |-> "", pl |-> NoPlan, r |-> i]

PrevEnd == LET n == Len(toks) IN IF n = 0 THEN 0 ELSE 2 * n + 1

\* ---- goals: which derivations to carry out
RECURSIVE Along(_, _)
\* plan that follows the occurrences of path and ends in plan pl
Along(path, pl) ==
    IF path = <<>> THEN pl
    ELSE PlanOf(path[1][1], (path[1][2] :> Along(Tail(path), pl)))
Goal(id, n, pl) == [id |-> id, pl |-> Along(SpineOf[n], pl)]

\* every production in its cheapest context
ProdGoals(x) == { Goal(<<i>>, Prods[i].lhs, PlanOf(i, <<>>)) : i \in PI }
\* every production below every occurrence of its left hand side
PairGoals(x) == UNION { { Goal(<<o[1], o[2], i>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> PlanOf(i, <<>>))))
                        : i \in ProdsOf[Prods[o[1]].rhs[o[2]]] } : o \in Occ }
\* every production below every occurrence below every occurrence
TripleGoals(x) ==
    UNION { UNION { { Goal(<<o[1], o[2], q[1], q[2], i>>, Prods[o[1]].lhs,
                           PlanOf(o[1], (o[2] :> PlanOf(q[1], (q[2] :> PlanOf(i, <<>>))))))
                        : i \in ProdsOf[Prods[q[1]].rhs[q[2]]] }
                    : q \in { q \in Occ : Prods[q[1]].lhs = Prods[o[1]].rhs[o[2]] } } : o \in Occ }
\* every pair of alternatives of two symbols of the same production
SibGoals(x) ==
    UNION { UNION { { Goal(<<o[1], o[2], q[2], i, j>>, Prods[o[1]].lhs,
                           PlanOf(o[1], (o[2] :> PlanOf(i, <<>>)) @@ (q[2] :> PlanOf(j, <<>>))))
                        : i \in ProdsOf[Prods[o[1]].rhs[o[2]]], j \in ProdsOf[Prods[q[1]].rhs[q[2]]] }
                    : q \in { q \in Occ : q[1] = o[1] /\ q[2] > o[2] } } : o \in Occ }
\* every production with all its optional parts present
FullGoals(x) == { Goal(<<i>>, Prods[i].lhs,
                    PlanOf(i, [ j \in { j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] \in Nullable }
                                 |-> PlanOf(FullProd[Prods[i].rhs[j]], <<>>) ])) : i \in PI }
\* every list grown to several lengths, alone and as an element of itself or beside others
Growing == { i \in PI : Prods[i].act.o = "snoc" /\ \E j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] = Prods[i].lhs }
RecAt(i) == CHOOSE j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] = Prods[i].lhs
Grow(i, k) == Along([ x \in 1..k |-> <<i, RecAt(i)>> ], PlanOf(i, <<>>))
PumpGoals(x) ==
    UNION { { Goal(<<i, k>>, Prods[i].lhs, Grow(i, k)) : k \in 1..Fuel } : i \in Growing }
    \cup UNION { UNION { { Goal(<<o[1], i, k>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> Grow(i, k))))
                            : k \in {1, 3} } : o \in { o \in OccOf[Prods[i].lhs] : o[1] # i } } : i \in Growing }
\* every production that contains its own left hand side, wound up below every occurrence of it
Turning == { i \in PI : \E j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] = Prods[i].lhs }
TurnsAt(i) == { j \in 1..Len(Prods[i].rhs) : Prods[i].rhs[j] = Prods[i].lhs }
Turn(i, j, k) == Along([ x \in 1..k |-> <<i, j>> ], PlanOf(i, <<>>))
ChainGoals(x) ==
    UNION { UNION { UNION { { Goal(<<o[1], o[2], i, j, k>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> Turn(i, j, k)))) : k \in {2, 3} }
                          : j \in TurnsAt(i) } : o \in OccOf[Prods[i].lhs] } : i \in Turning }
\* the symbols a symbol may stand for by itself, with the productions that lead there
Units == { i \in PI : Len(Prods[i].rhs) = 1 /\ Prods[i].rhs[1] \in NT }
RECURSIVE UnitGrow(_)
UnitGrow(f) ==
    LET next == { i \in Units : Prods[i].lhs \in DOMAIN f /\ Prods[i].rhs[1] \notin DOMAIN f }
    IN  IF next = {} THEN f
        ELSE UnitGrow(f @@ [ n \in { Prods[i].rhs[1] : i \in next } |->
                        LET i == CHOOSE i \in next : Prods[i].rhs[1] = n IN Append(f[Prods[i].lhs], <<i, 1>>) ])
UnitPath == [ n \in NT |-> UnitGrow(n :> <<>>) ]
Below(o) == LET n == Prods[o[1]].rhs[o[2]] IN DOMAIN UnitPath[n] \ {n}
\* every production below every occurrence of a symbol that may stand for its left hand side
UnitGoals(x) ==
    UNION { UNION { { Goal(<<o[1], o[2], i>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> Along(UnitPath[Prods[o[1]].rhs[o[2]]][n], PlanOf(i, <<>>)))))
                        : i \in ProdsOf[n] \ Units } : n \in Below(o) } : o \in { o \in Occ : o[1] \notin Units } }
\* the same, wound up
WoundGoals(x) ==
    UNION { UNION { UNION { { Goal(<<o[1], o[2], i, j>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> Along(UnitPath[Prods[o[1]].rhs[o[2]]][n], Turn(i, j, 2)))))
                        : j \in TurnsAt(i) } : i \in ProdsOf[n] \cap Turning } : n \in Below(o) } : o \in { o \in Occ : o[1] \notin Units } }
\* every list far longer than anybody writes
LongGoals(x) == { Goal(<<i>>, Prods[i].lhs, Grow(i, Fuel)) : i \in Growing }
\* the same, ending in every other way
BasedGoals(x) ==
    UNION { UNION { UNION { { Goal(<<o[1], o[2], i, j, b>>, Prods[o[1]].lhs, PlanOf(o[1], (o[2] :> Along(<<<<i, j>>, <<i, j>>>>, PlanOf(b, <<>>)))))
                        : b \in ProdsOf[Prods[i].lhs] \ {i} } : j \in TurnsAt(i) } : o \in OccOf[Prods[i].lhs] } : i \in Turning }
RECURSIVE Fold2(_, _)
Fold2(id, j) == IF j > Len(id) THEN 0 ELSE id[j] * (2 * j + 1) + Fold2(id, j + 1)
Slice(S) == { g \in S : Fold2(g.id, 1) % Parts = Part }
Goals(x) == CASE Mode = "prod"   -> ProdGoals(0)
           [] Mode = "pair"   -> Slice(PairGoals(0))
           [] Mode = "sib"    -> Slice(SibGoals(0))
           [] Mode = "triple" -> Slice(TripleGoals(0))
           [] Mode = "chain"  -> Slice(ChainGoals(0))
           [] Mode = "unit"   -> Slice(UnitGoals(0))
           [] Mode = "wound"  -> Slice(WoundGoals(0))
           [] Mode = "based"  -> Slice(BasedGoals(0))
           [] Mode = "long"   -> LongGoals(0)
           [] Mode = "full"   -> FullGoals(0)
           [] Mode = "pump"   -> PumpGoals(0)
           [] OTHER           -> { [id |-> <<>>, pl |-> NoPlan] }

Init ==
    /\ \E g \in Goals(0) : goal = g.id /\ stack = << Sym(Start, g.pl) >>
    /\ toks = <<>> /\ vals = <<>> /\ err = <<>> /\ gr = <<>>

Top  == stack[1]
Rest == Tail(stack)

Expand(i, pl) ==
    LET p == Prods[i]
    IN  [j \in 1..Len(p.rhs) |-> Sym(p.rhs[j], IF j \in DOMAIN pl.s THEN pl.s[j] ELSE NoPlan)] \o <<Red(i)>>

Shift ==
    /\ Top.r = 0 /\ Top.s \notin NT
    /\ toks' = Append(toks, Top.s)
    /\ vals' = Append(vals, TokenVal(Len(toks) + 1))
    /\ stack' = Rest
    /\ UNCHANGED <<goal, err, gr>>

\* choices at a nonterminal: as planned, the smallest, or (when exploring) anything
Choices(s, pl) ==
    IF pl.p > 0 THEN { pl.p }
    ELSE IF Mode = "walk" /\ Len(toks) + Len(stack) < Fuel THEN ProdsOf[s]
    ELSE { MinProd[s] }

Predict ==
    /\ Top.r = 0 /\ Top.s \in NT
    /\ \E i \in Choices(Top.s, Top.pl) :
         stack' = Expand(i, Top.pl) \o Rest
    /\ UNCHANGED <<goal, toks, vals, err, gr>>

Reduce ==
    /\ Top.r > 0
    /\ LET p  == Prods[Top.r]
           n  == Len(p.rhs)
           m  == Len(vals) - n
           r  == SubSeq(vals, m + 1, Len(vals))
           sp == SpanOf(r, PrevEnd)
           x  == EvalL(p.act, r, sp[1], sp[2])
       IN  /\ vals' = Append(SubSeq(vals, 1, m), [x EXCEPT !.err = <<>>, !.gr = <<>>])
           /\ err' = IF err = <<>> /\ x.err # <<>> THEN Append(x.err, Len(gr)) ELSE err
           /\ gr' = IF x.gr = <<>> THEN gr ELSE Append(gr, x.gr)
    /\ stack' = Rest
    /\ UNCHANGED <<goal, toks>>

\* a complete sentence is handed over for conformance testing
Emit ==
    /\ Len(stack) = 1 /\ Top.r > 0
    /\ LET p == Prods[Top.r]
           x == EvalL(p.act, vals, vals[1].b, vals[Len(vals)].e)
       IN  /\ CSVWrite("%1$s", <<ToJson([g |-> goal, toks |-> toks, err |-> err, gr |-> gr,
                                        tree |-> x.v, n |-> x.c, d |-> x.d])>>, OutFile)
           /\ vals' = <<x>>
    /\ stack' = <<>>
    /\ UNCHANGED <<goal, toks, err, gr>>

Next ==
    /\ stack # <<>>
    /\ \/ Shift
       \/ Predict
       \/ (Len(stack) > 1 /\ Reduce)
       \/ Emit

Spec == Init /\ [][Next]_vars

\* ---- invariants of the machine
RECURSIVE InRange(_, _, _)
\* source ranges nest: every node lies within its parent, and within the text read so far
InRange(v, b, e) ==
    CASE v = <<>>     -> TRUE
      [] v[1] = "N"   -> /\ v[4] <= v[5] /\ b <= v[4] /\ v[5] <= e
                         /\ \A j \in 1..Len(v[3]) : InRange(v[3][j][2], v[4], v[5])
      [] v[1] = "L"   -> \A j \in 1..Len(v[2]) : InRange(v[2][j], b, e)
      [] OTHER        -> TRUE
Top1 == vals[Len(vals)]
RegionsNest ==
    vals # <<>> /\ Top1.t # "tok" /\ err = <<>> => InRange(Top1.v, 0, PrevEnd)

\* incremental measurements agree with the tree
Measured == vals # <<>> /\ Top1.t \notin {"tok", "rec"} /\ err = <<>> =>
               Top1.c = CountN(Top1.v) /\ Top1.d = HeightN(Top1.v)
\* spans are ordered along the semantic stack
SpansOrdered == \A j \in 1..Len(vals) - 1 : vals[j].e <= vals[j+1].b \/ vals[j].e = vals[j+1].e
=============================================================================
