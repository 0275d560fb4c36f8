------------------------------- MODULE MzBulk -------------------------------
(***************************************************************************)
(* Texts of very many statements: runs of equal parts, one run after the   *)
(* other.  What such a text means is told by the runs, not statement by    *)
(* statement: statement j of a run is the tree of the part, moved to the   *)
(* place of the run and j - 1 strides further.  For short runs this is     *)
(* checked against MzCompose, which takes one part at a time.              *)
(*                                                                         *)
(*   runs  <<part, length, tokens before it>>                              *)
(*   at    tokens so far                                                   *)
(***************************************************************************)
EXTENDS MzCompose

CONSTANTS Lengths, Runs

VARIABLES runs, at
bulk == <<runs, at>>

Stride(i) == Len(Parts[i].toks) + 1
InitB == runs = <<>> /\ at = 0 /\ Init
\* runs of legal parts; parts that fail stand alone, at the end
Legal(i) == Parts[i].semi = <<>>
Closed == runs # <<>> /\ ~ Legal(runs[Len(runs)][1])
Run(i, k) ==
    /\ ~ Closed /\ Len(runs) < Runs
    /\ Legal(i) \/ k = 1
    /\ runs' = Append(runs, <<i, k, at>>)
    /\ at' = at + k * Stride(i)
RECURSIVE Times(_, _)
\* the same by MzCompose, part by part
Times(i, k) == IF k = 0 THEN <<>> ELSE <<i>> \o Times(i, k - 1)
NextB == (\E i \in 1..Len(Parts), k \in Lengths : Run(i, k)) /\ UNCHANGED vars
SpecB == InitB /\ [][NextB]_<<bulk, vars>>
PickB == (\E i \in { RandomElement(1..Len(Parts)) }, k \in { RandomElement(Lengths) } : Run(i, k)) /\ UNCHANGED vars
SpecPick == InitB /\ [][PickB]_<<bulk, vars>>

TreeAt(i, n) == IF Parts[i].toks = <<>> THEN Blank(n) ELSE Move(Parts[i].v, n)
RECURSIVE Unrolled(_), Stepped(_, _)
\* the statements told by the runs
Unrolled(rs) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         (IF Legal(r[1]) THEN [ j \in 1..r[2] |-> TreeAt(r[1], r[3] + (j - 1) * Stride(r[1])) ] ELSE <<>>) \o Unrolled(Tail(rs))
\* the statements when parts are taken one by one
Stepped(is, n) ==
    IF is = <<>> \/ ~ Legal(is[1]) THEN <<>>
    ELSE <<TreeAt(is[1], n)>> \o Stepped(Tail(is), n + Len(Parts[is[1]].toks) + 1)
RECURSIVE AllIds(_)
AllIds(rs) == IF rs = <<>> THEN <<>> ELSE Times(Head(rs)[1], Head(rs)[2]) \o AllIds(Tail(rs))
SameAsStepwise == Unrolled(runs) = Stepped(AllIds(runs), 0) /\ at = Sum(AllIds(runs))

EmitB == runs = <<>> \/ CSVWrite("%1$s", <<ToJson([ runs |-> runs, at |-> at,
             fail |-> IF Closed THEN MoveAll(Parts[runs[Len(runs)][1]].semi, runs[Len(runs)][3]) ELSE <<>> ])>>, OutFile)
=============================================================================
