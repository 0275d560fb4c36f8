----------------------------- MODULE MzCompose -----------------------------
(***************************************************************************)
(* A text made of statements, one after the other.  Each part is known by  *)
(* itself (what it means when it stands alone); the machine puts parts     *)
(* together and keeps what the whole means: the trees of the parts, each   *)
(* moved to its place, up to the first part that fails.                    *)
(*                                                                         *)
(*   parts   File of records                                               *)
(*     toks  tokens without the semicolon                                  *)
(*     v     tree of the statement (<<>> if the part fails)                *)
(*     semi  alternatives <<code, b, e>> of the diagnostic of the part     *)
(*           followed by a semicolon, <<>> if that is a statement          *)
(*     last  the same for the part at the end of the text                  *)
(*   ids     parts put together so far                                     *)
(*   len     tokens so far (semicolons included)                           *)
(*   trees   statements so far                                             *)
(*   fail    <<>>, or the alternatives of the diagnostic                   *)
(*   done    0 growing, 1 finished behind a semicolon, 2 without           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzAction

CONSTANTS OutFile, File, Most, Random

Parts == ndJsonDeserialize(File)

VARIABLES ids, len, trees, fail, done
vars == <<ids, len, trees, fail, done>>

Moved(p, k) == IF p = 0 THEN 0 ELSE p + 2 * k
RECURSIVE Move(_, _)
\* the tree v moved k tokens to the right
Move(v, k) ==
    CASE v = <<>>   -> v
      [] v[1] = "N" -> <<"N", v[2], [ j \in 1..Len(v[3]) |-> <<v[3][j][1], Move(v[3][j][2], k)>> ], Moved(v[4], k), Moved(v[5], k)>>
      [] v[1] = "L" -> <<"L", [ j \in 1..Len(v[2]) |-> Move(v[2][j], k) ]>>
      [] v[1] = "S" -> v
      [] OTHER      -> <<v[1], v[2] + k>>       \* something read from a token
MoveAll(alts, k) == [ j \in 1..Len(alts) |-> <<alts[j][1], Moved(alts[j][2], k), Moved(alts[j][3], k)>> ]

\* the empty statement stands right behind what was read before
Place(n) == IF n = 0 THEN 0 ELSE 2 * n + 1
Blank(n) == <<"N", "statement.empty_statement", <<>>, Place(n), Place(n)>>
Tree(i)  == IF Parts[i].toks = <<>> THEN Blank(len) ELSE Move(Parts[i].v, len)

Init == ids = <<>> /\ len = 0 /\ trees = <<>> /\ fail = <<>> /\ done = 0

\* one more part; the diagnostic of the first failing one stays
Take(i, alts, semi) ==
    /\ ids' = Append(ids, i)
    /\ len' = len + Len(Parts[i].toks) + semi
    /\ IF fail # <<>> THEN UNCHANGED <<trees, fail>>
       ELSE IF alts # <<>> THEN fail' = MoveAll(alts, len) /\ UNCHANGED trees
       ELSE trees' = Append(trees, Tree(i)) /\ UNCHANGED fail
Choice == IF Random THEN { RandomElement(1..Len(Parts)) } ELSE 1..Len(Parts)
Add    == done = 0 /\ Len(ids) < Most /\ (\E i \in Choice : Take(i, Parts[i].semi, 1)) /\ done' = 0
\* the text ends behind a semicolon: nothing more is said
Stop   == done = 0 /\ ids # <<>> /\ done' = 1 /\ UNCHANGED <<ids, len, trees, fail>>
Finish == done = 0 /\ Len(ids) < Most /\ (\E i \in Choice : Parts[i].toks # <<>> /\ Take(i, Parts[i].last, 0)) /\ done' = 2
Next == Add \/ Stop \/ Finish
Steps == IF ~ Random THEN Next
         ELSE IF Len(ids) < Most - 1 /\ done = 0 THEN Add
         ELSE IF Len(ids) < Most /\ RandomElement(1..2) = 1 THEN Finish ELSE Stop
Spec == Init /\ [][Steps]_vars

\* behind the last semicolon stands an empty statement, which is not shown;
\* a text of nothing but one semicolon shows the one in front of it
Shown == trees
Count == SumSeq([ j \in 1..Len(Shown) |-> CountN(Shown[j]) ])
Height == MaxSeq([ j \in 1..Len(Shown) |-> HeightN(Shown[j]) ])

\* statements follow each other, and none of them reaches over a semicolon
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Len(Parts[s[1]].toks) + 1 + Sum(Tail(s))
Ordered ==
    /\ Len(trees) <= Len(ids)
    /\ fail = <<>> => Len(trees) = Len(ids)
    /\ \A j \in 1..Len(trees) : trees[j][5] <= 2 * (Sum(SubSeq(ids, 1, j)) - 1) + 1
    /\ \A j \in 2..Len(trees) : trees[j][4] >= 2 * Sum(SubSeq(ids, 1, j - 1))
\* a failure is final, and what was read before it stays
Final == [][ /\ fail # <<>> => fail' = fail
             /\ Len(trees') >= Len(trees) /\ SubSeq(trees', 1, Len(trees)) = trees ]_vars

Emit == done = 0 \/ CSVWrite("%1$s", <<ToJson([ ids |-> ids, semi |-> done = 1, fail |-> fail,
                          tree |-> IF fail = <<>> THEN <<"L", Shown>> ELSE <<>>, n |-> Count, d |-> Height ])>>, OutFile)
=============================================================================
