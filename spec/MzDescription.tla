--------------------------- MODULE MzDescription ---------------------------
(***************************************************************************)
(* The text of a description comment, as shown to the user: the decoration *)
(* (slashes, asterisks, blanks at both ends of a line, empty lines at both *)
(* ends and the indentation common to all lines) is removed and the rest   *)
(* is left as written.  A comment is built character by character; in each *)
(* state its text is known.                                                *)
(*   cur   the characters between the opening and the closing sign         *)
(*   open, close  the signs at both ends                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, Chars, Size, Opens, Closes

VARIABLES cur, open, close
vars == <<cur, open, close>>

Blank == { "s", "t", "r", "n" }     \* blank, tab, carriage return, line feed
Space == Blank \ {"n"}

\* ---- sequences of characters
RECURSIVE Heads(_, _), Tails(_, _)
\* number of characters of the set c at the head / at the tail of s
Heads(s, c) == IF s = <<>> \/ s[1] \notin c THEN 0 ELSE 1 + Heads(Tail(s), c)
Tails(s, c) == IF s = <<>> \/ s[Len(s)] \notin c THEN 0 ELSE 1 + Tails(SubSeq(s, 1, Len(s) - 1), c)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Keep(s, n) == SubSeq(s, 1, Len(s) - n)
DropHeads(s, c) == Drop(s, Heads(s, c))
KeepTails(s, c) == Keep(s, Tails(s, c))

RECURSIVE Lines(_)
\* a line feed at the very end opens no further line
Lines(s) ==
    LET p == { i \in 1..Len(s) : s[i] = "n" }
        f == CHOOSE i \in p : \A j \in p : i <= j
    IN IF s = <<>> THEN <<>>
       ELSE IF p = {} THEN <<s>>
       ELSE <<SubSeq(s, 1, f - 1)>> \o Lines(Drop(s, f))

RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<"n">> \o Join(Tail(ls))

\* ---- the decoration of one line
FirstHead(s) == DropHeads(IF s # <<>> /\ s[1] = "/" THEN Tail(s) ELSE s, {"*"})
BodyHead(s)  == LET r == DropHeads(s, Blank) IN IF r # <<>> /\ r[1] = "*" THEN DropHeads(r, {"*"}) ELSE s
LastTail(s)  == KeepTails(KeepTails(KeepTails(s, {"/"}), {"*"}), Blank)
BodyTail(s)  == KeepTails(s, Blank)
Line(ls, i) ==
    LET h == IF i = 1 THEN FirstHead(ls[i]) ELSE BodyHead(ls[i])
    IN IF i = Len(ls) THEN LastTail(h) ELSE BodyTail(h)

RECURSIVE Trim(_), TrimEnd(_)
Trim(ls) == IF ls # <<>> /\ ls[1] = <<>> THEN Trim(Tail(ls)) ELSE ls
TrimEnd(ls) == IF ls # <<>> /\ ls[Len(ls)] = <<>> THEN TrimEnd(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

\* the longest run of blanks all lines begin with, empty lines aside
Indent(ls) ==
    LET some == { i \in 1..Len(ls) : ls[i] # <<>> }
        one == ls[CHOOSE i \in some : TRUE]
        good == { n \in 0..Len(one) : \A i \in some : n <= Heads(ls[i], Blank) /\ SubSeq(ls[i], 1, n) = SubSeq(one, 1, n) }
    IN IF some = {} THEN 0 ELSE CHOOSE n \in good : \A m \in good : m <= n

Raw == open \o cur \o close
IsDescription(s) == Len(s) >= 3 /\ SubSeq(s, 1, 3) = <<"/", "*", "*">> /\ SubSeq(s, Len(s) - 1, Len(s)) = <<"*", "/">>

Shown(s) ==
    LET ls == Lines(s)
        ts == TrimEnd(Trim([ i \in 1..Len(ls) |-> Line(ls, i) ]))
        n == Indent(ts)
    IN IF IsDescription(s) THEN Join([ i \in 1..Len(ts) |-> IF ts[i] = <<>> THEN <<>> ELSE Drop(ts[i], n) ]) ELSE <<>>

Init == cur = <<>> /\ open \in Opens /\ close \in Closes
Next ==
    /\ Len(cur) < Size
    /\ \E x \in Chars : cur' = Append(cur, x)
    /\ UNCHANGED <<open, close>>
Spec == Init /\ [][Next]_vars

\* ---- what makes sense about the text
RECURSIVE IsIn(_, _)
\* a is what is left of b after leaving out some characters
IsIn(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1] = b[1] THEN IsIn(Tail(a), Tail(b)) ELSE IsIn(a, Tail(b))
Kept == SelectSeq(Raw, LAMBDA x : x \notin Blank \cup {"/", "*"})

Sound ==
    LET t == Shown(Raw) IN
    /\ IsIn(t, Raw)                                                                 \* nothing invented, order kept
    /\ IsDescription(Raw) => SelectSeq(t, LAMBDA x : x \notin Blank \cup {"/", "*"}) = Kept   \* no word lost
    /\ t # <<>> => t[Len(t)] \notin Blank                                           \* no blanks at the end
    /\ t # <<>> => t[1] # "n"
    /\ \A i \in 1..Len(t) : t[i] = "n" => i = 1 \/ t[i - 1] \notin Space            \* nor at the end of a line
    /\ LET ls == Lines(t) IN t # <<>> => ~ \E b \in Blank : \A j \in 1..Len(ls) : ls[j] # <<>> => ls[j][1] = b    \* no common indentation

Emit == CSVWrite("%1$s", <<ToJson([ s |-> Raw, t |-> Shown(Raw) ])>>, OutFile)
Report == Emit

\* long texts: runs of one character, reported when done
Grow ==
    /\ Len(cur) < Size
    /\ LET x == RandomElement(Chars) k == RandomElement(1..4) IN cur' = cur \o [ i \in 1..k |-> x ]
    /\ UNCHANGED <<open, close>>
Done == Len(cur) >= Size /\ Emit /\ cur' = Append(cur, "end") /\ UNCHANGED <<open, close>>
Walk == Init /\ [][IF Len(cur) > 0 /\ cur[Len(cur)] = "end" THEN UNCHANGED vars ELSE Grow \/ Done]_vars
=============================================================================
