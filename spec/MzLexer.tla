------------------------------ MODULE MzLexer ------------------------------
(***************************************************************************)
(* The scanner as an abstract machine over the bytes of a text.            *)
(*                                                                         *)
(*   pos     bytes read so far                                             *)
(*   toks    tokens found: [t class, b begin, e end] (bytes from 0)        *)
(*   cmts    comments found: <<begin, end>>                                *)
(*                                                                         *)
(* A step reads the longest lexeme that begins at pos.  White space and    *)
(* comments separate tokens; a byte (or character) that begins no lexeme   *)
(* is an error token by itself.                                            *)
(*                                                                         *)
(* Texts are either all concatenations of at most Size of the given Atoms  *)
(* (each written in front of Before and behind After), or those of a file. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, MzLexicon

CONSTANTS OutFile, TextFile, Atoms, Size

VARIABLES text, made, pos, toks, cmts
vars == <<text, made, pos, toks, cmts>>

\* ---- characters are bytes
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Marks == ("%" :> 37) @@ ("&" :> 38) @@ ("'" :> 39) @@ ("(" :> 40) @@ (")" :> 41) @@ ("*" :> 42) @@ ("+" :> 43) @@ ("," :> 44) @@ ("-" :> 45)
      @@ ("." :> 46) @@ ("/" :> 47) @@ (":" :> 58) @@ (";" :> 59) @@ ("<" :> 60) @@ ("=" :> 61) @@ (">" :> 62) @@ ("?" :> 63) @@ ("@" :> 64)
      @@ ("[" :> 91) @@ ("]" :> 93) @@ ("^" :> 94) @@ ("_" :> 95) @@ ("{" :> 123) @@ ("|" :> 124) @@ ("}" :> 125) @@ ("!" :> 33)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
CodeOf == [ c \in { Letters[i] : i \in 1..26 } |-> 64 + CHOOSE i \in 1..26 : Letters[i] = c ]
       @@ [ c \in { Digits[i] : i \in 1..10 } |-> 47 + CHOOSE i \in 1..10 : Digits[i] = c ] @@ Marks
Spell(w) == [ i \in 1..Len(w) |-> CodeOf[SubSeq(w, i, i)] ]

Blank   == {9, 10, 11, 12, 13, 32}
Digit   == 48..57
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Alpha   == (65..90) \cup (97..122)
IdStart == Alpha \cup {95}
Upcase(s) == [ j \in 1..Len(s) |-> Upper(s[j]) ]
IdPart  == IdStart \cup Digit
Quote   == 39
DQuote  == 34

\* ---- word lists as bytes
WordOf == [ s \in { Spell(w) : w \in Words } |-> CHOOSE w \in Words : Spell(w) = s ]
Longer == CHOOSE n \in { Len(s) : s \in DOMAIN WordOf } : \A s \in DOMAIN WordOf : Len(s) <= n
Plain  == Words \ {"END-EXEC"}
SignOf == [ s \in { Spell(w) : w \in Signs \cup {"?"} } |-> CHOOSE w \in Signs \cup {"?"} : Spell(w) = s ]
SignStart == { s[1] : s \in DOMAIN SignOf }
SignLens == { Len(s) : s \in DOMAIN SignOf }

\* ---- lexemes: end (exclusive) of the longest one at i in x, 0 if there is none
At(x, i) == IF i <= Len(x) THEN x[i] ELSE -1
\* first index from i on whose byte is not in S
First(x, i, S) == IF i > Len(x) THEN 0 ELSE SelectInSubSeq(x, i, Len(x), LAMBDA c : c \in S)   \* first index from i on whose byte is in S, or 0
Run(x, i, S) == IF At(x, i) \notin S THEN i
                ELSE LET k == SelectInSubSeq(x, i, Len(x), LAMBDA c : c \notin S) IN IF k = 0 THEN Len(x) + 1 ELSE k
More(x, i, S) == IF At(x, i) \in S THEN Run(x, i, S) ELSE 0        \* at least one
Lit(x, i, w) ==                                                      \* a word in any case
    IF i + Len(w) - 1 <= Len(x) /\ \A j \in 1..Len(w) : Upper(x[i + j - 1]) = w[j] THEN i + Len(w) ELSE 0
Later(a, b) == IF a > b THEN a ELSE b

Ident(x, i)  == IF At(x, i) \in IdStart THEN Run(x, i, IdPart) ELSE 0
Host(x, i)   == IF At(x, i) = 58 THEN Ident(x, i + 1) ELSE 0
RECURSIVE StrBody(_, _), DelBody(_, _, _)
StrBody(x, j) ==
    LET q == First(x, j, {Quote}) IN
    IF q = 0 THEN 0
    ELSE IF At(x, q + 1) = Quote THEN LET k == StrBody(x, q + 2) IN IF k # 0 THEN k ELSE q + 1
    ELSE q + 1
Str(x, i)    == IF At(x, i) = Quote THEN StrBody(x, i + 1) ELSE 0
Hex(x, i)    == IF At(x, i) \in {88, 120} THEN Str(x, i + 1) ELSE 0
DStop == (0..31) \cup {DQuote, 127}
\* some: anything between the quotes yet
DelBody(x, j, some) ==
    LET q == First(x, j, DStop)
        k == IF At(x, q + 1) = DQuote THEN DelBody(x, q + 2, TRUE) ELSE 0
    IN  IF q = 0 THEN 0
        ELSE IF x[q] # DQuote THEN 0
        ELSE IF k # 0 THEN k ELSE IF some \/ q > j THEN q + 1 ELSE 0
Del(x, i)    == IF At(x, i) = DQuote THEN DelBody(x, i + 1, FALSE) ELSE 0
Uint(x, i)   == More(x, i, Digit)
Decimal(x, i) == LET k == Uint(x, i) IN IF k # 0 /\ At(x, k) = 46 THEN More(x, k + 1, Digit) ELSE 0
Exponent(x, k) ==
    IF k = 0 \/ At(x, k) \notin {69, 101} THEN 0
    ELSE More(x, IF At(x, k + 1) \in {43, 45} THEN k + 2 ELSE k + 1, Digit)
Approx(x, i) == Later(Exponent(x, Uint(x, i)), Exponent(x, Decimal(x, i)))
Phrase(x, i, v, w) ==
    LET k == Lit(x, i, v)
        m == IF k = 0 THEN 0 ELSE More(x, k, Blank)
    IN  IF m = 0 THEN 0 ELSE Lit(x, m, w)
DotStar(x, i) == IF At(x, i) = 46 THEN LET k == Run(x, i + 1, Blank) IN IF At(x, k) = 42 THEN k + 1 ELSE 0 ELSE 0
Sign(x, i)   == LET E == { n \in SignLens : i + n - 1 <= Len(x) /\ SubSeq(x, i, i + n - 1) \in DOMAIN SignOf }
                IN  IF E = {} THEN 0 ELSE i + (CHOOSE n \in E : \A m \in E : n >= m)
\* one character: a well formed sequence of bytes, or a single byte
Char(x, i) ==
    LET u(n) == \A j \in 1..n : At(x, i + j) \in 128..191 IN
    CASE x[i] \in 194..223 /\ u(1) -> i + 2
      [] x[i] \in 224..239 /\ u(2) -> i + 3
      [] x[i] \in 240..244 /\ u(3) -> i + 4
      [] OTHER -> i + 1

\* ---- what begins at i: candidates <<end, class>> in order of preference
Restricted(x, i) == At(x, i) = 95 /\ At(x, i + 1) = 95
EndExec == Spell("END-EXEC")
WordAt(x, i) ==
    LET k == Ident(x, i)
        w == Upcase(SubSeq(x, i, k - 1))
        m == IF x[i] \in {69, 101} THEN Lit(x, i, EndExec) ELSE 0
    IN  IF m # 0 THEN <<m, "END-EXEC">>
        ELSE IF k - i <= Longer /\ w \in DOMAIN WordOf THEN <<k, WordOf[w]>> ELSE <<0, "">>
SignAt(x, i) == LET k == Sign(x, i) IN IF k = 0 THEN <<0, "">> ELSE <<k, SignOf[SubSeq(x, i, k - 1)]>>
UnionWord == Spell("UNION")
JoinWord  == Spell("JOIN")
OuterWord == Spell("OUTER")
ApplyWord == Spell("APPLY")
Candidates(x, i) ==
    LET c == x[i]
        e == << <<Char(x, i), Error>> >>
    IN  (IF c = 46 THEN << <<DotStar(x, i), DotAsterisk>> >> ELSE <<>>)
        \o (IF c \in {79, 111, 85, 117} THEN << <<Phrase(x, i, UnionWord, JoinWord), UnionJoin>>, <<Phrase(x, i, OuterWord, ApplyWord), OuterApply>> >> ELSE <<>>)
        \o (IF c \in SignStart THEN << SignAt(x, i) >> ELSE <<>>)
        \o (IF c \in IdStart THEN << WordAt(x, i), <<Ident(x, i), IF Restricted(x, i) THEN RestrictedId ELSE Identifier>> >> ELSE <<>>)
        \o (IF c = DQuote THEN << <<Del(x, i), IF Restricted(x, i + 1) THEN RestrictedDl ELSE Delimited>> >> ELSE <<>>)
        \o (IF c = 58 THEN << <<Host(x, i), HostParam>> >> ELSE <<>>)
        \o (IF c \in Digit THEN << <<Uint(x, i), UnsignedInt>>, <<Decimal(x, i), ExactNum>>, <<Approx(x, i), ApproxNum>> >> ELSE <<>>)
        \o (IF c = Quote THEN << <<Str(x, i), CharString>> >> ELSE <<>>)
        \o (IF c \in {88, 120} THEN << <<Hex(x, i), HexString>> >> ELSE <<>>)
        \o e
Longest(cs) ==
    LET n == CHOOSE n \in 1..Len(cs) : /\ \A m \in 1..Len(cs) : cs[n][1] >= cs[m][1]
                                       /\ \A m \in 1..(n - 1) : cs[n][1] > cs[m][1]
    IN  cs[n]

\* ---- comments
RECURSIVE BlockEnd(_, _), LineEnd(_, _)
BlockEnd(x, j) == LET k == First(x, j, {42}) IN IF k = 0 THEN 0 ELSE IF At(x, k + 1) = 47 THEN k + 2 ELSE BlockEnd(x, k + 1)
LineEnd(x, j)  == LET k == First(x, j, {10, 13}) IN
    IF k = 0 THEN Len(x) + 1 ELSE IF x[k] = 10 \/ At(x, k + 1) = 10 THEN k ELSE LineEnd(x, k + 1)

Tok(t, b, e) == [t |-> t, b |-> b - 1, e |-> e - 1]
\* the state [p, k, c] after one step at p
Step(x, s) ==
    LET i == s.p IN
    IF i > Len(x) THEN [s EXCEPT !.p = 0, !.k = Append(@, Tok(EndOfText, i, i))]
    ELSE IF x[i] \in Blank THEN [s EXCEPT !.p = Run(x, i, Blank)]
    ELSE IF x[i] = 47 /\ At(x, i + 1) = 42 THEN
         LET e == BlockEnd(x, i + 2) IN
         IF e = 0 THEN [s EXCEPT !.p = 0, !.k = Append(@, Tok(Unclosed, i, i + 2))]
         ELSE [s EXCEPT !.p = e, !.c = Append(@, <<i - 1, e - 1>>)]
    ELSE IF x[i] = 45 /\ At(x, i + 1) = 45 THEN
         LET e == LineEnd(x, i + 2) IN [s EXCEPT !.p = e, !.c = Append(@, <<i - 1, e - 1>>)]
    ELSE LET l == Longest(Candidates(x, i)) IN [s EXCEPT !.p = l[1], !.k = Append(@, Tok(l[2], i, l[1]))]
RECURSIVE Steps(_, _)
Steps(x, s) == IF s.p = 0 THEN s ELSE Steps(x, Step(x, s))
Scan(x) == Steps(x, [p |-> 1, k |-> <<>>, c |-> <<>>])

\* ---- values
\* a quoted name without its quotes, doubled quotes undoubled
RECURSIVE Undouble(_)
Undouble(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = DQuote THEN <<DQuote>> \o Undouble(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Undouble(Tail(s))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
\* 2^64 - 2, the largest size
Limit == Spell("18446744073709551614")
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
SizeFits(d) == LET s == NoZeros(d) IN Len(s) < Len(Limit) \/ (Len(s) = Len(Limit) /\ LexLeq(s, Limit))
ValueOf(x, k) ==
    LET s == SubSeq(x, k.b + 1, k.e) IN
    CASE k.t = Delimited   -> Undouble(SubSeq(s, 2, Len(s) - 1))
      [] k.t = UnsignedInt -> IF SizeFits(s) THEN NoZeros(s) ELSE <<>>
      [] OTHER -> <<>>

\* placeholders are numbered from 1 in source order
Number(i) == Cardinality({ j \in 1..i : toks[j].t = "?" })
\* a description is a block comment that opens with two asterisks; the last one in front of a token counts
IsDesc(c) == c[2] - c[1] >= 5 /\ text[c[1] + 1] = 47 /\ text[c[1] + 2] = 42 /\ text[c[1] + 3] = 42
Ahead(i) == { j \in 1..Len(cmts) : IsDesc(cmts[j]) /\ cmts[j][2] <= toks[i].b /\ (i > 1 => cmts[j][1] >= toks[i - 1].e) }
Described == { i \in 1..Len(toks) : Ahead(i) # {} }
LastOf(S) == CHOOSE j \in S : \A m \in S : m <= j

Outcome == [x |-> text,
            k |-> [ i \in 1..Len(toks) |-> <<toks[i].t, toks[i].b, toks[i].e, IF toks[i].t = "?" THEN <<Number(i)>> ELSE ValueOf(text, toks[i])>> ],
            c |-> cmts,
            d |-> IF cmts = <<>> THEN {} ELSE { <<i, cmts[LastOf(Ahead(i))]>> : i \in Described }]

\* ---- the machine
FromFile == TextFile # ""
Texts == IF FromFile THEN ndJsonDeserialize(TextFile) ELSE <<>>
Start0(t, m) == text = t /\ made = m /\ pos = 1 /\ toks = <<>> /\ cmts = <<>>
Init == IF FromFile THEN \E i \in 1..Len(Texts) : Start0(Texts[i].x, Size) ELSE Start0(<<>>, 0)
\* the text is written first
Write == /\ made < Size
         /\ \E i \in 1..Len(Atoms) : text' = text \o Atoms[i]
         /\ made' = made + 1
         /\ UNCHANGED <<pos, toks, cmts>>
\* and then read lexeme by lexeme
Read  == /\ pos # 0
         /\ LET s == Step(text, [p |-> pos, k |-> toks, c |-> cmts]) IN pos' = s.p /\ toks' = s.k /\ cmts' = s.c
         /\ made' = Size + 1
         /\ UNCHANGED text
Next == (pos = 1 /\ Write) \/ Read
Spec == Init /\ [][Next]_vars
Emit == pos # 0 \/ CSVWrite("%1$s", <<ToJson(Outcome)>>, OutFile)

\* tokens, comments and white space lie next to each other and cover the text
Pieces == { <<toks[i].b, toks[i].e>> : i \in 1..(Len(toks) - 1) } \cup { cmts[i] : i \in 1..Len(cmts) }
Covered == UNION { p[1]..(p[2] - 1) : p \in Pieces }
Tiles == pos = 0 =>
    LET z == toks[Len(toks)] IN
    /\ \A i \in 1..Len(toks) : toks[i].b <= toks[i].e /\ (i < Len(toks) => toks[i].b < toks[i].e /\ toks[i].e <= toks[i + 1].b)
    /\ \A p, q \in Pieces : p = q \/ p[2] <= q[1] \/ q[2] <= p[1]
    /\ \A i \in 0..(Len(text) - 1) : i \in Covered \/ text[i + 1] \in Blank \/ (z.t = Unclosed /\ i >= z.b)
    /\ (z.t = EndOfText /\ z.b = Len(text)) \/ z.t = Unclosed
\* reading a lexeme by itself gives that lexeme
Stable == pos = 0 => \A i \in 1..(Len(toks) - 1) :
    LET s == Scan(SubSeq(text, toks[i].b + 1, toks[i].e)) IN
    Len(s.k) = 2 /\ s.k[1].t = toks[i].t /\ s.k[1].e = toks[i].e - toks[i].b
=============================================================================
