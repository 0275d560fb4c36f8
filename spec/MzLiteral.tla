----------------------------- MODULE MzLiteral -----------------------------
(***************************************************************************)
(* What literals mean: the value and the type the engine is given.         *)
(*                                                                         *)
(* Numbers are digit sequences (values reach far beyond machine words),    *)
(* strings are sequences of atoms, dates are counted in days and times in  *)
(* seconds; the conformance check writes them as text, reads the answer    *)
(* back and compares.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, Group, Deep

Most(a, b) == IF a < b THEN b ELSE a
NONE == -1

\* ---------------------------------------------------------------- digits
Digit == 0..9
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE IF d = <<>> THEN <<0>> ELSE d
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ Lex(a, b, i + 1))
Leq(x, y) == LET a == Strip(x) b == Strip(y) IN Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b, 1))
IsZero(d) == \A i \in DOMAIN d : d[i] = 0
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF Last(d) < 9 THEN Append(Front(d), Last(d) + 1) ELSE Append(Inc(Front(d)), 0)
RECURSIVE Dec(_) \* of a positive number
Dec(d) == IF Last(d) > 0 THEN Append(Front(d), Last(d) - 1) ELSE Append(Dec(Front(d)), 9)
Rep(x, n) == [i \in 1..n |-> x]

I1 == <<1, 2, 7>>
I2 == <<3, 2, 7, 6, 7>>
I4 == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
I8 == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
U8 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
\* a two's complement word holds one more negative number than positive ones
Fits(neg, d, top) == Leq(d, IF neg THEN Inc(top) ELSE top)

\* ---------------------------------------------------------------- results
\* v, x: kind and content of the value; t, p, q: the type
Is(v, x, t, p, q) == [ok |-> TRUE, v |-> v, x |-> x, t |-> t, p |-> p, q |-> q, cast |-> FALSE]
Plain(v, x, t) == Is(v, x, t, NONE, NONE)
Bad(code, at, n) == [ok |-> FALSE, v |-> code, x |-> at, t |-> "", p |-> n, q |-> NONE, cast |-> FALSE]
\* a constant of another type than its surroundings ask for is converted, without loss
InContext(s, r) == IF r.ok /\ s.ctx = "other" /\ s.cast THEN [r EXCEPT !.cast = TRUE] ELSE r

\* ---------------------------------------------------------------- exact numbers
\* d: digits, f: how many of them follow the point (NONE: there is no point)
Exact(s, l) ==
    LET d == Strip(l.d)
        f == Most(l.f, 0)
    IN IF Len(d) > s.max \/ f > s.max THEN Bad("unsupported_decimal_value", "whole", NONE)
       ELSE IF f = 0 /\ Fits(l.neg, d, I8)
            THEN LET x == [neg |-> l.neg, d |-> d]
                 IN IF ~s.small THEN Plain("int8", x, "int8")
                    ELSE IF Fits(l.neg, d, I1) THEN Plain("int4", x, "int1")
                    ELSE IF Fits(l.neg, d, I2) THEN Plain("int4", x, "int2")
                    ELSE IF Fits(l.neg, d, I4) THEN Plain("int4", x, "int4")
                    ELSE Plain("int8", x, "int8")
            ELSE Is("decimal", [neg |-> l.neg, d |-> d, f |-> f], "decimal", IF s.tight THEN Most(Len(d), f) ELSE NONE, f)

Bases == {<<0>>, <<1>>, <<9>>, <<1, 0>>, <<4, 2>>, <<9, 9>>, I1, <<1, 5, 0>>, I2, <<6, 5, 5, 3, 5>>, I4, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>, I8, U8, Rep(9, 37), Rep(9, 38), <<1>> \o Rep(0, 37),
          <<1>> \o Rep(0, 18), <<1, 7, 0, 1, 4, 1, 1, 8, 3, 4, 6, 0, 4, 6, 9, 2, 3, 1, 7, 3, 1, 6, 8, 7, 3, 0, 3, 7, 1, 5, 8, 8, 4, 1, 0, 5, 7, 2, 7>>}
Near == UNION {{b, Inc(b), Inc(Inc(b))} \cup (IF IsZero(b) THEN {} ELSE {Dec(b)}) : b \in Bases}
Padded == Near \cup {Rep(0, n) \o b : n \in {1, 40}, b \in Near}
ExactOf(ds) == {[k |-> "exact", neg |-> n, d |-> d, f |-> f] : n \in BOOLEAN, d \in ds, f \in {NONE}}
               \cup UNION {{[k |-> "exact", neg |-> n, d |-> d, f |-> f] : n \in BOOLEAN, f \in (IF Deep THEN 1..(Len(d) - 1) ELSE {1, Len(d) \div 2, Len(d) - 1} \cap (1..(Len(d) - 1)))} : d \in {d \in ds : Len(d) > 1}}

\* ---------------------------------------------------------------- approximate numbers
\* d * 10^(e - f); the conformance check finds the nearest number of the machine, for which the model only says whether there is one
TooBig == <<1, 7, 9, 7, 6, 9, 3, 1, 3, 4, 8, 6, 2, 3, 1, 5, 8, 0, 7, 9, 3, 7, 2, 8, 9, 7, 1, 4, 0, 5, 3, 0, 3, 4, 1, 5, 0, 7, 9, 9, 3, 4, 1, 3, 2, 7, 1, 0, 0, 3, 7, 8, 2, 6, 9, 3, 6, 1, 7, 3, 7, 7, 8, 9, 8, 0, 4, 4, 4, 9, 6, 8, 2, 9, 2, 7, 6, 4, 7, 5, 0, 9, 4, 6, 6, 4, 9, 0, 1, 7, 9, 7, 7, 5, 8, 7, 2, 0, 7, 0, 9, 6, 3, 3, 0, 2, 8, 6, 4, 1, 6, 6, 9, 2, 8, 8, 7, 9, 1, 0, 9, 4, 6, 5, 5, 5, 5, 4, 7, 8, 5, 1, 9, 4, 0, 4>>
Normal == <<2, 2, 2, 5, 0, 7, 3, 8, 5, 8, 5, 0, 7, 2, 0, 1, 4>>
Least == <<2, 4, 7>>
\* compares d * 10^k with n * 10^m for positive d, n: by the place of the first digit, then by digits
Wide(a, n) == a \o Rep(0, Most(0, n - Len(a)))
AtLeast(d0, k, n, m) ==
    LET d == Strip(d0)
        x == Len(d) + k
        y == Len(n) + m
        w == Most(Len(d), Len(n))
    IN x > y \/ (x = y /\ Lex(Wide(n, w), Wide(d, w), 1))
Approx(l) ==
    LET k == l.e - l.f
    IN IF IsZero(l.d) THEN Plain("float8", "nearest", "float8")
       ELSE IF AtLeast(l.d, k, TooBig, 309 - Len(TooBig)) THEN Bad("unsupported_approximate_number", "whole", NONE)
       ELSE IF AtLeast(l.d, k, Normal, -308 - (Len(Normal) - 1)) THEN Plain("float8", "nearest", "float8")
       ELSE IF AtLeast(l.d, k, Least, -324 - 2) THEN Plain("float8", "open", "float8") \* between nothing and the normal numbers: the nearest or a refusal
       ELSE Bad("unsupported_approximate_number", "whole", NONE)
Mantissas == {[d |-> d, f |-> f] : d \in {<<0>>, <<1>>, <<9>>, <<1, 5>>, <<0, 0, 1, 5>>, <<1, 7, 9, 7>>, <<1, 7, 9, 8>>, <<2, 2, 2, 5>>, <<2, 2, 3>>, <<4, 9>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, I8, Normal}, f \in {0, 1, 3}}
ApproxSet == {[k |-> "approx", neg |-> n, d |-> m.d, f |-> m.f, e |-> e] : n \in BOOLEAN, m \in {m \in Mantissas : m.f < Len(m.d)},
              e \in {0, 1, 5, 22, 23, 290, 305, 307, 308, 309, 310, 400, 5000, 0 - 1, 0 - 5, 0 - 22, 0 - 300, 0 - 304, 0 - 307, 0 - 308, 0 - 309, 0 - 322, 0 - 324, 0 - 326, 0 - 400, 0 - 5000}}

\* ---------------------------------------------------------------- strings
\* atoms of text with their width in octets: Q stands for a doubled quote
Atoms == <<"a", "Q", "B", "E", "N">> \* letter, quote, blank, two octet letter, new line
Width(a) == IF a = "E" THEN 2 ELSE 1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Width(s[1]) + Sum(Tail(s))
Pieces(as, n) == UNION {[1..k -> as] : k \in 0..n}
Text(s, l) == LET all == FlattenSeq(l.p) IN Is("character", all, "character", IF s.chars THEN Sum(all) ELSE NONE, 1)
\* hexadecimal digits; blanks do not count; X is something else
HexAtoms == {"0", "7", "c", "B", "F", "X", "Q"}
Hex(s, l) ==
    LET digits(p) == SelectSeq(p, LAMBDA a : a # "B")
        wrong == {i \in DOMAIN l.p : Len(digits(l.p[i])) % 2 = 1 \/ \E j \in DOMAIN l.p[i] : l.p[i][j] \in {"X", "Q"}}
        all == FlattenSeq([i \in DOMAIN l.p |-> digits(l.p[i])])
    IN IF wrong # {} THEN Bad("malformed_quoted_string", "piece", CHOOSE i \in wrong : \A j \in wrong : i <= j)
       ELSE Is("octet", all, "octet", IF s.octets THEN Len(all) \div 2 ELSE NONE, 1)

\* ---------------------------------------------------------------- the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Before(y) == LET n == y - 1 IN 365 * y + n \div 4 - n \div 100 + n \div 400 \* days of the years before y (year 0 counts 365 days)
RECURSIVE Months(_, _)
Months(y, m) == IF m = 1 THEN 0 ELSE Months(y, m - 1) + Length(y, m - 1)
Day(y, m, d) == Before(y) + Months(y, m) + (d - 1) - Before(1970)
Real(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= Length(y, m)
Following(y, m, d) == IF d < Length(y, m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
Seconds(h, m, s) == h * 3600 + m * 60 + s
Clock(h, m, s) == h \in 0..23 /\ m \in 0..59 /\ s \in 0..59

DatesS == {<<1970, 1, 1>>, <<1969, 12, 31>>, <<2000, 2, 29>>, <<1900, 3, 1>>, <<1900, 2, 29>>, <<2023, 2, 29>>, <<2024, 12, 31>>, <<1, 1, 1>>, <<9999, 12, 31>>, <<2024, 13, 1>>, <<2024, 0, 1>>,
           <<2024, 4, 31>>, <<2024, 4, 0>>, <<2024, 1, 32>>, <<1582, 10, 15>>, <<2100, 2, 28>>}
Dates == IF Deep THEN DatesS \cup {<<y, m, d>> : y \in {1968, 1969, 1970, 1999, 2000, 2001, 1899, 1900, 2400}, m \in 1..12, d \in {1, 15, 28, 29, 30, 31}} ELSE DatesS
Times == {<<0, 0, 0>>, <<23, 59, 59>>, <<1, 2, 3>>, <<12, 0, 1>>, <<0, 59, 0>>, <<24, 0, 0>>, <<0, 60, 0>>, <<0, 0, 60>>}
Fractions == {<<>>, <<0>>, <<5>>, <<0, 0, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<0, 0, 0, 0, 0, 0, 0, 0, 1>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9>>}
\* offsets in minutes; NOZONE: none is written
NOZONE == 9999
Zones == {NOZONE, 0, 60, 0 - 60, 540, 0 - 570, 1, 0 - 1, 839, 0 - 839, 30, 0 - 30}
Damage == {"", "empty", "word", "tail", "slash"} \* what is wrong with the text

DateOf(l) == IF l.bad # "" \/ ~Real(l.y, l.m, l.d) THEN Bad("unsupported_string_value", "value", NONE)
             ELSE Plain("date", [day |-> Day(l.y, l.m, l.d)], "date")
TimeOf(l) == IF l.zoned THEN Bad("unsupported_feature", "whole", NONE)
             ELSE IF l.bad # "" \/ ~Clock(l.h, l.mi, l.s) THEN Bad("unsupported_string_value", "value", NONE)
             ELSE Is("time_of_day", [sec |-> Seconds(l.h, l.mi, l.s), sub |-> l.sub], "time_of_day", NONE, 0)
StampOf(s, l) ==
    IF l.bad # "" \/ ~Real(l.y, l.m, l.d) \/ ~Clock(l.h, l.mi, l.s) \/ (~l.zoned /\ l.z # NOZONE)
    THEN Bad("unsupported_string_value", "value", NONE)
    ELSE LET shift == IF ~l.zoned THEN 0 ELSE IF l.z = NOZONE THEN s.system ELSE l.z
             sec == Seconds(l.h, l.mi, l.s) - 60 * shift
             back == IF sec < 0 THEN 0 - 1 ELSE IF sec >= 86400 THEN 1 ELSE 0
         IN Is("time_point", [day |-> Day(l.y, l.m, l.d) + back, sec |-> sec - 86400 * back, sub |-> l.sub], "time_point", NONE, IF l.zoned THEN 1 ELSE 0)
DateSet == {[k |-> "date", y |-> x[1], m |-> x[2], d |-> x[3], bad |-> b] : x \in Dates, b \in {""}}
           \cup {[k |-> "date", y |-> 2020, m |-> 5, d |-> 6, bad |-> b] : b \in Damage}
TimeSet == {[k |-> "time", h |-> t[1], mi |-> t[2], s |-> t[3], sub |-> f, zoned |-> z, bad |-> b] : t \in Times, f \in Fractions, z \in BOOLEAN, b \in Damage}
StampSet == {[k |-> "timestamp", y |-> x[1], m |-> x[2], d |-> x[3], h |-> t[1], mi |-> t[2], s |-> t[3], sub |-> f, z |-> z, zoned |-> zd, bad |-> b]
             : x \in DatesS, t \in Times, f \in (IF Deep THEN Fractions ELSE {<<>>, <<0, 0, 1>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9>>}), z \in Zones, zd \in BOOLEAN, b \in {""}}
            \cup {[k |-> "timestamp", y |-> 2020, m |-> 5, d |-> 6, h |-> 1, mi |-> 2, s |-> 3, sub |-> <<>>, z |-> NOZONE, zoned |-> zd, bad |-> b] : zd \in BOOLEAN, b \in Damage}

\* ---------------------------------------------------------------- the rest
Special == {[k |-> k] : k \in {"true", "false", "unknown", "null", "default", "empty", "interval"}}
Other(s, l) ==
    CASE l.k \in {"true", "false"} -> Plain("boolean", l.k, "boolean")
      [] l.k = "unknown" -> Plain("unknown", "null", "boolean")
      [] l.k = "null" -> IF s.ctx # "none" THEN Plain("unknown", "null", "context")
                         ELSE IF s.null THEN Plain("unknown", "null", "unknown") ELSE Bad("missing_context_of_null", "whole", NONE)
      [] l.k = "default" -> IF s.ctx # "none" /\ s.def THEN Plain("default", "value", "context") ELSE Bad("missing_context_of_default_value", "whole", NONE)
      [] OTHER -> Bad("unsupported_feature", "whole", NONE)

Meaning(s, l) ==
    CASE l.k = "exact" -> Exact(s, l)
      [] l.k = "approx" -> Approx(l)
      [] l.k = "string" -> Text(s, l)
      [] l.k = "hex" -> Hex(s, l)
      [] l.k = "date" -> DateOf(l)
      [] l.k = "time" -> TimeOf(l)
      [] l.k = "timestamp" -> StampOf(s, l)
      [] OTHER -> Other(s, l)
Value(s, l) == LET r == Meaning(s, l) IN IF r.t = "context" THEN r ELSE InContext(s, r)

Base == [max |-> 38, small |-> FALSE, tight |-> FALSE, chars |-> FALSE, octets |-> FALSE, cast |-> TRUE, null |-> FALSE, def |-> FALSE, system |-> 0, ctx |-> "none"]
Contexts == {[Base EXCEPT !.ctx = c, !.cast = b] : c \in {"none", "same", "other"}, b \in BOOLEAN}
Literals ==
    CASE Group = "exact"   -> ExactOf(Near) \cup (IF Deep THEN ExactOf(Padded) ELSE ExactOf({Rep(0, 40) \o b : b \in Bases}))
      [] Group = "approx"  -> ApproxSet
      [] Group = "string"  -> {[k |-> "string", p |-> ps] : ps \in {<<p>> : p \in Pieces(ToSet(Atoms), IF Deep THEN 5 ELSE 4)} \cup {<<p, q>> : p, q \in Pieces(ToSet(Atoms), IF Deep THEN 2 ELSE 1)}
                                                                \cup {<<p, q, r>> : p, q, r \in Pieces({"a", "Q"}, 2)}}
      [] Group = "hex"     -> {[k |-> "hex", p |-> ps] : ps \in {<<p>> : p \in Pieces(HexAtoms, IF Deep THEN 4 ELSE 3)} \cup {<<p>> : p \in Pieces({"0", "c", "B"}, 5)} \cup {<<p, q>> : p, q \in Pieces({"7", "B", "X"}, 2)}
                                                             \cup {<<p, q, r>> : p, q, r \in {<<"0", "7">>, <<"c">>, <<>>, <<"F", "B", "c">>}}}
      [] Group = "time"    -> DateSet \cup TimeSet \cup StampSet
      [] Group = "special" -> Special \cup {[k |-> "exact", neg |-> FALSE, d |-> <<4, 2>>, f |-> NONE], [k |-> "approx", neg |-> FALSE, d |-> <<4, 2>>, f |-> 1, e |-> 1], [k |-> "string", p |-> <<<<"a">>>>],
                                            [k |-> "hex", p |-> <<<<"0", "7">>>>], [k |-> "hex", p |-> <<<<"0">>>>], [k |-> "date", y |-> 2020, m |-> 5, d |-> 6, bad |-> ""], [k |-> "exact", neg |-> TRUE, d |-> <<4, 2>>, f |-> 1]}
Settings ==
    CASE Group = "exact"  -> {[Base EXCEPT !.max = m, !.small = a, !.tight = b] : m \in (IF Deep THEN {1, 2, 5, 18, 19, 20, 37, 38} ELSE {1, 5, 19, 38}), a, b \in BOOLEAN}
      [] Group = "string" -> {[Base EXCEPT !.chars = b] : b \in BOOLEAN}
      [] Group = "hex"    -> {[Base EXCEPT !.octets = b] : b \in BOOLEAN}
      [] Group = "time"   -> {[Base EXCEPT !.system = z] : z \in Zones \ {NOZONE}}
      [] Group = "special" -> {[c EXCEPT !.null = a, !.def = b, !.small = d] : c \in Contexts, a, b, d \in BOOLEAN}
      [] OTHER            -> {Base}
\* the system's offset only matters where a zone is missing
Asked(s, l) == Group # "time" \/ s.system = 0 \/ (l.k = "timestamp" /\ (l.z = NOZONE \/ s.system = 540))

VARIABLES set, lit, out
vars == <<set, lit, out>>
None == [k |-> "none"]
Init == set \in Settings /\ lit = None /\ out = None
Read == /\ lit = None
        /\ \E l \in Literals : Asked(set, l) /\ lit' = l /\ out' = Value(set, l)
        /\ UNCHANGED set
Spec == Init /\ [][Read]_vars

Done(k) == lit.k = k /\ out.ok
\* the type admits the value, and nothing of the value is lost
Admits == Done("exact") =>
    /\ out.t \in {"int1", "int2", "int4", "int8"} => Most(lit.f, 0) = 0 /\ out.x.d = Strip(lit.d) /\ out.x.neg = lit.neg
    /\ out.t = "int1" => Fits(lit.neg, lit.d, I1)
    /\ out.t = "int2" => Fits(lit.neg, lit.d, I2) /\ ~Fits(lit.neg, lit.d, I1)
    /\ out.t = "decimal" => /\ out.q = Most(lit.f, 0) /\ out.q <= set.max
                            /\ out.p # NONE => out.p >= Len(out.x.d) /\ out.p >= out.q /\ out.p <= set.max
                            /\ out.x.d = Strip(lit.d)
\* a literal is refused for its size only when it has too many digits
Refused == (lit.k = "exact" /\ ~out.ok) => Len(Strip(lit.d)) > set.max \/ lit.f > set.max
Calendar == lit = None => /\ Day(1970, 1, 1) = 0
                          /\ \A y \in {1896, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2099, 2100, 2400} : \A m \in 1..12 : \A d \in 1..Length(y, m) :
                                LET n == Following(y, m, d) IN Day(n[1], n[2], n[3]) = Day(y, m, d) + 1
Inside == Done("timestamp") => out.x.sec \in 0..86399
Arithmetic == lit = None => \A d \in Near : /\ Leq(d, Inc(d)) /\ ~Leq(Inc(d), d) /\ (~IsZero(d) => Strip(Inc(Dec(d))) = Strip(d))
                                            /\ \A e \in Near : Leq(d, e) \/ Leq(e, d)
Emit == lit # None => CSVWrite("%1$s", <<ToJson([s |-> set, l |-> lit, r |-> out])>>, OutFile)
=============================================================================
