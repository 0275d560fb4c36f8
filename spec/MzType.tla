------------------------------ MODULE MzType ------------------------------
(***************************************************************************)
(* Type names of the language and the engine types they denote.            *)
(*                                                                         *)
(* Numbers are points of an ordered line: 0 and 1 stand for themselves,    *)
(* the conformance check places the others anywhere above, in order.       *)
(* NO: no number is written; FLEX: "*" is written.                         *)
(*                                                                         *)
(* A session holds the settings and reads the types of a declaration list  *)
(* one by one; each denotes one type or is refused with one diagnostic,    *)
(* whatever was read before.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS OutFile, Top, Group, Many

NO == -1
FLEX == -2
Nums == 0..Top
Arg == {NO, FLEX} \cup Nums

Simple == [unknown |-> "unknown", tiny_integer |-> "int1", small_integer |-> "int2", integer |-> "int4", big_integer |-> "int8",
           float |-> "float4", real |-> "float4", double_precision |-> "float8", boolean |-> "boolean", date |-> "date",
           binary_large_object |-> "blob", character_large_object |-> "clob"]
Strings == [character |-> "character", octet |-> "octet", bit |-> "bit"]

\* k: kind; a, b: the numbers written; v: varying / with zone (0 no, 1 yes, -1 nothing is written)
T(k, a, b, v) == [k |-> k, a |-> a, b |-> b, v |-> v]
Types(g) ==
    CASE g = "simple"  -> {T(k, NO, NO, NO) : k \in DOMAIN Simple}
                          \cup {T(k, NO, NO, v) : k \in {"time", "timestamp"}, v \in {NO, 0, 1}}
                          \cup {T(k, NO, NO, NO) : k \in {"interval", "row", "collection", "user_defined"}}
      [] g = "string"  -> {T(k, a, NO, v) : k \in DOMAIN Strings, a \in Arg, v \in {0, 1}}
      [] g = "decimal" -> {T("decimal", a, b, NO) : a \in Arg, b \in Arg}
      [] g = "integer" -> {T("binary_integer", a, NO, NO) : a \in Arg}
      [] g = "float"   -> {T("binary_float", a, NO, NO) : a \in Arg}

\* settings: the greatest and the default precision of decimals, the capacities of the numeric types
Settings(g) ==
    CASE g = "decimal" -> [max : Nums, def : {NO} \cup Nums, cap : {<<>>}]
      [] g = "integer" -> [max : {0}, def : {NO}, cap : [1..4 -> Nums]]
      [] g = "float"   -> [max : {0}, def : {NO}, cap : [1..2 -> Nums]]
      [] OTHER         -> [max : {0}, def : {NO}, cap : {<<>>}]

Is(t, a, b) == [ok |-> TRUE, t |-> t, a |-> a, b |-> b]
Bad(code, at) == [ok |-> FALSE, t |-> code, a |-> at, b |-> NO]
Given(n) == IF n = FLEX THEN NO ELSE n
Len1 == "first"
Len2 == "second"
Whole == "type"

Sized(t, x) ==
    CASE x.a = FLEX /\ x.v = 0 -> Bad("flexible_length_is_not_supported", Len1)
      [] x.a = 0               -> Bad("invalid_type_length", Len1)
      [] x.a = NO /\ x.v = 0   -> Is(t, 1, 0)
      [] OTHER                 -> Is(t, Given(x.a), x.v)
Decimal(s, x) ==
    LET p == IF x.a = NO THEN s.def ELSE Given(x.a)
        q == IF x.b = NO THEN 0 ELSE Given(x.b)
        at == IF x.a = NO THEN Whole ELSE Len1
    IN CASE p = 0                                    -> Bad("invalid_type_length", at)
         [] p # NO /\ p > s.max                      -> Bad("invalid_type_length", at)
         [] q # NO /\ q > (IF p = NO THEN s.max ELSE p) -> Bad("invalid_numeric_scale", Len2)
         [] OTHER                                    -> Is("decimal", p, q)
\* the first type of the family that holds that many bits; the widest when nothing is said
Binary(names, cap, x) ==
    LET fit == {i \in DOMAIN cap : x.a <= cap[i]}
    IN CASE x.a \in {NO, FLEX} -> Is(names[Len(names)], NO, NO)
         [] x.a = 0 \/ fit = {} -> Bad("invalid_type_length", Len1)
         [] OTHER -> Is(names[CHOOSE i \in fit : \A j \in fit : i <= j], NO, NO)
Denotes(s, x) ==
    CASE x.k \in DOMAIN Simple  -> Is(Simple[x.k], NO, NO)
      [] x.k \in DOMAIN Strings -> Sized(Strings[x.k], x)
      [] x.k = "time"           -> Is("time_of_day", NO, IF x.v = 1 THEN 1 ELSE 0)
      [] x.k = "timestamp"      -> Is("time_point", NO, IF x.v = 1 THEN 1 ELSE 0)
      [] x.k = "decimal"        -> Decimal(s, x)
      [] x.k = "binary_integer" -> Binary(<<"int1", "int2", "int4", "int8">>, s.cap, x)
      [] x.k = "binary_float"   -> Binary(<<"float4", "float8">>, s.cap, x)
      [] OTHER                  -> Bad("unsupported_feature", Whole)

VARIABLES set, read, out
vars == <<set, read, out>>
Init == set \in Settings(Group) /\ read = <<>> /\ out = <<>>
Read == /\ Len(read) < Many
        /\ \E x \in Types(Group) : read' = Append(read, x) /\ out' = Append(out, Denotes(set, x))
        /\ UNCHANGED set
Next == Read
Spec == Init /\ [][Next]_vars

\* ---- what the denotation has to satisfy
Each(P(_, _)) == \A i \in DOMAIN read : P(read[i], out[i])
\* nothing accepted is without room, a scale never exceeds its precision
Sound == Each(LAMBDA x, r : r.ok =>
           /\ r.t \in {"character", "octet", "bit"} => r.a # 0 /\ (r.b = 0 => r.a # NO)
           /\ r.t = "decimal" => /\ r.a # 0 /\ (r.a # NO => r.a <= set.max)
                                 /\ r.b # NO => r.b <= (IF r.a = NO THEN set.max ELSE r.a))
\* a number that is written is kept or refused, never replaced
Kept == Each(LAMBDA x, r : r.ok /\ x.k \in {"character", "octet", "bit", "decimal"} =>
           /\ x.a # NO => r.a = Given(x.a)
           /\ x.k = "decimal" /\ x.b # NO => r.b = Given(x.b))
\* blame falls on a number only if that number is written
Blame == Each(LAMBDA x, r : ~r.ok => (r.a = Len1 => x.a # NO) /\ (r.a = Len2 => x.b # NO))
\* a capacity suffices
Room == Each(LAMBDA x, r : r.ok /\ x.k \in {"binary_integer", "binary_float"} /\ x.a >= 0 =>
           \E i \in DOMAIN set.cap : x.a <= set.cap[i])
\* more digits never denote a smaller type when capacities grow
Rank == [int1 |-> 1, int2 |-> 2, int4 |-> 3, int8 |-> 4, float4 |-> 5, float8 |-> 6]
Grows == (Group \in {"integer", "float"} /\ \A i, j \in DOMAIN set.cap : i < j => set.cap[i] <= set.cap[j]) =>
           \A i, j \in DOMAIN read : read[i].a >= 0 /\ read[j].a >= read[i].a /\ out[i].ok /\ out[j].ok => Rank[out[i].t] <= Rank[out[j].t]
\* equal words mean equal things wherever they stand
Pure == \A i, j \in DOMAIN read : read[i] = read[j] => out[i] = out[j]

Emit == Len(read) = Many => CSVWrite("%1$s", <<ToJson([s |-> set, x |-> read, r |-> out])>>, OutFile)
=============================================================================
