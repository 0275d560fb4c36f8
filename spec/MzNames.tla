------------------------------ MODULE MzNames ------------------------------
(***************************************************************************)
(* Questions about the public enumerations (MzEnums).                      *)
(*                                                                         *)
(* The machine walks over all constants and asks, for every name of every  *)
(* enumeration and for damaged names, which element kind it denotes.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzEnums

CONSTANTS OutFile

\* names of the element kinds and the lookup by name
ElementKinds == Enums[EnumOf("parser::sql_parser_element_kind")].cs
Lookup(s) == IF \E i \in 1..Len(ElementKinds) : ElementKinds[i][2] = s
             THEN ElementKinds[CHOOSE i \in 1..Len(ElementKinds) : ElementKinds[i][2] = s][2]
             ELSE ""

\* texts that resemble a name
Damaged(s) == {s, SubSeq(s, 2, Len(s)), SubSeq(s, 1, Len(s) - 1), s \o "s", s \o "_", " " \o s, s \o " ", "",
               SubSeq(s, 1, Len(s) \div 2), s \o s}
             \cup {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
             \cup {SubSeq(s, 1, i) \o "x" \o SubSeq(s, i + 2, Len(s)) : i \in 0..Len(s) - 1}
Joined == {ElementKinds[i][2] \o ElementKinds[j][2] : i, j \in 1..Len(ElementKinds)}

-----------------------------------------------------------------------------
\* the machine: a question is chosen, the answer is the state that follows
VARIABLES q, a
vars == <<q, a>>

None == [op |-> "none", e |-> "", x |-> ""]
Names(i) == {Enums[i].cs[j][2] : j \in 1..Len(Enums[i].cs)}

AskName == \E i \in 1..Len(Enums) : \E j \in 1..Len(Enums[i].cs) :
              /\ q' = [op |-> "name", e |-> Enums[i].id, x |-> Enums[i].cs[j][1]]
              /\ a' = <<Enums[i].cs[j][2]>>
AskSet  == \E i \in 1..Len(Enums) :
              /\ Enums[i].set # ""
              /\ q' = [op |-> "set", e |-> Enums[i].id, x |-> ""]
              /\ a' = [j \in 1..Len(Enums[i].cs) |-> Enums[i].cs[j][2]]
AskEach == /\ q' = [op |-> "each", e |-> "", x |-> ""]
           /\ a' = [j \in 1..Len(ElementKinds) |-> ElementKinds[j][2]]
AskClass == \E f \in 1..Len(Families) : \E j \in 1..Len(Families[f].cs) :
              /\ q' = [op |-> "class", e |-> Families[f].id, x |-> Families[f].cs[j][1]]
              /\ a' = <<ClassOf(f, Families[f].cs[j][1])>>
AskTags == \E f \in 1..Len(Families) : \E c \in Classes(f) :
              /\ q' = [op |-> "tags", e |-> Families[f].id, x |-> c]
              /\ LET ks == KindsOf(f, c) IN a' = [j \in 1..Len(ks) |-> ks[j][2]]
AskFind == \E s \in UNION {Damaged(ElementKinds[i][2]) : i \in 1..Len(ElementKinds)} \cup Joined
                    \cup UNION {Names(i) : i \in 1..Len(Enums)} :
              /\ q' = [op |-> "find", e |-> "", x |-> s]
              /\ a' = <<Lookup(s)>>

Init == q = None /\ a = <<>>
Next == q = None /\ (AskName \/ AskSet \/ AskEach \/ AskClass \/ AskTags \/ AskFind)
Spec == Init /\ [][Next]_vars

\* distinct constants print differently
Injective == q = None => \A i \in 1..Len(Enums) : \A j, k \in 1..Len(Enums[i].cs) :
                            j # k => Enums[i].cs[j] # Enums[i].cs[k] /\ Enums[i].cs[j][2] # Enums[i].cs[k][2]
\* every kind of a family has exactly one class and every class a kind
Partition == q = None => \A f \in 1..Len(Families) :
                LET E == Enums[EnumOf(Families[f].id)].cs IN
                /\ {E[j][1] : j \in 1..Len(E)} = {Families[f].cs[j][1] : j \in 1..Len(Families[f].cs)}
                /\ Len(E) = Len(Families[f].cs)
\* a name found denotes the constant that prints so
FindInverse == q.op = "find" /\ a[1] # "" => a[1] = q.x

Emit == q # None => CSVWrite("%1$s", <<ToJson([op |-> q.op, e |-> q.e, x |-> q.x, a |-> a])>>, OutFile)
=============================================================================
