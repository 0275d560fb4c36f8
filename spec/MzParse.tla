------------------------------ MODULE MzParse ------------------------------
(***************************************************************************)
(* The parser as an abstract reader: it takes the tokens of a given text   *)
(* one by one and keeps every way in which the tokens read so far can be   *)
(* the beginning of a sentence.                                            *)
(*                                                                         *)
(* A configuration is a stack: for each grammar symbol read, the items     *)
(* <<production, dot>> it may be part of, and (if Values) its denotation.  *)
(* Reductions are carried out without looking ahead, so that the symbols   *)
(* that may follow are known exactly: a terminal can continue the text iff *)
(* some configuration has an item with that terminal behind the dot.       *)
(*                                                                         *)
(* The texts form a tree of tokens, one branch for each text; the machine  *)
(* walks down its branches until no configuration is left.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzTables, MzAction, MzLexicon

CONSTANTS OutFile, TrieFile, Values

\* records [t |-> token, k |-> sequence of child nodes]; node 1 is the root
Trie == ndJsonDeserialize(TrieFile)

VARIABLES node, depth, given, confs
vars == <<node, depth, given, confs>>

\* ---- tables
AtFront(n) == { Prods[i].rhs[1] : i \in { i \in ProdsOf[n] : Prods[i].rhs # <<>> } }
RECURSIVE FixFront(_)
FixFront(S) == LET T == S \cup UNION { AtFront(n) \cap NT : n \in S } IN IF T = S THEN S ELSE FixFront(T)
\* productions that may begin where nonterminal n is awaited
Begins  == [ n \in NT |-> UNION { ProdsOf[m] : m \in FixFront({n}) } ]
ByFirst == [ s \in Symbols |-> { i \in PI : Prods[i].rhs # <<>> /\ Prods[i].rhs[1] = s } ]
Vacuous == [ n \in NT |-> { i \in Begins[n] : Prods[i].rhs = <<>> } ]
TermsAt == [ n \in NT |-> UNION { AtFront(m) : m \in FixFront({n}) } \ NT ]

Complete(x) == x[2] > Len(Prods[x[1]].rhs)
Awaited(x)  == Prods[x[1]].rhs[x[2]]
AwaitedNT(q) == { Awaited(x) : x \in { x \in q : ~Complete(x) } } \cap NT
\* the items after reading symbol s where items q are possible
Goto(q, s) ==
    { <<x[1], x[2] + 1>> : x \in { x \in q : ~Complete(x) /\ Awaited(x) = s } }
    \cup { <<i, 2>> : i \in { i \in ByFirst[s] : \E n \in AwaitedNT(q) : i \in Begins[n] } }
\* terminals that may come next
NextTerms(q) == ({ Awaited(x) : x \in { x \in q : ~Complete(x) } } \ NT) \cup UNION { TermsAt[n] : n \in AwaitedNT(q) }

\* ---- configurations
Top(c) == c.ks[Len(c.ks)]
ReduceBy(c, i, n0) ==
    LET p  == Prods[i]
        n  == Len(p.rhs)
        m  == Len(c.ks) - n
        ks == SubSeq(c.ks, 1, m)
        k  == Goto(ks[m], p.lhs)
    IN  IF k = {} THEN {}
        ELSE IF ~Values THEN { [c EXCEPT !.ks = Append(ks, k)] }
        ELSE LET r  == SubSeq(c.vs, m, Len(c.vs))
                 sp == SpanOf(r, IF n0 = 0 THEN 0 ELSE 2 * n0 + 1)
                 x  == EvalL(p.act, r, sp[1], sp[2])
             IN  IF c.err # <<>> \/ x.err # <<>>
                 THEN \* nothing is computed past a violated condition
                      { [ks |-> Append(ks, k), vs |-> Append(SubSeq(c.vs, 1, m - 1), Nothing(0, 0)),
                         err |-> IF c.err # <<>> THEN c.err ELSE x.err, gr |-> c.gr] }
                 ELSE { [ks |-> Append(ks, k), vs |-> Append(SubSeq(c.vs, 1, m - 1), [x EXCEPT !.err = <<>>, !.gr = <<>>]),
                         err |-> <<>>, gr |-> IF x.gr = <<>> THEN c.gr ELSE Append(c.gr, x.gr)] }
Reductions(c, n0) ==
    LET q == Top(c) IN
    UNION { ReduceBy(c, x[1], n0) : x \in { x \in q : Complete(x) /\ Prods[x[1]].lhs # Start } }
    \cup UNION { ReduceBy(c, i, n0) : i \in UNION { Vacuous[n] : n \in AwaitedNT(q) } }
RECURSIVE CloseOver(_, _, _)
CloseOver(all, todo, n0) ==
    IF todo = {} THEN all
    ELSE LET new == UNION { Reductions(c, n0) : c \in todo } \ all IN CloseOver(all \cup new, new, n0)
Done(c) == \E x \in Top(c) : Complete(x) /\ Prods[x[1]].lhs = Start
\* all configurations after n0 tokens that can read on or are finished
Close(S, n0) == { c \in CloseOver(S, S, n0) : NextTerms(Top(c)) # {} \/ Done(c) }

\* a number no size can have is an unsigned integer all the same
HugeInt == "<huge-integer>"
Shift(c, t0, n0) ==
    LET t == IF t0 = HugeInt THEN UnsignedInt ELSE t0 IN
    IF t \notin Term THEN {}
    ELSE LET k == Goto(Top(c), t) IN
         IF k = {} THEN {}
         ELSE { [c EXCEPT !.ks = Append(c.ks, k), !.vs = IF Values THEN Append(c.vs, IF t0 = HugeInt THEN HugeVal(n0) ELSE TokenVal(n0)) ELSE <<>>] }

Begin == [ks |-> << {<<1, 1>>} >>, vs |-> <<>>, err |-> <<>>, gr |-> <<>>]

Expected(S) == UNION { NextTerms(Top(c)) : c \in S }
\* the whole text was read: its denotation
Result(S) == IF \E c \in S : Done(c)
             THEN LET c == CHOOSE c \in S : Done(c)
                      x == EvalL(Prods[1].act, c.vs, c.vs[1].b, c.vs[Len(c.vs)].e)
                  IN  IF ~Values THEN <<>> ELSE IF c.err # <<>> THEN << c.err >> ELSE << c.err, x.v, x.c, x.d, c.gr >>
             ELSE <<>>
\* n node, l tokens listed as possible next, m further possible next tokens, e violations found on
\* some reading, s violation found for certain, r result, b diagnostic if the token cannot stand here
Emit(n, pre, S) ==
    LET x == Expected(S)
        l == Listed(x)
    IN  CSVWrite("%1$s", <<ToJson([n |-> n, a |-> S # {}, l |-> l, m |-> x \ l, e |-> { c.err : c \in S } \ {<<>>},
                                  s |-> { c.err : c \in pre } \ {<<>>}, r |-> Result(S), b |-> BlameOf(Trie[n].t)])>>, OutFile)


Init == /\ node = 1 /\ depth = 0 /\ given = 1
        /\ confs = Close({Begin}, 0)
        /\ Emit(1, {Begin}, confs)
Read == \E j \in 1..Len(Trie[node].k) :
          LET n   == Trie[node].k[j]
              pre == UNION { Shift(c, Trie[n].t, depth + 1) : c \in confs }
              S   == Close(pre, depth + 1)
          IN  /\ node' = n
              /\ depth' = depth + 1
              /\ given' = Cardinality(pre)
              /\ confs' = S
              /\ Emit(n, pre, S)
Next == confs # {} /\ Read
Spec == Init /\ [][Next]_vars

\* the grammar is unambiguous: a text has one reading, and one token of lookahead decides it
Unambiguous == /\ Cardinality({ c \in confs : Done(c) }) <= 1
               /\ Cardinality({ c.ks : c \in confs }) = Cardinality(confs)
Decided == given <= 1
\* a name fits wherever an identifier fits
NamesAlike == LET x == Expected(confs) IN x \cap {Identifier, Delimited} # {} => NameTokens \subseteq x
=============================================================================
