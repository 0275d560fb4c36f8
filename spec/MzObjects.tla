----------------------------- MODULE MzObjects -----------------------------
(***************************************************************************)
(* Objects of the syntax tree in memory.  An object owns the objects below *)
(* it by address; a copy allocates every object anew.  What a program sees *)
(* of an object is the value (MzAst) it stands for.                        *)
(*                                                                         *)
(*   heap   address -> object <<class, components, range>>, in which an    *)
(*          owned object is <<"@", address>>                               *)
(*   root   handle -> address of the object it holds, 0: none              *)
(*   ghost  handle -> the value it should stand for, by the history of     *)
(*          that handle alone                                              *)
(*   next   first unused address                                           *)
(*   hist   operations: <<name, handle, other handle, path, operand,       *)
(*          value of the handle afterwards>>                               *)
(*   left   operations to come                                             *)
(***************************************************************************)
EXTENDS MzAst

CONSTANTS Handles, Most, Few_     \* Few_: classes to start from, <<>>: all

VARIABLES heap, root, ghost, next, hist, left
ovars == <<heap, root, ghost, next, hist, left>>
all == <<vars, ovars>>

H == 1..Handles
Bound(f, g, D) == [ x \in (DOMAIN f) \cup D |-> IF x \in D THEN g[x] ELSE f[x] ]

\* ---- values in memory: Put stores v and gives <<heap, next address, stored value>>
RECURSIVE Store(_, _, _), StoreAll(_, _, _, _)
StoreAll(vs, hp, n, acc) == IF vs = <<>> THEN <<hp, n, acc>>
                            ELSE LET r == Store(Head(vs), hp, n) IN StoreAll(Tail(vs), r[1], r[2], Append(acc, r[3]))
Store(v, hp, n) ==
    CASE v[1] = "N" -> LET r == StoreAll(v[3], hp, n + 1, <<>>) IN
                       <<Bound(r[1], (n :> <<v[2], r[3], v[4]>>), {n}), r[2], <<"@", n>>>>
      [] v[1] = "l" -> LET r == StoreAll(v[2], hp, n, <<>>) IN <<r[1], r[2], <<"l", r[3]>>>>
      [] v[1] = "m" -> LET r == Store(v[2], hp, n) IN <<r[1], r[2], <<"m", r[3], v[3]>>>>
      [] OTHER -> <<hp, n, v>>
RECURSIVE Fetch(_, _), Below(_, _), BelowAll(_, _)
Fetch(w, hp) ==
    CASE w[1] = "@" -> LET o == hp[w[2]] IN <<"N", o[1], [ i \in 1..Len(o[2]) |-> Fetch(o[2][i], hp) ], o[3]>>
      [] w[1] = "l" -> <<"l", [ i \in 1..Len(w[2]) |-> Fetch(w[2][i], hp) ]>>
      [] w[1] = "m" -> <<"m", Fetch(w[2], hp), w[3]>>
      [] OTHER -> w
\* addresses owned by a stored value, as a list
BelowAll(s, hp) == IF s = <<>> THEN <<>> ELSE Below(Head(s), hp) \o BelowAll(Tail(s), hp)
Below(w, hp) ==
    CASE w[1] = "@" -> <<w[2]>> \o BelowAll(hp[w[2]][2], hp)
      [] w[1] = "l" -> BelowAll(w[2], hp)
      [] w[1] = "m" -> Below(w[2], hp)
      [] OTHER -> <<>>
SetOf(s) == { s[i] : i \in 1..Len(s) }
Owned(h) == IF root[h] = 0 THEN {} ELSE SetOf(Below(<<"@", root[h]>>, heap))
Drop(hp, D) == [ x \in (DOMAIN hp) \ D |-> hp[x] ]
RECURSIVE Count(_), CountAll(_)
CountAll(vs) == IF vs = <<>> THEN 0 ELSE Count(Head(vs)) + CountAll(Tail(vs))
Count(v) == CASE v[1] = "N" -> 1 + CountAll(v[3]) [] v[1] = "l" -> CountAll(v[2]) [] v[1] = "m" -> Count(v[2]) [] OTHER -> 0

\* ---- places inside a value: <<path, type>>; a path names components and list elements in turn
RECURSIVE PlacesIn(_, _, _)
PlacesIn(v, t, p) ==
    {<<p, t>>} \cup
    CASE v[1] = "-" -> {}
      [] t[1] = "opt" -> { x \in PlacesIn(v, t[2], p) : x[1] # p }
      [] t[1] = "seq" -> UNION { PlacesIn(v[2][i], t[2], Append(p, i)) : i \in 1..Len(v[2]) }
      [] v[1] = "N" -> UNION { PlacesIn(v[3][i], Comps(v[2])[i].t, Append(p, i)) : i \in 1..Len(v[3]) }
      [] OTHER -> {}
Places_(v) == { x \in PlacesIn(v, <<"top">>, <<>>) : x[1] # <<>> }
RECURSIVE ValueAt(_, _), Replaced(_, _, _)
ValueAt(v, p) == IF p = <<>> THEN v ELSE ValueAt((IF v[1] = "l" THEN v[2] ELSE v[3])[Head(p)], Tail(p))
Replaced(v, p, x) == IF p = <<>> THEN x
                     ELSE IF v[1] = "l" THEN <<"l", [v[2] EXCEPT ![Head(p)] = Replaced(v[2][Head(p)], Tail(p), x)]>>
                     ELSE [v EXCEPT ![3] = [v[3] EXCEPT ![Head(p)] = Replaced(v[3][Head(p)], Tail(p), x)]]
\* the stored value at path p of the object at address a: replaced in the heap, the old one freed
RECURSIVE StoredAt(_, _, _), Update(_, _, _, _)
StoredAt(w, p, hp) == IF p = <<>> THEN w
                      ELSE IF w[1] = "@" THEN StoredAt(hp[w[2]][2][Head(p)], Tail(p), hp)
                      ELSE StoredAt(w[2][Head(p)], Tail(p), hp)
\* <<heap, stored value>> with the place set to x
Update(w, p, x, hp) ==
    IF p = <<>> THEN <<hp, x>>
    ELSE IF w[1] = "@" THEN LET r == Update(hp[w[2]][2][Head(p)], Tail(p), x, hp) IN
                            <<[r[1] EXCEPT ![w[2]] = [@ EXCEPT ![2] = [@ EXCEPT ![Head(p)] = r[2]]]], w>>
    ELSE LET r == Update(w[2][Head(p)], Tail(p), x, hp) IN <<r[1], <<"l", [w[2] EXCEPT ![Head(p)] = r[2]]>>>>

\* ---- operations
Log(op, h, g, p, x) == /\ hist' = Append(hist, <<op, h, g, p, x, ghost'[h]>>)
                       /\ left' = left - 1
                       /\ UNCHANGED vars
Hold(h, v, freed) == LET r == Store(v, Drop(heap, freed), next) IN
                     /\ heap' = r[1] /\ next' = r[2] /\ root' = [root EXCEPT ![h] = r[3][2]]
Live == { h \in H : root[h] # 0 }

Build(h, v) == Hold(h, v, Owned(h)) /\ ghost' = [ghost EXCEPT ![h] = v] /\ Log("N", h, 0, <<>>, v)
\* the copy is made from what is in memory
Copy(h, g) == h # g /\ g \in Live /\ Hold(h, Fetch(<<"@", root[g]>>, heap), Owned(h)) /\ ghost' = [ghost EXCEPT ![h] = ghost[g]] /\ Log("C", h, g, <<>>, <<>>)
\* the source ends
Move(h, g) == /\ h # g /\ g \in Live
              /\ LET r == Store(Fetch(<<"@", root[g]>>, heap), Drop(heap, Owned(h) \cup Owned(g)), next) IN
                 heap' = r[1] /\ next' = r[2] /\ root' = [root EXCEPT ![h] = r[3][2], ![g] = 0]
              /\ ghost' = [ghost EXCEPT ![h] = ghost[g], ![g] = <<>>]
              /\ Log("M", h, g, <<>>, <<>>)
Part_(h, g, p) == /\ h # g /\ g \in Live
                  /\ Hold(h, Fetch(StoredAt(<<"@", root[g]>>, p, heap), heap), Owned(h))
                  /\ ghost' = [ghost EXCEPT ![h] = ValueAt(ghost[g], p)]
                  /\ Log("S", h, g, p, <<>>)
Set(h, p, v, op, g, x) ==
    /\ h \in Live
    /\ LET old == SetOf(Below(StoredAt(<<"@", root[h]>>, p, heap), heap))
           r == Store(v, heap, next)
           u == Update(<<"@", root[h]>>, p, r[3], r[1]) IN
       heap' = Drop(u[1], old) /\ next' = r[2] /\ UNCHANGED root
    /\ ghost' = [ghost EXCEPT ![h] = Replaced(ghost[h], p, v)]
    /\ Log(op, h, g, p, x)
Assign(h, p, v) == Set(h, p, v, "A", 0, v)
Insert(h, p, g) == h # g /\ g \in Live /\ Set(h, p, Fetch(<<"@", root[g]>>, heap), "P", g, <<>>)
End(h) == /\ h \in Live
          /\ heap' = Drop(heap, Owned(h)) /\ root' = [root EXCEPT ![h] = 0] /\ ghost' = [ghost EXCEPT ![h] = <<>>]
          /\ UNCHANGED next /\ Log("D", h, 0, <<>>, <<>>)
Ask(h, g) == h \in Live /\ g \in Live /\ UNCHANGED <<heap, root, ghost, next>>
             /\ hist' = Append(hist, <<"E", h, g, <<>>, IF Equal(ghost[h], ghost[g]) THEN "equal" ELSE "different", ghost[h]>>)
             /\ left' = left - 1 /\ UNCHANGED vars
Show(h) == h \in Live /\ UNCHANGED <<heap, root, ghost, next>> /\ Log("O", h, 0, <<>>, <<>>)

\* ---- what may be set where
Target(t) == IF t[1] = "opt" THEN t[2] ELSE t
Settable(v) == { x \in Places_(v) : /\ x[2][1] # "elem" /\ x[2] # Kind("ast::type::kind", Constants(Comps("type.simple")[1].t))
                                    /\ \A i \in 0..Len(x[1]) - 1 :
                                         LET o == ValueAt(v, SubSeq(x[1], 1, i)) IN o[1] = "N" => o[2] # "statement.privilege_user" }
Fits(t, v) == Target(t)[1] = "ref" /\ v[2] \in Members(Target(t)[2])
Parts_(v) == { x \in Places_(v) : Target(x[2])[1] = "ref" /\ ValueAt(v, x[1])[1] = "N" }

Starts_ == IF Few_ = <<>> THEN { c \in Names : FamilyOf(c) # "element" } ELSE SetOf(Few_)
InitO == /\ val = <<>> /\ done = {} /\ heap = [ x \in {} |-> 0 ] /\ root = [ h \in H |-> 0 ] /\ ghost = [ h \in H |-> <<>> ] /\ next = 1 /\ hist = <<>> /\ left = Most

\* every operation, with few operands
NextAll == /\ left > 0
           /\ \E h \in H :
                \/ \E c \in Starts_ : Build(h, Locate(Plain(c, "a"), next))
                \/ \E g \in H : Copy(h, g) \/ Move(h, g) \/ Ask(h, g)
                \/ End(h)
                \/ \E g \in Live : \E x \in Parts_(ghost[g]) : Part_(h, g, x[1])
                \/ h \in Live /\ \E x \in Settable(ghost[h]) : \/ \E v \in Few(x[2], "z") : Assign(h, x[1], Locate(v, next))
                                                              \/ \E g \in Live : Fits(x[2], ghost[g]) /\ Count(ghost[h]) < 12 /\ Insert(h, x[1], g)
SpecAll == InitO /\ [][NextAll]_all

\* one operation picked at random
One_(S) == { RandomElement(S) }     \* \E x \in One_(S): some x, the same wherever it is named
Build1(h) == \E c \in One_(Starts_) : \E k \in One_(1..3), r \in One_(1..8) :
             Build(h, Sorted(Locate(IF k = 1 THEN Sparse(c) ELSE Plain(c, "a"), next * 3), r))
NextWalk ==
    /\ left > 0
    /\ \E h \in One_(H), k \in One_(1..20), g \in One_(H) :
       CASE Live = {} \/ k <= 2 \/ (k <= 17 /\ h \notin Live /\ (g \notin Live \/ k >= 10)) -> Build1(h)
         [] k \in 3..6 /\ g \in Live /\ g # h -> Copy(h, g)
         [] k = 7 /\ g \in Live /\ g # h -> Move(h, g)
         [] k \in 8..9 /\ g \in Live /\ g # h /\ Parts_(ghost[g]) # {} -> \E x \in One_(Parts_(ghost[g])) : Part_(h, g, x[1])
         [] k \in 10..14 /\ h \in Live /\ Settable(ghost[h]) # {} ->
              \E x \in One_(Settable(ghost[h])) :
              IF Alts(x[2], "b") = {} THEN Show(h) ELSE \E v \in One_(Alts(x[2], "b")), r \in One_(1..8) : Assign(h, x[1], Sorted(Locate(v, next * 3), r))
         [] k \in 15..17 /\ h \in Live /\ g \in Live /\ g # h /\ Count(ghost[h]) < 40 /\ { x \in Settable(ghost[h]) : Fits(x[2], ghost[g]) } # {} ->
              \E x \in One_({ y \in Settable(ghost[h]) : Fits(y[2], ghost[g]) }) : Insert(h, x[1], g)
         [] k = 18 /\ h \in Live -> End(h)
         [] k = 19 /\ h \in Live /\ g \in Live -> Ask(h, g)
         [] OTHER -> \E x \in One_(Live) : Show(x)
SpecWalk == InitO /\ [][NextWalk]_all

\* ---- what holds
\* a handle stands for what its own history made it
Faithful == \A h \in H : IF root[h] = 0 THEN ghost[h] = <<>> ELSE Fetch(<<"@", root[h]>>, heap) = ghost[h]
\* every object has one owner, and none is left over
OneOwner == /\ \A h \in Live : LET s == Below(<<"@", root[h]>>, heap) IN Cardinality(SetOf(s)) = Len(s)
            /\ \A h, g \in Live : h # g => Owned(h) \cap Owned(g) = {}
            /\ DOMAIN heap = UNION { Owned(h) : h \in H }
\* an operation on one handle leaves the others as they are; only a move ends its source
Apart == [][ \A h \in H : LET x == hist'[Len(hist')] IN h # x[2] /\ ~(x[1] = "M" /\ h = x[3]) => ghost'[h] = ghost[h] /\ root'[h] = root[h] ]_ovars

EmitO == left = 0 => CSVWrite("%1$s", <<ToJson([h |-> hist])>>, OutFile)
=============================================================================
