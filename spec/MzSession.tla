----------------------------- MODULE MzSession -----------------------------
(***************************************************************************)
(* Parser objects in use: a few objects are created, configured, copied,   *)
(* moved, dropped and called, also from several threads at once, and the   *)
(* results are kept and looked at again later.  A call is a begin and an   *)
(* end; between them anything else may happen except writing to the object *)
(* in use.  What a call yields depends on the text and the setting of the  *)
(* object alone.                                                           *)
(*                                                                         *)
(*   Texts     records [gr, err, tree, bad]: growth events, violated       *)
(*             context condition and tree of a sentence, or bad: the       *)
(*             alternatives <<code, b, e>> of the diagnostic of a text     *)
(*             that is no sentence                                         *)
(*   Settings  records [nl, dl, desc, max, lim]                            *)
(*   slot   setting of the object in each slot, 0 if there is none         *)
(*   run    call in progress in each thread: <<slot, text>> or <<>>        *)
(*   held   results kept: <<setting, text>>                                *)
(*   hist   operations so far                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, MzAction

CONSTANTS OutFile, TextFile, SettingFile, Slots, Threads, Most, Mode

Texts    == ndJsonDeserialize(TextFile)
Settings == ndJsonDeserialize(SettingFile)

VARIABLES slot, run, held, hist
vars == <<slot, run, held, hist>>

TI == 1..Len(Texts)
SI == 1..Len(Settings)
S  == 1..Slots
P  == 1..Threads

\* ---- what a call yields: a function of the setting and the text
LimitOf(o, k) == LET hit == { j \in 1..Len(o.lim) : o.lim[j][1] = k } IN IF hit = {} THEN 0 ELSE o.lim[CHOOSE j \in hit : TRUE][2]
Surplus(o, g) == LimitOf(o, g[1]) # 0 /\ g[2] > LimitOf(o, g[1])
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Shown(t) == IF t[2] # <<>> /\ t[2][Len(t[2])][2] = "statement.empty_statement" THEN <<"L", SubSeq(t[2], 1, Len(t[2]) - 1)>> ELSE t
Outcome(o, r) ==
    IF r.bad # <<>> THEN <<"E", r.bad>>
    ELSE LET before == IF r.err = <<>> THEN Len(r.gr) ELSE r.err[Len(r.err)]
             over == { j \in 1..before : Surplus(o, r.gr[j]) }
             c == CountN(Shown(r.tree))  h == HeightN(Shown(r.tree))
             at(x) == <<x, 0, 0>>
         IN IF over # {} THEN LET g == r.gr[Least(over)] IN <<"E", << <<"exceed_number_of_elements", g[3], g[4]>> >> >>
            ELSE IF r.err # <<>> THEN <<"E", << SubSeq(r.err, 1, 3) >> >>
            ELSE IF (o.nl # 0 /\ c > o.nl) \/ (o.dl # 0 /\ h > o.dl) THEN <<"E", << at("exceed_number_of_elements") >> >>
            ELSE IF o.nl = 0 /\ o.dl = 0 THEN <<"V", 0, 0, o.desc>> ELSE <<"V", c, h, o.desc>>
\* each pair once
Table(x) == [ o \in SI |-> [ t \in TI |-> Outcome(Settings[o], Texts[t]) ] ]

Init == slot = [ s \in S |-> 0 ] /\ run = [ p \in P |-> <<>> ] /\ held = <<>> /\ hist = <<>>

InUse(s) == \E p \in P : run[p] # <<>> /\ run[p][1] = s
Op(x) == hist' = Append(hist, x)

New(s, o)   == ~ InUse(s) /\ slot' = [slot EXCEPT ![s] = o] /\ UNCHANGED <<run, held>> /\ Op(<<"N", s, o>>)
Set(s, o)   == slot[s] # 0 /\ ~ InUse(s) /\ slot' = [slot EXCEPT ![s] = o] /\ UNCHANGED <<run, held>> /\ Op(<<"S", s, o>>)
Copy(s, d)  == s # d /\ slot[s] # 0 /\ ~ InUse(d) /\ slot' = [slot EXCEPT ![d] = slot[s]] /\ UNCHANGED <<run, held>> /\ Op(<<"C", s, d>>)
Shift(s, d) == s # d /\ slot[s] # 0 /\ ~ InUse(d) /\ ~ InUse(s) /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = 0] /\ UNCHANGED <<run, held>> /\ Op(<<"M", s, d>>)
DropIt(s)   == slot[s] # 0 /\ ~ InUse(s) /\ slot' = [slot EXCEPT ![s] = 0] /\ UNCHANGED <<run, held>> /\ Op(<<"X", s, 0>>)
Begin(p, s, t) == run[p] = <<>> /\ slot[s] # 0 /\ run' = [run EXCEPT ![p] = <<s, t>>] /\ UNCHANGED <<slot, held>> /\ Op(<<"B", p, s, t>>)
\* the end of a call: its result is the outcome for the setting of the object, and is kept
End(p)      == /\ run[p] # <<>>
               /\ run' = [run EXCEPT ![p] = <<>>]
               /\ held' = Append(held, <<slot[run[p][1]], run[p][2]>>)
               /\ UNCHANGED slot
               /\ Op(<<"E", p, slot[run[p][1]], run[p][2]>>)
Look(i)     == Len(held) >= i /\ i > 0 /\ UNCHANGED <<slot, run, held>> /\ Op(<<"L", i, held[i][1], held[i][2]>>)
\* the setting of an object as the object tells it
Ask(s)      == slot[s] # 0 /\ UNCHANGED <<slot, run, held>> /\ Op(<<"O", s, slot[s]>>)

Any1(X) == IF X = {} THEN 0 ELSE RandomElement(X)
Walk1 ==
    LET k == RandomElement(1..22)
        s == RandomElement(S)  d == RandomElement(S)  o == RandomElement(SI)  t == RandomElement(TI)
        b == Any1({ p \in P : run[p] # <<>> })  f == Any1({ p \in P : run[p] = <<>> })
    IN CASE k \in {1, 2}  -> New(s, o)
         [] k = 3         -> Set(s, o)
         [] k = 4         -> Copy(s, d)
         [] k = 5         -> Shift(s, d)
         [] k = 6         -> DropIt(s)
         [] k \in 7..13   -> f # 0 /\ Begin(f, s, t)
         [] k \in 14..18  -> b # 0 /\ End(b)
         [] k = 19        -> Look(Any1(1..Len(held)))
         [] k \in {20, 21} -> Set(s, o)
         [] OTHER         -> Ask(s)

\* Mode "pairs": one object, every text after every text
PairStep ==
    CASE Len(hist) = 0      -> \E o \in SI : New(1, o)
      [] Len(hist) \in {1, 3} -> \E t \in TI : Begin(1, 1, t)
      [] Len(hist) \in {2, 4} -> End(1)
      [] Len(hist) = 5      -> Look(1)
      [] Len(hist) = 6      -> Ask(1)
      [] OTHER              -> FALSE
\* Mode "all": every short history
AllStep ==
    /\ Len(hist) < Most
    /\ \/ \E s \in S, o \in SI : New(s, o) \/ Set(s, o)
       \/ \E s \in S, d \in S : Copy(s, d) \/ Shift(s, d)
       \/ \E s \in S : DropIt(s) \/ Ask(s)
       \/ \E p \in P, s \in S, t \in TI : Begin(p, s, t)
       \/ \E p \in P : End(p)
       \/ Look(Len(held)) \/ (Len(held) > 1 /\ Look(1))
Busy == \E p \in P : run[p] # <<>>
Next == CASE Mode = "pairs" -> PairStep
          [] Mode = "all"   -> AllStep
          [] OTHER          -> Len(hist) < Most /\ (Walk1 \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* ---- what holds
\* a call never writes: settings change by New, Set, Copy, Shift and Drop only, and only in objects not in use
Quiet == [][ \A s \in S : InUse(s) => slot'[s] = slot[s] ]_vars
\* a kept result stays what it was
Kept == [][ Len(held') >= Len(held) /\ SubSeq(held', 1, Len(held)) = held ]_vars
\* every call runs on an object
Alive == \A p \in P : run[p] # <<>> => slot[run[p][1]] # 0

Complete == CASE Mode = "pairs" -> Len(hist) = 7
              [] OTHER          -> Len(hist) = Most
Emit == ~ Complete \/ CSVWrite("%1$s", <<ToJson([ h |-> hist ])>>, OutFile)
\* the outcomes, told once
EmitTable == hist # <<>> \/ CSVWrite("%1$s", <<ToJson([ table |-> Table(0) ])>>, OutFile)
=============================================================================
