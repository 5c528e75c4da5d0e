---------------------------- MODULE MCContainer -----------------------------
EXTENDS Container, TLC, Json
CONSTANTS MaxConts, MaxItems, Depth, Batches, BadKinds, Emitting, OpKinds
VARIABLES hist, nid                        \* calls made; items created
vars == <<conts, hist, nid>>
Init == conts = <<<<>>>> /\ hist = <<>> /\ nid = 0
Going == Len(hist) < Depth
Do(h) == hist' = Append(hist, h)
Ids(k) == [i \in 1..k |-> nid + i]
Keys(n) ==
  {<<"int", i>> : i \in {0, -1, n - 1, n \div 2, -n}} \cup
  {<<"slice", None, None, 1>>, <<"slice", None, None, -1>>, <<"slice", 1, None, 1>>, <<"slice", 0, -1, 1>>,
   <<"slice", None, None, 2>>, <<"slice", -2, None, 1>>, <<"slice", n, None, 1>>, <<"slice", -1, 0, -2>>,
   <<"slice", 1, n + 5, 3>>} \cup
  {<<"list", <<0, n - 1>>>>, <<"list", <<n - 1, 0, -1>>>>, <<"list", <<n \div 2>>>>,
   <<"list", <<0, 0>>>>} \cup
  {<<"mask", [i \in 1..n |-> IF i % k = 0 THEN 1 ELSE 0]>> : k \in {1, 2, n + 1}}
OutOfRange(n) == {<<"int", n>>, <<"int", -n - 1>>, <<"list", <<0, n>>>>}
New1  == Going /\ "new" \in OpKinds /\ Len(conts) < MaxConts /\ New /\ Do(<<"new">>) /\ UNCHANGED nid
Add1  == Going /\ "add" \in OpKinds /\ \E c \in 1..Len(conts), k \in Batches, form \in 1..2 :
           nid + k <= MaxItems /\ Add(c, Ids(k)) /\ nid' = nid + k /\ Do(<<"add", c, Ids(k), form>>)
Join1 == Going /\ "join" \in OpKinds /\ \E c, d \in 1..Len(conts) :
           Len(conts[d]) > 0 /\ Len(conts[c]) + Len(conts[d]) <= MaxItems
           /\ Join(c, d) /\ Do(<<"join", c, d>>) /\ UNCHANGED nid
Take1 == Going /\ "take" \in OpKinds /\ \E c \in 1..Len(conts) :
           Len(conts[c]) > 0 /\ Len(conts) < MaxConts /\ \E key \in Keys(Len(conts[c])) :
           Take(c, key) /\ Do(<<"take", c, key>>) /\ UNCHANGED nid
Take2 == Going /\ "take" \in OpKinds /\ \E c \in 1..Len(conts) :
           Len(conts[c]) > 0 /\ \E key \in OutOfRange(Len(conts[c])) :
           Rejected(c) /\ Do(<<"take", c, key>>) /\ UNCHANGED nid
Bad1  == Going /\ "bad" \in OpKinds /\ \E c \in 1..Len(conts), k \in BadKinds :
           Rejected(c) /\ Do(<<"bad", c, k>>) /\ UNCHANGED nid
Look1 == Going /\ \E c \in 1..Len(conts), op \in OpKinds \cap {"export", "vectorize"} :
           Len(conts[c]) > 0 /\ Look(c) /\ Do(<<op, c>>) /\ UNCHANGED nid
Poke1 == Going /\ "poke" \in OpKinds /\ hist # <<>> /\ Look(1) /\ Do(<<"poke", 1>>) /\ UNCHANGED nid
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist])) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<conts, nid>>
Add2 == Add1
Next == New1 \/ Add1 \/ Add2 \/ Join1 \/ Take1 \/ Take2 \/ Bad1 \/ Look1 \/ Poke1 \/ Emit
Spec == Init /\ [][Next]_vars

TypeOK == \A c \in 1..Len(conts) : \A i \in 1..Len(conts[c]) : conts[c][i] \in 1..nid
(* append-only: no container ever loses or reorders what it holds            *)
AppendOnly == [][\A c \in 1..Len(conts) : /\ Len(conts'[c]) >= Len(conts[c])
                                          /\ SubSeq(conts'[c], 1, Len(conts[c])) = conts[c]]_vars
(* only the container that is appended to changes                            *)
Independent == [][hist' # hist => \A c \in 1..Len(conts) :
                    (hist'[Len(hist')][1] \notin {"add", "join"} \/ hist'[Len(hist')][2] # c) => conts'[c] = conts[c]]_vars
(* the slice rule agrees with counting: every selected position is in range, *)
(* full slices select everything, reversal reverses                          *)
KeysSound == \A c \in 1..Len(conts) : LET n == Len(conts[c]) IN
  n > 0 => /\ \A k \in Keys(n) : ValidKey(k, n) => \A q \in 1..Len(Positions(k, n)) : Positions(k, n)[q] \in 1..n
           /\ Pick(conts[c], <<"slice", None, None, 1>>) = conts[c]
           /\ Pick(Pick(conts[c], <<"slice", None, None, -1>>), <<"slice", None, None, -1>>) = conts[c]
=============================================================================
