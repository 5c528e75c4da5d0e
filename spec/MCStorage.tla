----------------------------- MODULE MCStorage ------------------------------
(* A container kept in a preallocated buffer that grows by whole blocks, as  *)
(* a refinement of the abstract sequence.  Junk marks unused room.           *)
EXTENDS Integers, Sequences
CONSTANTS Block, MaxBatch, MaxItems
VARIABLES buf, len, nid
vars == <<buf, len, nid>>
Junk == 0
Init == buf = <<>> /\ len = 0 /\ nid = 0
Ids(k) == [i \in 1..k |-> nid + i]
Room(n) == [i \in 1..n |-> Junk]
RECURSIVE Grown(_, _)
Grown(b, n) == IF Len(b) >= n THEN b ELSE Grown(b \o Room(Block), n)
Write(b, at, d) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE b[i]]
Add(k) == /\ nid + k <= MaxItems /\ nid' = nid + k /\ len' = len + k
          /\ buf' = IF buf = <<>> THEN Ids(k) ELSE Write(Grown(buf, len + k), len, Ids(k))
Next == \E k \in 1..MaxBatch : Add(k)
Spec == Init /\ [][Next]_vars
Held == SubSeq(buf, 1, len)
NoJunk == \A i \in 1..len : Held[i] # Junk
Abs == INSTANCE Container WITH conts <- <<Held>>
AbsNext == \E k \in 1..MaxBatch : Abs!Add(1, Ids(k))
Refines == [][AbsNext]_<<Held>>
=============================================================================
