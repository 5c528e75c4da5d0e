----------------------------- MODULE MCConvert ------------------------------
(* Exhaustive small instance: entries from a few Gaussian integers, every    *)
(* sequence of at most MaxOps conversions.                                   *)
EXTENDS Convert, TLC
CONSTANT MaxOps
Ent == {CZero, COne, <<RZero, ROne>>, <<RNeg(ROne), RTwo>>}
Small(k) == {CR(RZero), CR(ROne), CR(RInt(-3))}
Starts ==
  {Mk("complex", <<2>>, v) : v \in [1..2 -> Ent]} \cup
  {Mk("complex", <<2, 1>>, v) : v \in [1..2 -> Ent]} \cup
  {Mk("complex", <<1, 2>>, v) : v \in [1..2 -> Ent]} \cup
  {Mk("complex", <<2, 2>>, v) : v \in [1..4 -> Ent]} \cup
  {Mk("complex", <<2, 1, 1>>, v) : v \in [1..2 -> Ent]} \cup
  {Mk("complex", <<1, 1, 2>>, v) : v \in [1..2 -> {COne, <<RZero, ROne>>}]} \cup
  {Mk("complex", <<>>, <<COne>>)} \cup
  {Mk("real", <<n>>, [k \in 1..n |-> CR(RInt(k))]) : n \in 1..4} \cup
  {Mk("real", <<n, m>>, [k \in 1..(n*m) |-> CR(RInt(k))]) : n \in 1..4, m \in 1..4} \cup
  {Mk("real", <<2, n, m>>, [k \in 1..(2*n*m) |-> CR(RInt(k))]) : n \in 1..2, m \in 1..2}
Init == \E x \in Starts : held = <<x>> \/ \E y \in Starts : x.kind = "complex" /\ y.kind = "complex"
                                          /\ x.shape = y.shape /\ Len(x.shape) < 2 /\ held = <<x, y>>
Next == Len(held) <= MaxOps /\ \E op \in Ops, i \in 1..Len(held) : Convert(op, i)
Spec == Init /\ [][Next]_held
Grows == [][AppendOnly]_held
=============================================================================
