------------------------------- MODULE MCSeed --------------------------------
(* Every nesting of blocks, draws, reseedings and exceptions up to a depth.  *)
(* The ghost `under` is, for each open block, the position of the surrounding*)
(* stream; `flat` is the position of the stream obtained by leaving out      *)
(* everything that happened inside closed blocks.                            *)
EXTENDS Seed, TLC, Json
CONSTANTS Depth, Seeds, Kinds, MaxNest, Emitting
VARIABLES hist
vars == <<svars, hist>>
Init == pos = At(1) /\ blocks = <<>> /\ hist = <<>>
Do(h) == hist' = Append(hist, h)
Act == /\ Len(hist) < Depth
       /\ \/ \E k \in Kinds : Draw(k) /\ Do(<<"draw", k>>)
          \/ \E s \in Seeds : Reseed(s) /\ Do(<<"reseed", s>>)
          \/ \E s \in Seeds : Len(blocks) < MaxNest /\ Enter(s) /\ Do(<<"enter", s>>)
          \/ Leave /\ Do(<<"leave">>)
          \/ \E d \in 0..(MaxNest - 1) : Unwind(d) /\ Do(<<"unwind", d>>)
Draw2 == Len(hist) < Depth /\ \E k \in Kinds : Draw(k) /\ Do(<<"draw", k>>)
(* the history with everything inside closed blocks removed                  *)
RECURSIVE Open(_, _)
Open(h, k) ==                              \* stack of histories, one per open block, after k steps
  IF k = 0 THEN <<<<>>>>
  ELSE LET o == Open(h, k - 1) c == h[k] n == Len(o) IN
       CASE c[1] = "enter" -> Append(o, <<<<"reseed", c[2]>>>>)
         [] c[1] = "leave" -> SubSeq(o, 1, n - 1)
         [] c[1] = "unwind" -> SubSeq(o, 1, c[2] + 1)
         [] OTHER -> [o EXCEPT ![n] = Append(@, c)]
RECURSIVE Run(_, _)
Run(h, k) ==
  IF k = 0 THEN At(1)
  ELSE LET p == Run(h, k - 1) IN IF h[k][1] = "reseed" THEN At(h[k][2]) ELSE <<p[1], Append(p[2], h[k][2])>>
(* the position after every call                                             *)
Positions == [k \in 1..Len(hist) |-> LET o == Open(hist, k) IN Run(o[Len(o)], Len(o[Len(o)]))]
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist, at |-> Positions])) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED svars
Next == Act \/ Draw2 \/ Emit
Spec == Init /\ [][Next]_vars

Transparent == Len(hist) <= Depth =>
  LET o == Open(hist, Len(hist)) IN
  /\ Len(o) = Len(blocks) + 1
  /\ pos = Run(o[Len(o)], Len(o[Len(o)]))
  /\ \A i \in 1..Len(blocks) : blocks[i] = Run(o[i], Len(o[i]))
=============================================================================
