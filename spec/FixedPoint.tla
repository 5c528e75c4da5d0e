----------------------------- MODULE FixedPoint -----------------------------
(* A fixed-point fit as a state machine: the estimate is replaced by         *)
(* F(prob, estimate) until its relative change is at most the tolerance or   *)
(* the cap on the number of iterations is reached.                           *)
EXTENDS Integers, Sequences
CONSTANTS F(_, _),            \* one step of the recursion of a problem
          Change(_, _),       \* relative change between the new and the old estimate
          AtMost(_, _)        \* comparison with the tolerance
VARIABLES pc, prob, path, errs, tol, cap, warned
fpvars == <<pc, prob, path, errs, tol, cap, warned>>

Last(s) == s[Len(s)]
Count == Len(errs)
Estimate == Last(path)
Stop == (Count > 0 /\ AtMost(Last(errs), tol)) \/ Count >= cap

Begin(pr, s0, t, c) ==
  /\ pc = "idle"
  /\ pc' = "run" /\ prob' = pr /\ path' = <<s0>> /\ errs' = <<>>
  /\ tol' = t /\ cap' = c /\ warned' = FALSE
Iterate ==
  /\ pc = "run" /\ ~Stop
  /\ LET new == F(prob, Estimate)
     IN path' = Append(path, new) /\ errs' = Append(errs, Change(new, Estimate))
  /\ UNCHANGED <<pc, prob, tol, cap, warned>>
Finish0 ==
  /\ pc = "run" /\ Stop
  /\ pc' = "done" /\ warned' = (Count = cap)
  /\ UNCHANGED <<prob, path, errs, tol, cap>>

(* ------------- what a finished fit returns, without the machine ----------- *)
RECURSIVE Power(_, _, _)
Power(pr, s, k) == IF k = 0 THEN s ELSE F(pr, Power(pr, s, k - 1))
ErrAt(pr, s, k) == Change(Power(pr, s, k), Power(pr, s, k - 1))
RECURSIVE StopFrom(_, _, _, _, _)
StopFrom(pr, s, t, c, k) ==
  IF k >= c \/ (k > 0 /\ AtMost(ErrAt(pr, s, k), t)) THEN k ELSE StopFrom(pr, s, t, c, k + 1)
StopIndex(pr, s, t, c) == StopFrom(pr, s, t, c, 0)

FirstStop  == pc = "done" => Count = StopIndex(prob, path[1], tol, cap)
Result     == pc = "done" => Estimate = Power(prob, path[1], Count)
LastError  == pc = "done" /\ Count > 0 => Last(errs) = ErrAt(prob, path[1], Count)
WarnAtCap  == pc = "done" => (warned <=> Count = cap)
NeverPastCap == pc # "idle" => Count <= cap
=============================================================================
