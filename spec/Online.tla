------------------------------- MODULE Online --------------------------------
(* Online gradient estimation: an estimate (a sequence of component          *)
(* matrices) moved once per sample along a gradient through a retraction.    *)
(* sts holds the estimators in existence; the state of one is                *)
(*   kind which gradient, retraction and covariance map it was built with    *)
(*   est  the current estimate, <<>> before one is given                     *)
(*   n    the number of updates since the schedule was restarted             *)
(*   lr   the learning rate.                                                 *)
EXTENDS LinAlg, Sequences
CONSTANTS Gradient(_, _, _),               \* Gradient(kind, sample, est): sequence of matrices
          Retract(_, _, _),                \* Retract(kind, est, direction)
          ToCov(_, _)
VARIABLE sts

New(kind, lr) == [kind |-> kind, est |-> <<>>, n |-> 0, lr |-> lr]
Step(s, decreasing) == IF decreasing THEN RDiv(s.lr, RInt(s.n + 1)) ELSE s.lr
ScaleAll(c, D) == [i \in 1..Len(D) |-> MScaleR(c, D[i])]
Updated(s, x, decreasing) ==
  IF s.est = <<>> THEN s
  ELSE [s EXCEPT !.est = Retract(s.kind, s.est, ScaleAll(Step(s, decreasing), Gradient(s.kind, x, s.est))),
                 !.n = s.n + 1]
RECURSIVE Sweep(_, _, _, _)
Sweep(s, X, i, decreasing) ==
  IF i > Len(X) THEN s ELSE Sweep(Updated(s, X[i], decreasing), X, i + 1, decreasing)
Given(s, e) == [s EXCEPT !.est = e]
Fitted(s, X, init, decreasing) ==          \* init = <<>>: none supplied
  IF init = <<>> THEN s ELSE Sweep([Given(s, init) EXCEPT !.n = 0], X, 1, decreasing)

(* calls  [op, o] of estimator o with                                        *)
(*   "set": e       "update": x, d       "fit": X, e, d       "rate": lr     *)
(*   "copy", "clone": nothing                                                *)
(* and `sound`: whether the arguments are well formed.                       *)
After(c) ==
  LET s == sts[c.o] IN
  IF ~c.sound THEN sts
  ELSE CASE c.op = "set" -> [sts EXCEPT ![c.o] = Given(s, c.e)]
         [] c.op = "update" -> [sts EXCEPT ![c.o] = Updated(s, c.x, c.d)]
         [] c.op = "fit" -> [sts EXCEPT ![c.o] = Fitted(s, c.X, c.e, c.d)]
         [] c.op = "rate" -> [sts EXCEPT ![c.o].lr = c.lr]
         [] c.op = "copy" -> Append(sts, s)
         [] c.op = "clone" -> Append(sts, New(s.kind, s.lr))
LogsError(c) == \/ c.op = "update" /\ sts[c.o].est = <<>>
                \/ c.op = "fit" /\ c.sound /\ c.e = <<>>
=============================================================================
