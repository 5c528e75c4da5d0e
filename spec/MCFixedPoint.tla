---------------------------- MODULE MCFixedPoint ----------------------------
(* Every problem on four states (all 256 step functions), every start,       *)
(* tolerance and cap up to 4.                                                *)
EXTENDS FixedPoint
CONSTANT NPts
Pts == 1..NPts
MCF(pr, s) == pr[s]
MCChange(a, b) == (IF a > b THEN a - b ELSE b - a)
MCAtMost(a, b) == a <= b
Init == pc = "idle" /\ prob = <<>> /\ path = <<>> /\ errs = <<>> /\ tol = 0 /\ cap = 0 /\ warned = FALSE
Next == \/ \E pr \in [Pts -> Pts], s \in Pts, t \in 0..2, c \in 0..4 : Begin(pr, s, t, c)
        \/ Iterate \/ Finish0
Spec == Init /\ [][Next]_fpvars /\ WF_fpvars(Next)
Terminates == (pc = "run") ~> (pc = "done")
=============================================================================
