------------------------------- MODULE Batch --------------------------------
(* Applying one estimator to a stack of trials with several workers.  A      *)
(* worker takes the next waiting trial together with a private copy of the   *)
(* estimator, computes in its own time, and files the result under the       *)
(* number of the trial; the results are delivered in the order of the        *)
(* trials.  The result of trial t is whatever Alone(est, t) is.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Alone(_, _)                      \* (estimator, trial) -> result
VARIABLES est,                             \* the estimator the caller supplied
          trials, next,                    \* the stack; next trial to hand out
          work,                            \* worker -> <<copy of est, trial number>> or Idle
          filed,                           \* trial number -> result
          out                              \* delivered sequence, or Nothing
bvars == <<est, trials, next, work, filed, out>>
Idle == <<>>
Nothing == <<>>
Workers == DOMAIN work

Begin(w) == /\ work[w] = Idle /\ next <= Len(trials) /\ out = Nothing
            /\ work' = [work EXCEPT ![w] = <<est, next>>] /\ next' = next + 1
            /\ UNCHANGED <<est, trials, filed, out>>
Finishes(w) == /\ work[w] # Idle
               /\ LET t == work[w][2] IN
                  filed' = [k \in DOMAIN filed \cup {t} |->
                              IF k = t THEN Alone(work[w][1], trials[t]) ELSE filed[k]]
               /\ work' = [work EXCEPT ![w] = Idle]
               /\ UNCHANGED <<est, trials, next, out>>
Deliver == /\ Len(trials) > 0 /\ DOMAIN filed = 1..Len(trials) /\ out = Nothing
           /\ out' = [t \in 1..Len(trials) |-> filed[t]]
           /\ UNCHANGED <<est, trials, next, work, filed>>
(* what a delivered batch has to be, whatever the schedule was               *)
Expected(e, ts) == [t \in 1..Len(ts) |-> Alone(e, ts[t])]
InOrder == out # Nothing => out = Expected(est, trials)
=============================================================================
