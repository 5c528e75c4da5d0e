----------------------------- MODULE TraceBatch -----------------------------
(* Batch transformations of real estimators.  For every trial the driver     *)
(* first records what a private copy of the estimator gives on that trial    *)
(* alone, and a trial is represented by that outcome.  A batch run is one sequence of      *)
(* Begin, Finishes and Deliver steps that nobody sees but for its result:    *)
(* the delivered sequence has to be Expected.                                *)
EXTENDS LinAlg, TraceBase
VARIABLES est, trials, next, work, filed, out
AloneSeen(e, t) == t
B == INSTANCE Batch WITH Alone <- AloneSeen
vars == <<B!bvars, base>>
T9 == RFrac(1, 1000000000)
Init == BaseInit /\ est = "supplied" /\ trials = <<>> /\ next = 1 /\ work = <<>>
        /\ filed = <<>> /\ out = B!Nothing
NearZ(z, w, s) == RLeq(CAbs(CSub(z, w)), RMul(T9, s))
Size(v) == RAdd(RPow2(-300), RSqrt(RSum([i \in 1..Len(v) |-> CAbs2(v[i])])))
(* an item is a sequence of components [shape, kind, v]                      *)
SameComp(a, b) == /\ a.shape = b.shape /\ a.kind = b.kind /\ Len(a.v) = Len(b.v)
                  /\ \A i \in 1..Len(a.v) : NearZ(a.v[i], b.v[i], Size(b.v))
SameItem(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : SameComp(a[c], b[c])
Fails(t) == t.outcome # "ok"

EvAlone ==                                 \* the trials are collected one by one
  /\ Ev.a = "alone"
  /\ trials' = Append(trials, [outcome |-> Ev.outcome, v |-> Ev.v]) /\ UNCHANGED <<est, next, work, filed, out>>
  /\ Judge(<< <<"AloneConsistent", Ev.outcome \in {"ok", "fails"}>> >>)
EvBatch ==
  LET e == Ev exp == B!Expected(est, trials) somefail == \E t \in 1..Len(trials) : Fails(trials[t]) IN
  /\ Ev.a = "batch"
  /\ next' = Len(trials) + 1 /\ out' = e.out
  /\ filed' = exp /\ UNCHANGED <<est, trials, work>>
  /\ Judge(<< <<"Succeeds", ~somefail => e.outcome = "ok">>,
              <<"FailingTrialRaises", somefail => e.outcome \notin {"ok", "Timeout"}>>,
              <<"OneItemPerTrial", e.outcome = "ok" => Len(e.out) = Len(trials)>>,
              <<"InOrderAndAlone", e.outcome = "ok" /\ ~somefail =>
                   /\ Len(e.out) = Len(exp) /\ \A t \in 1..Len(exp) : SameItem(e.out[t], exp[t].v)>>,
              <<"EstimatorUntouched", Trace.isolated => e.before = e.after>>,
              <<"TrialsUntouched", e.same>> >>)
Next ==
  \/ More /\ (EvAlone \/ EvBatch \/ (UnexpectedFailure /\ UNCHANGED <<est, trials, next, work, filed, out>>))
  \/ Finish /\ UNCHANGED <<est, trials, next, work, filed, out>>
=============================================================================
