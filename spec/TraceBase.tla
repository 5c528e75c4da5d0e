----------------------------- MODULE TraceBase ------------------------------
(* Shared part of the trace specifications.  Every recorded trace is one     *)
(* initial state; a step binds the recorded event to the variables of the    *)
(* specification and evaluates the specification's action on it.  A clause   *)
(* of the action that does not hold is remembered in `bad` under its name,   *)
(* so that one mismatch does not hide the rest of the trace.                 *)
EXTENDS LinAlg, Sequences, FiniteSets, TLC, IOUtils, Json

Traces == JsonDeserialize(IOEnv.RSV_TRACES)
VARIABLES tid, l, bad, cnt
base == <<tid, l, bad, cnt>>
Trace == Traces[tid]
Ev == Trace.ev[l]
Has(f, r) == f \in DOMAIN r

BaseInit == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ cnt = 0
More == l <= Len(Trace.ev)
(* cl: sequence of <<clause name, truth value>>                              *)
Judge(cl) ==
  /\ bad' = bad \cup {<<l, cl[i][1]>> : i \in {j \in 1..Len(cl) : ~cl[j][2]}}
  /\ cnt' = cnt + Len(cl)
  /\ l' = l + 1
  /\ tid' = tid
(* a call that the specification allows, and that failed; the trace ends     *)
UnexpectedFailure == Ev.a = "unexpected" /\ Judge(<< <<"Succeeds", FALSE>> >>)
Finish ==
  /\ l = Len(Trace.ev) + 1
  /\ PrintT("RSV " \o ToJson([n |-> Trace.n, bad |-> bad, checked |-> cnt]))
  /\ l' = l + 1
  /\ UNCHANGED <<tid, bad, cnt>>
=============================================================================
