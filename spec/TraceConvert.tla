---------------------------- MODULE TraceConvert ----------------------------
EXTENDS Convert, TraceBase
vars == <<held, base>>
Val(o) == [kind |-> o.kind, shape |-> o.shape, v |-> o.v]
Init == BaseInit /\ held = [i \in 1..Len(Trace.start) |-> Val(Trace.start[i])]
(* recorded: op, src (index), outcome, out (if ok), before and after values  *)
(* of everything held                                                        *)
Next ==
  \/ /\ More
     /\ LET e == Ev
            want == Result(e.op, held[e.src])
            got  == IF e.outcome = "ok" THEN Val(e.out) ELSE Reject
        IN /\ held' = IF e.outcome = "ok" THEN Append(held, got) ELSE held
           /\ Judge(<< <<"Accepted",  want # Reject => e.outcome = "ok">>,
                       <<"Rejected",  want = Reject => e.outcome \notin {"ok", "Timeout"}>>,
                       <<"Representation", want # Reject /\ e.outcome = "ok"
                                             => got.kind = want.kind /\ got.shape = want.shape>>,
                       <<"Values", want # Reject /\ e.outcome = "ok" => got.v = want.v>>,
                       <<"InputsUntouched", [i \in 1..Len(e.after) |-> Val(e.after[i])] = held>> >>)
  \/ Finish /\ UNCHANGED held
=============================================================================
