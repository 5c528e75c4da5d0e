------------------------------ MODULE MCBatch -------------------------------
EXTENDS Batch
CONSTANTS NTrials, NWorkers
Result(e, x) == <<e, x>>
Init == /\ est = "params" /\ \E n \in 1..NTrials : trials \in [1..n -> {"x", "y", "z"}]
        /\ next = 1 /\ \E k \in 1..NWorkers : work = [w \in 1..k |-> Idle]
        /\ filed = <<>> /\ out = Nothing
Next == (\E w \in Workers : Begin(w) \/ Finishes(w)) \/ Deliver
Spec == Init /\ [][Next]_bvars /\ WF_bvars(Next)
EstimatorUntouched == [][est' = est]_bvars
Delivered == <>(out # Nothing)
NoneTwice == Cardinality({w \in Workers : work[w] # Idle}) =
             Cardinality({work[w][2] : w \in {v \in Workers : work[v] # Idle}})
=============================================================================
