------------------------------ MODULE MCFitted ------------------------------
(* Sample covariance on every data set of two or three samples with entries  *)
(* from a few Gaussian integers: Hermitian, positive semidefinite, shift     *)
(* invariant when not declared centred, equivariant.                         *)
EXTENDS Fitted
Ent == {CZero, COne, <<RNeg(ROne), RTwo>>}
CONSTANTS MaxN, Dimension
VARIABLE data
Init == /\ status = "new" /\ loc = <<>> /\ cov = <<>>
        /\ \E n \in 1..MaxN : data \in [1..n -> [1..Dimension -> Ent]]
Next == status = "new" /\ (\E c \in BOOLEAN : FitSample(data, c)) /\ UNCHANGED data
Spec == Init /\ [][Next]_<<fvars, data>>
T12 == RPow2(-90)
Sound == status = "fitted" => IsHermitian(cov, T12) /\ PSD(cov, T12)
Shift == LET v == [j \in 1..Dimension |-> <<RInt(j), RInt(3)>>]
             X2 == [n \in 1..Len(data) |-> VAdd(data[n], v)]
         IN MNearAbs(SampleCovariance(X2, FALSE), SampleCovariance(data, FALSE), T12)
A == [i \in 1..Dimension |-> [j \in 1..Dimension |-> IF i = j THEN <<RTwo, RNeg(ROne)>>
                                                 ELSE IF i < j THEN COne ELSE <<RZero, ROne>>]]
Equivariant == LET X2 == MMul(data, MTr(A)) IN \A c \in BOOLEAN :
   MNearAbs(SampleCovariance(X2, c), MMul(A, MMul(SampleCovariance(data, c), MHerm(A))), T12)
Pinv == status = "fitted" /\ RLt(RPow2(-40), Re(MDet(cov))) => IsPInv(cov, MInv(cov), RPow2(-60)) /\ IsInv(cov, MInv(cov), RPow2(-60))
=============================================================================
