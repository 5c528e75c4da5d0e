---------------------------- MODULE MCKronecker -----------------------------
(* Identities the Kronecker estimators rest on, over small Hermitian         *)
(* positive definite factors and integer data; and one exact MM step for     *)
(* scalar-times-matrix factors, which must not increase the cost.            *)
EXTENDS Kronecker
PDs == { << <<CR(RInt(d1)), <<RInt(x), RInt(y)>>>>, <<<<RInt(x), RNeg(RInt(y))>>, CR(RInt(d2))>> >> :
         d1 \in 2..3, d2 \in 2..3, x \in 0..1, y \in -1..1 }
PD1 == { <<<<CR(RInt(d))>>>> : d \in 1..3 }
Vecs == { <<COne, CZero, CZero, COne>>, <<COne, <<RZero, ROne>>, CR(RInt(2)), CR(RInt(-1))>>,
          <<<<ROne, ROne>>, CZero, <<RInt(-1), RTwo>>, COne>> }
VARIABLE X
Init == /\ rep = <<>> /\ X \in [1..2 -> Vecs]
        /\ \E A \in PDs, B \in PDs : fac = <<<<A, B>>>>
Next == UNCHANGED <<kvars, X>>
Spec == Init /\ [][Next]_<<kvars, X>>
T == RPow2(-100)
A0 == fac[1][1]
B0 == fac[1][2]
QuadIdentity == \A n \in 1..2 :
  LET M == Matricise(X[n], 2, 2) t == Quads(A0, B0, X)[n]
  IN /\ RRelClose(Re(MTrace(MMul(MInv(A0), MTr(MMul(MHerm(M), MMul(MInv(B0), M)))))), t, T)
     /\ RRelClose(Re(MTrace(MMul(MInv(B0), MMul(M, MMul(MTr(MInv(A0)), MHerm(M)))))), t, T)
DetIdentity == RRelClose(Re(MDet(MKron(A0, B0))),
                         RMul(RSq(Re(MDet(A0))), RSq(Re(MDet(B0)))), T)
(* the targets are a, b times averages of matrices of trace one w.r.t. the factor *)
TargetTrace ==
  /\ RRelClose(Re(MTrace(MMul(MInv(A0), TargetA(A0, B0, X)))), RInt(2), T)
  /\ RRelClose(Re(MTrace(MMul(MInv(B0), TargetB(A0, B0, X)))), RInt(2), T)
ScaleFree == RRelClose(TylerCost(MKron(A0, MScaleR(RInt(5), B0)), X), TylerCost(MKron(A0, B0), X), RPow2(-90))
=============================================================================
