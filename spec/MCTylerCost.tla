---------------------------- MODULE MCTylerCost -----------------------------
(* The laws of the cost along every sequence of changes up to a depth, from  *)
(* small integer data; the closed-form gradient against difference           *)
(* quotients; at a fixed point of Tyler's recursion no direction descends.   *)
EXTENDS TylerCost, TLC
VARIABLE c0
vs == <<cvars, c0>>
M2(a, x, y, d) == << <<CR(RInt(a)), <<RInt(x), RInt(y)>>>>, <<<<RInt(x), RNeg(RInt(y))>>, CR(RInt(d))>> >>
PDs == { M2(a, x, y, 2) : a \in 2..3, x \in 0..1, y \in -1..1 }
V2(a, b, c, d) == <<<<RInt(a), RInt(b)>>, <<RInt(c), RInt(d)>>>>
Datas == { <<V2(1, 0, 0, 1), V2(1, 1, 2, 0), V2(0, 1, -1, 0)>>,
           <<V2(1, 0, 0, 0), V2(0, 0, 1, 0), V2(2, -1, 1, 1)>> }
As == { << <<COne, <<RZero, ROne>>>>, <<CZero, CR(RInt(2))>> >>,
        << <<CR(RInt(1)), CR(RInt(2))>>, <<CR(RInt(3)), <<RInt(-1), ROne>>>> >> }
Ws == { <<CR(RInt(2)), <<RZero, RInt(-3)>>, CR(RHalf)>>, <<<<ROne, ROne>>, COne, CR(RInt(-5))>> }
Init == Q \in PDs /\ X \in Datas /\ drift = RZero /\ c0 = Cost(Q, X)
Next == /\ \/ \E c \in {RInt(3), RFrac(1, 7)} : Rescale(c)
           \/ \E A \in As : Recoordinate(A)
           \/ \E w \in Ws : Lengths(w)
        /\ UNCHANGED c0
Spec == Init /\ [][Next]_vs
Depth == TLCGet("level") < 4
Law == RNear(Cost(Q, X), RAdd(c0, drift), RPow2(-90), RAdd(ROne, RAdd(RAbs(c0), RAbs(drift))))
Gradient == \A D \in {M2(1, 0, 0, 0), M2(0, 1, 0, 0), M2(0, 0, 1, 0), M2(-1, 2, 1, 1)} :
  RClose(CostDerivative(Q, X, D), Re(MTrace(MMul(CostGradient(Q, X), D))), RPow2(-30))
(* the gradient vanishes along Q itself: scale invariance                    *)
ScaleFlat == RClose(Re(MTrace(MMul(CostGradient(Q, X), Q))), RZero, RPow2(-90))
(* unit rows: their lengths are one and the shape of the cost is kept        *)
UnitOK == LET U == UnitRows(X) IN
  /\ \A i \in 1..Len(U) : RClose(RowNorm(U[i]), ROne, RPow2(-90))
  /\ RClose(RSub(Cost(MScaleR(RInt(2), Q), U), Cost(M2(1, 0, 0, 1), U)),
            RSub(Cost(MScaleR(RInt(2), Q), X), Cost(M2(1, 0, 0, 1), X)), RPow2(-80))
(* exact fixed point: four samples at the corners                            *)
ASSUME LET Y == <<V2(1, 0, 1, 0), V2(1, 0, -1, 0)>> I == MId(2)
       IN /\ RClose(Frob(CostGradient(I, Y)), RZero, RPow2(-100))
          /\ \A D \in {M2(1, 0, 0, -1), M2(0, 1, 0, 0), M2(0, 0, 1, 0), M2(1, 1, 1, -1)} : \A s \in {RFrac(1, 5), RFrac(-1, 5)} :
               RLt(Cost(I, Y), RAdd(Cost(MAdd(I, MScaleR(s, D)), Y), RPow2(-90)))
=============================================================================
