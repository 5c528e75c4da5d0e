----------------------------- MODULE TylerCost ------------------------------
(* Tyler's cost of a scatter matrix Q on samples X (rows).  The state is a   *)
(* pair (Q, X); actions change the coordinates, the scale of Q and the       *)
(* lengths of the samples, and `drift` is the amount by which the cost must  *)
(* have changed since the start.                                             *)
EXTENDS LinAlg, Sequences
VARIABLES Q, X, drift
cvars == <<Q, X, drift>>

Cost(S, Y) ==                              \* p sum log(x^H Q^-1 x) + N log det Q
  LET t == QuadForms(MInv(S), Y)
  IN RAdd(RMul(RInt(Len(S)), RSum([i \in 1..Len(Y) |-> RLn(t[i])])),
          RMul(RInt(Len(Y)), RLn(Re(MDet(S)))))
Apply(A, Y) == [i \in 1..Len(Y) |-> [j \in 1..Len(A) |-> CSum([k \in 1..Len(A) |-> CMul(A[j][k], Y[i][k])])]]
Cong(A, S) == MMul(A, MMul(S, MHerm(A)))
RowNorm(x) == RSqrt(RSum([j \in 1..Len(x) |-> CAbs2(x[j])]))
UnitRows(Y) == [i \in 1..Len(Y) |-> VScale(CR(RDiv(ROne, RowNorm(Y[i]))), Y[i])]

Rescale(c) == Q' = MScaleR(c, Q) /\ UNCHANGED <<X, drift>>
Recoordinate(A) ==
  /\ Q' = Cong(A, Q) /\ X' = Apply(A, X)
  /\ drift' = RAdd(drift, RMul(RInt(Len(X)), RLn(CAbs2(MDet(A)))))
Lengths(w) ==                              \* sample i times the non-zero number w[i]
  /\ X' = [i \in 1..Len(X) |-> VScale(w[i], X[i])] /\ Q' = Q
  /\ drift' = RAdd(drift, RMul(RInt(Len(Q)), RSum([i \in 1..Len(X) |-> RLn(CAbs2(w[i]))])))
(* derivative in a Hermitian direction D, by a difference quotient           *)
H0 == RPow2(-40)
CostDerivative(S, Y, D) ==
  RDiv(RSub(Cost(MAdd(S, MScaleR(H0, D)), Y), Cost(MSub(S, MScaleR(H0, D)), Y)), RMul(RTwo, H0))
CostGradient(S, Y) ==                      \* closed form
  LET SI == MInv(S) t == QuadForms(SI, Y)
      W == WScatter([i \in 1..Len(Y) |-> RDiv(RInt(Len(S)), t[i])], Y)
  IN MSub(MScaleR(RInt(Len(Y)), SI), MMul(SI, MMul(W, SI)))
=============================================================================
