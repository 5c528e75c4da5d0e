------------------------------- MODULE Fitted --------------------------------
(* What can be asked from a fitted covariance estimator.  The state is the   *)
(* stored location and covariance; every query is a function of them.        *)
EXTENDS LinAlg, Sequences
VARIABLES status, loc, cov
fvars == <<status, loc, cov>>

Mean(X) == [j \in 1..NCols(X) |->
              CDiv(CSum([n \in 1..Len(X) |-> X[n][j]]), CR(RInt(Len(X))))]
Centre(X, m) == [n \in 1..Len(X) |-> [j \in 1..NCols(X) |-> CSub(X[n][j], m[j])]]
NullVec(p) == [j \in 1..p |-> CZero]
Scatter(X) == MScaleR(RFrac(1, Len(X)), WScatter([n \in 1..Len(X) |-> ROne], X))
(* the sample covariance estimator                                           *)
SampleLocation(X, centred) == IF centred THEN NullVec(NCols(X)) ELSE Mean(X)
SampleCovariance(X, centred) == Scatter(Centre(X, SampleLocation(X, centred)))
FitSample(X, centred) ==
  /\ status' = "fitted"
  /\ loc' = SampleLocation(X, centred) /\ cov' = SampleCovariance(X, centred)

SqMahalanobis(X, S, m) == QuadForms(MInv(S), Centre(X, m))
(* average Gaussian log-likelihood of X under (m, S), circular when complex   *)
GaussScore(X, S, m, field) ==
  LET p == Len(S) d == SqMahalanobis(X, S, m)
      q == RDiv(RSum(d), RInt(Len(d))) l == RLn(Re(MDet(S)))
  IN IF field = "complex" THEN RNeg(RAdd(RAdd(q, l), RMul(RInt(p), RLn(RPi))))
     ELSE RNeg(RMul(RHalf, RAdd(RAdd(q, l), RMul(RInt(p), RLn(RMul(RTwo, RPi))))))
(* Moore-Penrose conditions                                                  *)
IsPInv(S, P, tol) ==
  /\ MNear(MMul(S, MMul(P, S)), S, tol)
  /\ MNear(MMul(P, MMul(S, P)), P, tol)
  /\ IsHermitian(MMul(S, P), tol) /\ IsHermitian(MMul(P, S), tol)
IsInv(S, P, tol) == MNear(MMul(S, P), MId(Len(S)), tol)
(* the largest eigenvalue of the Hermitian matrix G is v up to tol           *)
ShiftedPSD(G, v) == IsPD(MSub(MScaleR(v, MId(Len(G))), G))
IsLargestEig(v, G, tol) ==
  IF FrobSq(G) = RZero THEN v = RZero
  ELSE LET d == RMul(tol, RAdd(RAbs(v), Frob(G)))
       IN ShiftedPSD(G, RAdd(v, d)) /\ ~ShiftedPSD(G, RSub(v, d))
(* error norms between a covariance T and the fitted one                     *)
IsErrorNorm(e, S, T, norm, scaling, squared, tol) ==
  LET D == MSub(T, S)
      q == IF scaling THEN RInt(Len(S)) ELSE ROne
      v == RMul(q, IF squared THEN e ELSE RMul(e, e))        \* unscaled squared norm
  IN /\ RLeq(RZero, e)
     /\ IF norm = "frobenius" THEN RNear(v, FrobSq(D), tol, RAdd(FrobSq(D), RPow2(-1000)))
        ELSE IsLargestEig(v, MMul(MHerm(D), D), tol)
PSD(S, tol) == IsPD(MAdd(S, MScaleR(RMul(tol, RAdd(Frob(S), RPow2(-1000))), MId(Len(S)))))
=============================================================================
