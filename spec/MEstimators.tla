---------------------------- MODULE MEstimators -----------------------------
(* The recursions of Tyler, Student-t and Huber M-estimation, real and       *)
(* complex.  A problem is                                                    *)
(*   [est |-> "tyler" | "student" | "huber", field |-> "real" | "complex",   *)
(*    X |-> samples as rows, df, lambda, beta].                              *)
EXTENDS LinAlg, Special

Dim(pr) == NCols(pr.X)
NSamples(pr) == Len(pr.X)
RealField(pr) == pr.field = "real"

(* the weight u(t) of a sample with t = x^H S^-1 x                           *)
Weight(pr, t) ==
  CASE pr.est = "tyler"   -> RDiv(RInt(Dim(pr)), t)
    [] pr.est = "student" ->
         IF RealField(pr) THEN RDiv(RAdd(pr.df, RInt(Dim(pr))), RAdd(pr.df, t))
         ELSE RDiv(RAdd(RMul(RHalf, pr.df), RInt(Dim(pr))), RAdd(RMul(RHalf, pr.df), t))
    [] pr.est = "huber"   -> RDiv(RMin(ROne, RDiv(pr.lambda, t)), pr.beta)
(* sup over t of u(t) t: a single sample can be moved to infinity without     *)
(* taking the estimate along when there are more samples than this            *)
MaxInfluence(pr) ==
  CASE pr.est = "tyler"   -> RInt(Dim(pr))
    [] pr.est = "student" -> RAdd(IF RealField(pr) THEN pr.df ELSE RMul(RHalf, pr.df), RInt(Dim(pr)))
    [] pr.est = "huber"   -> RDiv(pr.lambda, pr.beta)
WeightedScatter(pr, S) ==
  LET t == QuadForms(MInv(S), pr.X)
  IN MScaleR(RFrac(1, NSamples(pr)), WScatter([n \in 1..Len(t) |-> Weight(pr, t[n])], pr.X))
SampleCov(X) == MScaleR(RFrac(1, Len(X)), WScatter([n \in 1..Len(X) |-> ROne], X))
RelChange(new, old) == RDiv(Frob(MSub(new, old)), Frob(old))

(* Huber constants: the chi-square law of the squared Mahalanobis distances  *)
(* of Gaussian data (halved in the complex case) is cut at its q-quantile,   *)
(* and beta makes the estimate consistent for Gaussian data                  *)
HuberConstants(pr, q, tol) ==
  LET p == Dim(pr)
      k == IF RealField(pr) THEN p ELSE 2 * p
      y == IF RealField(pr) THEN pr.lambda ELSE RMul(RTwo, pr.lambda)
  IN /\ RClose(ChiCdf(y, k), q, tol)
     /\ RClose(pr.beta, RAdd(ChiCdf(y, k + 2),
                             RMul(pr.lambda, RDiv(RSub(ROne, q), RInt(p)))), tol)

(* log-density at x of the centred multivariate t law, from t = x^H S^-1 x   *)
StudentLogLik(pr, S, X) ==
  LET p == NCols(X)
      d == pr.df
      t == QuadForms(MInv(S), X)
      h == RMul(RHalf, d)
      a == IF RealField(pr) THEN RAdd(h, RFrac(p, 2)) ELSE RAdd(h, RInt(p))
      c == RSub(LnGamma(a), LnGamma(h))
      norm == IF RealField(pr)
              THEN RSub(c, RMul(RFrac(p, 2), RLn(RMul(RPi, d))))
              ELSE RSub(c, RMul(RInt(p), RLn(RMul(RPi, h))))
      ld == RLn(Re(MDet(S)))
      perobs == RSub(norm, IF RealField(pr) THEN RMul(RHalf, ld) ELSE ld)
      scale == IF RealField(pr) THEN d ELSE h
  IN RSum([n \in 1..Len(X) |->
       RSub(perobs, RMul(a, RLn(RAdd(ROne, RDiv(t[n], scale)))))])

(* normalisation of shape matrices                                           *)
Constraint(kind, S, tol) ==
  CASE kind = "trace"       -> RClose(Re(MTrace(S)), RInt(Len(S)), tol)
    [] kind = "determinant" -> RClose(Re(MDet(S)), ROne, tol)
    [] kind = "element"     -> RClose(Re(S[1][1]), ROne, tol) /\ RClose(Im(S[1][1]), RZero, tol)
    [] OTHER                -> TRUE
(* S is c times T for one c > 0                                              *)
PositiveMultiple(S, T, tol) ==
  LET c == RDiv(Re(MTrace(S)), Re(MTrace(T)))
  IN RLt(RZero, c) /\ MNear(S, MScaleR(c, T), tol)
ShapeNear(S, T, tol) == PositiveMultiple(S, T, tol)
Congruence(A, S) == MMul(A, MMul(S, MHerm(A)))
Elementary(p, i, j, z) ==               \* I + z e_i e_j^T
  [a \in 1..p |-> [b \in 1..p |->
     CAdd(IF a = b THEN COne ELSE CZero, IF a = i /\ b = j THEN z ELSE CZero)]]
=============================================================================
