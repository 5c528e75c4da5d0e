----------------------------- MODULE Kronecker ------------------------------
(* Estimation of a covariance A (x) B from samples that are vectorised       *)
(* (column-major) b x a matrices.  State: the current factors, and what the  *)
(* fit reports.                                                              *)
EXTENDS LinAlg, Special, Sequences
VARIABLES fac,                             \* sequence of <<A, B>> visited
          rep                              \* sequence of reported errors
kvars == <<fac, rep>>

Matricise(x, a, b) == [r \in 1..b |-> [c \in 1..a |-> x[(c - 1)*b + r]]]
Quads(A, B, X) == QuadForms(MInv(MKron(A, B)), X)
TylerCost(Q, X) ==                         \* p sum log(x^H Q^-1 x) + N log det Q
  LET t == QuadForms(MInv(Q), X)
  IN RAdd(RMul(RInt(Len(Q)), RSum([n \in 1..Len(X) |-> RLn(t[n])])),
          RMul(RInt(Len(X)), RLn(Re(MDet(Q)))))
RECURSIVE MSumTo(_, _)
MSumTo(s, n) == IF n = 1 THEN s[1] ELSE MAdd(MSumTo(s, n - 1), s[n])
MSum(s) == MSumTo(s, Len(s))
(* weighted scatter seen by one factor given the other                       *)
ScatterA(B, X, w) ==
  LET a == Len(X[1]) \div Len(B) b == Len(B) IB == MInv(B)
  IN MSum([n \in 1..Len(X) |-> LET M == Matricise(X[n], a, b)
             IN MScaleR(w[n], MTr(MMul(MHerm(M), MMul(IB, M))))])
ScatterB(A, X, w) ==
  LET a == Len(A) b == Len(X[1]) \div Len(A) IA == MTr(MInv(A))
  IN MSum([n \in 1..Len(X) |-> LET M == Matricise(X[n], a, b)
             IN MScaleR(w[n], MMul(M, MMul(IA, MHerm(M))))])
Inverses(t) == [n \in 1..Len(t) |-> RDiv(ROne, t[n])]
TargetA(A, B, X) == MScaleR(RFrac(Len(A), Len(X)), ScatterA(B, X, Inverses(Quads(A, B, X))))
TargetB(A, B, X) == MScaleR(RFrac(Len(B), Len(X)), ScatterB(A, X, Inverses(Quads(A, B, X))))
(* one MM iteration moves each factor to the geometric mean of itself and    *)
(* its target; the geometric mean G of A and T is the positive definite      *)
(* solution of  G A^-1 G = T                                                 *)
IsGeoMean(G, A, T, tol) == IsPD(G) /\ MNear(MMul(G, MMul(MInv(A), G)), T, tol)
MMStep(A, B, A2, B2, X, tol) ==
  /\ IsGeoMean(A2, A, TargetA(A, B, X), tol)
  /\ IsGeoMean(B2, B, TargetB(A2, B, X), tol)
FixedPoint(A, B, X, tol) ==
  /\ MNear(TargetA(A, B, X), A, tol) /\ MNear(TargetB(A, B, X), B, tol)

RelChange(new, old) == RDiv(Frob(MSub(new, old)), Frob(old))
Change(f, g) == RMax(RelChange(f[1], g[1]), RelChange(f[2], g[2]))

(* circular complex multivariate t likelihood                                *)
Centred(X, m) == [n \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> CSub(X[n][j], m[j])]]
LogLik(S, df, m, X) ==
  LET p == Len(S) h == RMul(RHalf, df) a == RAdd(h, RInt(p))
      t == QuadForms(MInv(S), Centred(X, m))
      c == RSub(RSub(RSub(LnGamma(a), LnGamma(h)), RMul(RInt(p), RLn(RMul(RPi, h)))),
                RLn(Re(MDet(S))))
  IN RSum([n \in 1..Len(X) |-> RSub(c, RMul(a, RLn(RAdd(ROne, RDiv(t[n], h)))))])
(* directional derivative of the negative log-likelihood by a difference     *)
(* quotient (the arithmetic has 160 bits)                                    *)
H0 == RPow2(-40)
NegLogLik(A, B, df, m, X) == RNeg(LogLik(MKron(A, B), df, m, X))
DirDeriv(A, B, DA, DB, df, m, X) ==
  RDiv(RSub(NegLogLik(MAdd(A, MScaleR(H0, DA)), MAdd(B, MScaleR(H0, DB)), df, m, X),
            NegLogLik(MSub(A, MScaleR(H0, DA)), MSub(B, MScaleR(H0, DB)), df, m, X)),
       RMul(RTwo, H0))
RInner(G, D) == Re(MTrace(MMul(MHerm(G), D)))      \* Re tr(G^H D)
Unit(p, i, j, z) ==                                \* Hermitian direction
  [a \in 1..p |-> [b \in 1..p |->
     CAdd(IF a = i /\ b = j THEN z ELSE CZero, IF a = j /\ b = i THEN CConj(z) ELSE CZero)]]
=============================================================================
