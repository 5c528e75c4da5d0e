------------------------------ MODULE Geometry ------------------------------
(* The manifolds of robuststats.models.manifolds.  A point of a matrix       *)
(* manifold is a stack (sequence) of matrices, a vector of positive numbers  *)
(* is its diagonal matrix.  The state is the current point of a walk along   *)
(* geodesics: every step leaves it in a direction given by a tangent vector. *)
EXTENDS LinAlg, Sequences
VARIABLE pt

Herm(A) == MScaleR(RHalf, MAdd(A, MHerm(A)))
ReTr(A) == Re(MTrace(A))
(* ----------------------- one matrix at a time ---------------------------- *)
Inner1(X, U, V) == LET XI == MInv(X) IN ReTr(MMul(MMul(XI, U), MMul(XI, V)))
Exp1(X, U)  == MMul(X, MExp(MMul(MInv(X), U)))
Retr1(X, U) == MAdd(X, MAdd(U, MScaleR(RHalf, MMul(U, MMul(MInv(X), U)))))
Grad1(X, G) == MMul(X, MMul(Herm(G), X))
(* covariant derivative along U of the gradient of a function whose          *)
(* Euclidean gradient at X is G and varies along U by H                      *)
Hess1(X, G, H, U) ==
  LET g == Herm(G) v == Grad1(X, G)
      dv == MAdd(MMul(U, MMul(g, X)), MAdd(MMul(X, MMul(Herm(H), X)), MMul(X, MMul(g, U))))
      XI == MInv(X)
  IN MSub(dv, MScaleR(RHalf, MAdd(MMul(U, MMul(XI, v)), MMul(v, MMul(XI, U)))))
TraceAt1(X, U) == ReTr(MMul(MInv(X), U))
SProj1(X, U) == LET h == Herm(U) IN MSub(h, MScaleR(RMul(RFrac(1, Len(X)), TraceAt1(X, h)), X))

(* ------------------------------- stacks ---------------------------------- *)
Each(f(_), X) == [k \in 1..Len(X) |-> f(X[k])]
InnerHPD(X, U, V) == RSum([k \in 1..Len(X) |-> Inner1(X[k], U[k], V[k])])
NormHPD(X, U) == RSqrt(InnerHPD(X, U, U))
ExpHPD(X, U)  == [k \in 1..Len(X) |-> Exp1(X[k], U[k])]
RetrHPD(X, U) == [k \in 1..Len(X) |-> Retr1(X[k], U[k])]
GradHPD(X, G) == [k \in 1..Len(X) |-> Grad1(X[k], G[k])]
HessHPD(X, G, H, U) == [k \in 1..Len(X) |-> Hess1(X[k], G[k], H[k], U[k])]
ProjHPD(X, U) == [k \in 1..Len(X) |-> Herm(U[k])]
ProjSHPD(X, U) == [k \in 1..Len(X) |-> SProj1(X[k], U[k])]
GradSHPD(X, G) == ProjSHPD(X, GradHPD(X, G))
Derivative(G, U) == RSum([k \in 1..Len(U) |-> ReTr(MMul(MHerm(G[k]), U[k]))])

(* ---------------------------- membership --------------------------------- *)
StackNear(A, B, tol) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : MNear(A[k], B[k], tol)
IsHPD(X, n, tol) == \A k \in 1..Len(X) : IsMat(X[k], n, n) /\ IsHermitian(X[k], tol) /\ IsPD(X[k])
UnitDet(X, tol) == \A k \in 1..Len(X) : RNear(Re(MDet(X[k])), ROne, tol, ROne) /\ RNear(Im(MDet(X[k])), RZero, tol, ROne)
IsTangent(U, n, tol) == \A k \in 1..Len(U) : IsMat(U[k], n, n) /\ IsHermitian(U[k], tol)
(* size of U seen from X, for tolerances                                     *)
Size1(X, U) == Frob(MMul(MInv(X), U))
TraceFree(X, U, tol) == \A k \in 1..Len(X) : RNear(TraceAt1(X[k], U[k]), RZero, tol, RAdd(ROne, Size1(X[k], U[k])))
(* L is the logarithm of Y at X                                              *)
IsLog(X, Y, L, n, tol) == IsTangent(L, n, tol) /\ StackNear(ExpHPD(X, L), Y, tol)

(* -------------------- metrics of product manifolds ----------------------- *)
(* Fisher metric of a centred elliptical model at M = A (x) B                *)
Fisher(alpha, M, X, Y) ==
  LET MI == MInv(M) P == MMul(MI, X) Q == MMul(MI, Y)
  IN RAdd(RMul(alpha, ReTr(MMul(P, Q))), RMul(RSub(alpha, ROne), RMul(ReTr(P), ReTr(Q))))
DKron(A, B, DA, DB) == MAdd(MKron(DA, B), MKron(A, DB))
InnerKron(alpha, A, B, U, V) ==            \* U = <<dA, dB>>
  RSum([k \in 1..Len(A) |-> Fisher(alpha, MKron(A[k], B[k]),
        DKron(A[k], B[k], U[1][k], U[2][k]), DKron(A[k], B[k], V[1][k], V[2][k]))])

Diag(x) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> IF i = j THEN CR(x[i]) ELSE CZero]]
DiagOf(M) == [i \in 1..Len(M) |-> Re(M[i][i])]

Move(u) == pt' = ExpHPD(pt, u)
=============================================================================
