----------------------------- MODULE Generators ------------------------------
(* The synthetic data generators (robuststats.utils.generation_data).  All   *)
(* of them consume one random stream.  `used` counts the standard draws      *)
(* (blocks of one standard matrix) consumed since the stream was seeded, and *)
(* `owner` says which call each of them served.                              *)
EXTENDS MatrixFunctions
VARIABLES used, owner
gvars == <<used, owner>>

Sampling == {"std", "normal", "compound", "lowrank"}
Building == {"cov", "frame", "gamma", "lognormal"}
Blocks(c) == IF c.f = "lowrank" THEN 2 ELSE 1      \* standard matrices a call needs
Consume(c, id) == /\ used' = used + Blocks(c)
                  /\ owner' = owner \o [j \in 1..Blocks(c) |-> id]
Refuse == UNCHANGED gvars

(* ------------------------------- the models ------------------------------ *)
ScaleCols(t, X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> CMul(CR(RSqrt(t[j])), X[i][j])]]
Coloured(S, Zs)     == MMul(MSqrt(S), Zs)
Compound(t, S, Zs)  == ScaleCols(t, Coloured(S, Zs))
LowRank(t, U, Zk, Zp) == MAdd(ScaleCols(t, MMul(U, Zk)), Zp)

(* -------------------------------- matrices ------------------------------- *)
Orthonormal(Q, tol) == MNearAbs(MMul(MHerm(Q), Q), MId(NCols(Q)), tol)
UnitDet(S, tol) == RNear(Re(MDet(S)), ROne, tol, ROne) /\ RNear(Im(MDet(S)), RZero, tol, ROne)
Normalised(S) == MScaleR(RExp(RNeg(RDiv(RLn(Re(MDet(S))), RInt(Len(S))))), S)

(* ------------------------- moments of a sample --------------------------- *)
(* X: one column per sample                                                  *)
RowMoment(X, i, j) == MScaleR(RFrac(1, NCols(X)), <<<<CConj(VDot(X[i], X[j]))>>>>)[1][1]       \* mean of x_i conj x_j
RowPseudo(X, i, j) == MScaleR(RFrac(1, NCols(X)), <<<<VDot([k \in 1..NCols(X) |-> CConj(X[i][k])], X[j])>>>>)[1][1]
RowMean(X, i) == MScaleR(RFrac(1, NCols(X)), <<<<CSum(X[i])>>>>)[1][1]
RowLag(X, i)  == LET n == NCols(X) - 1 IN
                 MScaleR(RFrac(1, n), <<<<VDot(SubSeq(X[i], 1, n), SubSeq(X[i], 2, n + 1))>>>>)[1][1]
Within(z, w, tol) == RLeq(CAbs2(CSub(z, w)), RSq(tol))
=============================================================================
