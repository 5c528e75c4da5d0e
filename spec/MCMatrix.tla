------------------------------ MODULE MCMatrix -------------------------------
(* All walks up to a depth from small positive definite matrices, and the    *)
(* laws of the matrix functions on every state reached; the half vectors of  *)
(* all small matrices.                                                       *)
EXTENDS MatrixFunctions, TLC, Json, FiniteSets
CONSTANTS Depth, Powers, Emitting
VARIABLES hist
vars == <<start, expo, hist>>
C(a, b) == <<RInt(a), RInt(b)>>
M2(a, d, x, y) == << <<C(a, 0), C(x, -y)>>, <<C(x, y), C(d, 0)>> >>
Starts == { M2(a, d, x, y) : a \in {1, 3}, d \in {2, 5}, x \in {-1, 0, 1}, y \in {0, 1} }
Positive == {A \in Starts : IsPD(A)}
M3 == << <<C(4, 0), C(1, 1), C(0, -1)>>, <<C(1, -1), C(3, 0), C(1, 0)>>, <<C(0, 1), C(1, 0), C(2, 0)>> >>
Init == start \in Positive \cup {M3} /\ expo = <<1, 1>> /\ hist = <<>>
PowersDef == {<<1, 3>>, <<-3, 2>>, <<2, 1>>, <<-1, 1>>, <<3, 4>>}
Small(f) == FAbs(f[1]) <= 4 * f[2] /\ f[2] <= 64
Calls == {<<"sqrtm">>, <<"invsqrtm">>, <<"explog">>} \cup {<<"powm", f>> : f \in Powers}
Step == /\ Len(hist) < Depth
        /\ \E c \in Calls : Apply(c) /\ Small(expo') /\ hist' = Append(hist, c)
Emit == /\ Emitting /\ Len(hist) = Depth
        /\ PrintT("RSV " \o ToJson([calls |-> hist])) /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<start, expo>>
Seen == <<start, expo>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

tol == RPow2(-100)
cur == MPowFrac(start, expo)
S == MSqrt(cur)
L == MLog(cur)
FunctionLaws ==
  /\ IsHermitian(cur, tol) /\ IsPD(cur)
  /\ MNear(MMul(S, S), cur, tol) /\ IsPD(S)
  /\ MNear(MMul(MInv(S), MMul(cur, MInv(S))), MId(Len(cur)), tol)
  /\ MNear(MExp(L), cur, tol) /\ IsHermitian(L, tol)
  /\ MNearAbs(L, MScaleR(RFrac(expo[1], expo[2]), MLog(start)), tol)
  /\ MNear(MPowFrac(cur, <<-1, 1>>), MPow(cur, RInt(-1)), tol)
  /\ MNear(MMul(MPow(start, RHalf), cur), MPowFrac(start, FAdd(expo, <<1, 2>>)), tol)
(* the walk reaches the same matrix by any route                             *)
RouteIndependent ==
  \A f \in {<<1, 2>>, <<-3, 2>>, <<2, 1>>} : MNear(MPowFrac(cur, f), MPowFrac(start, FMul(expo, f)), tol)

(* ------------------------- vectorisation, Toeplitz ----------------------- *)
Vals == {C(0, 0), C(1, 0), C(2, 1), C(-1, 3)}
Vecs(n) == [1..n -> Vals]
ASSUME \A k \in 1..2 : \A v \in Vecs(k * k) : Vec(Unvec(v, k)) = v
ASSUME \A k \in 1..2 : \A v \in Vecs(k * k) : LET A == Unvec(v, k) IN Unvec(Vec(A), k) = A /\ MHerm(MHerm(A)) = A
RealDiag(v, k) == \A i \in 1..k : Im(v[HalfPlace(k, i, i)]) = RZero
ASSUME \A k \in 1..3 : \A v \in Vecs((k * (k + 1)) \div 2) :
         LET A == Unvech(v, k) IN /\ MHerm(A) = A
                                  /\ RealDiag(v, k) => Vech(A) = v
                                  /\ Unvech(Vech(A), k) = A
                                  /\ Len(Vech(A)) = Len(v)
ASSUME \A z \in Vals : \A p \in 1..4 : LET T == Toeplitz(z, p) IN
         MHerm(T) = T /\ \A i \in 1..p, j \in 1..p : i < p /\ j < p => T[i][j] = T[i + 1][j + 1]
ASSUME \A v \in Vecs(4) : LET A == Unvec(v, 2) IN IsHermitian(Herm(A), RZero) /\ Herm(Herm(A)) = Herm(A)
=============================================================================
