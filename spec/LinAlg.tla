------------------------------- MODULE LinAlg -------------------------------
(* Complex vectors and matrices over the reals of Real.tla.  A complex      *)
(* number is <<re, im>>, a vector a tuple of complex numbers, a matrix a    *)
(* tuple of rows.  Real data have imaginary part <<0>>.                     *)
EXTENDS Real

CZero == <<RZero, RZero>>
COne  == <<ROne, RZero>>
CR(x) == <<x, RZero>>
Re(z) == z[1]
Im(z) == z[2]
CConj(z)   == <<z[1], RNeg(z[2])>>
CNeg(z)    == <<RNeg(z[1]), RNeg(z[2])>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])),
                RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CAbs2(a)   == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CDiv(a, b) == LET n == CMul(a, CConj(b)) d == CAbs2(b)
              IN <<RDiv(n[1], d), RDiv(n[2], d)>>
CAbs(a)    == RSqrt(CAbs2(a))

RECURSIVE CSumTo(_, _)
CSumTo(s, n) == IF n = 0 THEN CZero ELSE CAdd(CSumTo(s, n - 1), s[n])
CSum(s) == CSumTo(s, Len(s))

NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
IsMat(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
IsSquare(A) == IsMat(A, Len(A), Len(A))

MTr(A)    == [j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> A[i][j]]]
MHerm(A)  == [j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> CConj(A[i][j])]]
MConj(A)  == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CConj(A[i][j])]]
MId(n)    == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN COne ELSE CZero]]
MZero(n, m) == [i \in 1..n |-> [j \in 1..m |-> CZero]]
MAdd(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CAdd(A[i][j], B[i][j])]]
MScale(c, A) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> CMul(c, A[i][j])]]
MScaleR(r, A) == MScale(CR(r), A)
MSub(A, B) == MAdd(A, MScale(CNeg(COne), B))
MMul(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(B) |->
                 CSum([k \in 1..NRows(B) |-> CMul(A[i][k], B[k][j])])]]
MTrace(A) == CSum([i \in 1..Len(A) |-> A[i][i]])
VDot(u, v) == CSum([i \in 1..Len(u) |-> CMul(CConj(u[i]), v[i])])
VScale(c, v) == [i \in 1..Len(v) |-> CMul(c, v[i])]
VAdd(u, v) == [i \in 1..Len(v) |-> CAdd(u[i], v[i])]

Minor(A, r, c) ==
  [i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |->
      A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE MDetDef(_)
MDetDef(A) ==
  IF Len(A) = 0 THEN COne
  ELSE IF Len(A) = 1 THEN A[1][1]
  ELSE CSum([j \in 1..Len(A) |->
          CMul(IF j % 2 = 1 THEN A[1][j] ELSE CNeg(A[1][j]), MDetDef(Minor(A, 1, j)))])
MInvDef(A) ==
  LET d == MDetDef(A)
  IN [i \in 1..Len(A) |-> [j \in 1..Len(A) |->
        CDiv(IF (i + j) % 2 = 0 THEN MDetDef(Minor(A, j, i))
                                ELSE CNeg(MDetDef(Minor(A, j, i))), d)]]
MDet(A) == MDetDef(A)
MInv(A) == LET d == MDetDef(A) IN
  IF CAbs2(d) = RZero \/ ~RFinite(CAbs2(d))
  THEN [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> <<RNaN, RNaN>>]] ELSE MInvDef(A)

MKron(A, B) ==
  LET p == Len(B) q == NCols(B)
  IN [i \in 1..(Len(A) * p) |-> [j \in 1..(NCols(A) * q) |->
       CMul(A[((i-1) \div p) + 1][((j-1) \div q) + 1],
            B[((i-1) % p) + 1][((j-1) % q) + 1])]]

FrobSqDef(A) == RSum([i \in 1..NRows(A) |-> RSum([j \in 1..NCols(A) |-> CAbs2(A[i][j])])])
FrobSq(A) == FrobSqDef(A)
Frob(A) == RSqrt(FrobSq(A))

(* Re(x^H Q x) for each row x of X                                          *)
QuadFormsDef(Q, X) ==
  [n \in 1..Len(X) |->
     Re(CSum([i \in 1..Len(Q) |->
        CMul(CConj(X[n][i]), CSum([j \in 1..Len(Q) |-> CMul(Q[i][j], X[n][j])]))]))]
QuadForms(Q, X) == QuadFormsDef(Q, X)
(* sum over rows x_n of X of  w_n x_n x_n^H                                 *)
WScatterDef(w, X) ==
  [i \in 1..NCols(X) |-> [j \in 1..NCols(X) |->
     CSum([n \in 1..Len(X) |-> MScaleR(w[n], <<<<CMul(X[n][i], CConj(X[n][j]))>>>>)[1][1]])]]
WScatter(w, X) == WScatterDef(w, X)

(* ----------------------------- predicates -------------------------------- *)
(* Frobenius distance at most tol times the size of B                        *)
MNear(A, B, tol) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
  /\ RLeq(Frob(MSub(A, B)), RMul(tol, Frob(B)))
MNearAbs(A, B, tol) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
  /\ RLeq(Frob(MSub(A, B)), tol)
IsReal(A) == \A i \in 1..NRows(A) : \A j \in 1..NCols(A) : A[i][j][2] = RZero
IsHermitian(A, tol) == IsSquare(A) /\ RLeq(Frob(MSub(A, MHerm(A))), RMul(tol, Frob(A)))
(* positive definiteness by elimination: every pivot of the Hermitian part   *)
(* exceeds  rel * (that diagonal entry)                                      *)
RECURSIVE PivotsOK(_, _)
PivotsOK(A, rel) ==
  IF Len(A) = 0 THEN TRUE
  ELSE LET d == Re(A[1][1]) IN
       IF ~RLt(RZero, d) THEN FALSE
       ELSE PivotsOK([i \in 1..(Len(A)-1) |-> [j \in 1..(Len(A)-1) |->
               CSub(A[i+1][j+1], CDiv(CMul(A[i+1][1], A[1][j+1]), CR(d)))]], rel)
IsPD(A) == IsSquare(A) /\ PivotsOK(MScaleR(RHalf, MAdd(A, MHerm(A))), RZero)

(* matrix exponential: Taylor series on A/2^s followed by s squarings        *)
RECURSIVE MExpTerms(_, _, _, _)
MExpTerms(T, A, j, n) ==
  IF j > n THEN MZero(Len(A), Len(A))
  ELSE LET U == MScaleR(RFrac(1, j), MMul(T, A)) IN MAdd(U, MExpTerms(U, A, j + 1, n))
RECURSIVE MSqTimes(_, _)
MSqTimes(A, s) == IF s = 0 THEN A ELSE MSqTimes(MMul(A, A), s - 1)
MExp(A) ==
  LET f == Frob(A)
      s == IF f = RZero THEN 0 ELSE LET k == Log2Floor(f) + 5 IN IF k < 0 THEN 0 ELSE k
      B == MScaleR(RPow2(-s), A)
  IN MSqTimes(MAdd(MId(Len(A)), MExpTerms(MId(Len(A)), B, 1, 22)), s)
=============================================================================
