--------------------------- MODULE MatrixFunctions ---------------------------
(* Functions of Hermitian matrices, vectorisation, Hermitian parts and       *)
(* Toeplitz matrices (robuststats.utils.linalg).  A walk starts from a       *)
(* positive definite matrix and applies power-like functions; its state is   *)
(* the starting matrix and the exponent reached, a fraction <<num, den>>.    *)
EXTENDS LinAlg, Sequences
VARIABLES start, expo

Herm(A) == MScaleR(RHalf, MAdd(A, MHerm(A)))
(* ------------------------------ square root ------------------------------ *)
(* Denman and Beavers: Y tends to the square root, Z to its inverse          *)
RECURSIVE Denman(_, _, _)
Denman(Y, Z, j) ==
  IF j = 0 THEN Y
  ELSE LET Y1 == MScaleR(RHalf, MAdd(Y, MInv(Z)))
           Z1 == MScaleR(RHalf, MAdd(Z, MInv(Y)))
       IN IF RLeq(Frob(MSub(Y1, Y)), RMul(RPow2(-70), Frob(Y1)))
          THEN MScaleR(RHalf, MAdd(Y1, MInv(Z1)))
          ELSE Denman(Y1, Z1, j - 1)
MSqrt(A) == Denman(A, MId(Len(A)), 60)
(* ------------------------------- logarithm ------------------------------- *)
RECURSIVE AtanhM(_, _, _, _)
AtanhM(T, Z2, j, n) ==                         \* T Z2^i / (2i + 1), i = j .. n
  IF j > n THEN MZero(Len(T), Len(T))
  ELSE MAdd(MScaleR(RFrac(1, 2 * j + 1), T), AtanhM(MMul(T, Z2), Z2, j + 1, n))
RECURSIVE MLogRoots(_, _)
MLogRoots(A, k) ==
  LET I == MId(Len(A)) D == MSub(A, I) IN
  IF RLeq(Frob(D), RPow2(-5)) \/ k = 0
  THEN LET Z == MMul(D, MInv(MAdd(A, I))) IN MScaleR(RTwo, AtanhM(Z, MMul(Z, Z), 0, 14))
  ELSE MScaleR(RTwo, MLogRoots(MSqrt(A), k - 1))
MLog(A) == MLogRoots(A, 60)
(* -------------------------------- powers --------------------------------- *)
RECURSIVE MPowN(_, _)
MPowN(A, k) == IF k = 0 THEN MId(Len(A))
               ELSE IF k % 2 = 1 THEN MMul(A, MPowN(A, k - 1))
               ELSE LET B == MPowN(A, k \div 2) IN MMul(B, B)
MPowInt(A, k) == IF k < 0 THEN MPowN(MInv(A), -k) ELSE MPowN(A, k)
MPow(A, r) == MExp(MScaleR(r, MLog(A)))        \* real exponent, A positive definite
MPowFrac(A, f) == IF f[2] = 1 THEN MPowInt(A, f[1]) ELSE MPow(A, RFrac(f[1], f[2]))

(* -------------------------- fractions of integers ------------------------ *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
FAbs(a) == IF a < 0 THEN -a ELSE a
FNorm(n, d) == LET g == Gcd(FAbs(n), d) IN <<n \div g, d \div g>>
FMul(a, b) == FNorm(a[1] * b[1], a[2] * b[2])
FAdd(a, b) == FNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
(* the functions a walk applies                                              *)
Exponent(c) == CASE c[1] = "sqrtm" -> <<1, 2>>
                 [] c[1] = "invsqrtm" -> <<-1, 2>>
                 [] c[1] = "powm" -> c[2]
                 [] c[1] = "explog" -> <<1, 1>>
Begin(A) == start' = A /\ expo' = <<1, 1>>
Apply(c) == expo' = FMul(expo, Exponent(c)) /\ UNCHANGED start

(* ----------------------------- vectorisation ----------------------------- *)
RECURSIVE Concat(_, _)
Concat(s, n) == IF n = 0 THEN <<>> ELSE Concat(s, n - 1) \o s[n]
Vec(A)  == Concat([j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> A[i][j]]], NCols(A))
Vech(A) == Concat([j \in 1..NCols(A) |-> [i \in 1..(NRows(A) - j + 1) |-> A[i + j - 1][j]]], NCols(A))
Unvec(v, k) == [i \in 1..k |-> [j \in 1..k |-> v[(j - 1) * k + i]]]
(* place of the entry (i, j), i >= j, of a k x k matrix in its half vector   *)
HalfPlace(k, i, j) == (j - 1) * k - ((j - 1) * (j - 2)) \div 2 + (i - j) + 1
Unvech(v, k) == [i \in 1..k |-> [j \in 1..k |->
                   IF i > j THEN v[HalfPlace(k, i, j)]
                   ELSE IF i < j THEN CConj(v[HalfPlace(k, j, i)])
                   ELSE CR(Re(v[HalfPlace(k, i, i)]))]]

(* ------------------------------- Toeplitz -------------------------------- *)
RECURSIVE CPowN(_, _)
CPowN(z, k) == IF k = 0 THEN COne ELSE CMul(z, CPowN(z, k - 1))
Toeplitz(rho, p) == [i \in 1..p |-> [j \in 1..p |->
                       IF i >= j THEN CPowN(rho, i - j) ELSE CConj(CPowN(rho, j - i))]]
=============================================================================
