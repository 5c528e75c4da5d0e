------------------------------ MODULE Convert -------------------------------
(* Values the user holds and the conversions between complex data and their  *)
(* real equivalents (robuststats.models.mappings).  A value is               *)
(*   [kind |-> "complex" | "real" | "int" | ..., shape |-> <<n1, ..>>,       *)
(*    v |-> entries in row-major order as complex numbers].                  *)
EXTENDS LinAlg, Sequences

VARIABLE held                              \* every value obtained so far, oldest first

Reject == [kind |-> "reject", shape |-> <<>>, v |-> <<>>]
Prod(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1]
           ELSE IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
Complex(x) == x.kind = "complex"
NDim(x) == Len(x.shape)
Mk(k, s, v) == [kind |-> k, shape |-> s, v |-> v]

(* samples: n rows of p complex entries <-> n rows of p real then p imaginary parts *)
VecToReal(x) ==
  IF ~Complex(x) THEN x
  ELSE IF NDim(x) \notin {1, 2} THEN Reject
  ELSE LET p == x.shape[NDim(x)]
           s == [x.shape EXCEPT ![NDim(x)] = 2 * p]
       IN Mk("real", s, [k \in 1..Prod(s) |->
            LET i == (k - 1) \div (2*p) j == (k - 1) % (2*p)
            IN IF j < p THEN CR(Re(x.v[i*p + j + 1])) ELSE CR(Im(x.v[i*p + (j - p) + 1]))])
VecToComplex(x) ==
  IF Complex(x) THEN x
  ELSE IF NDim(x) \notin {1, 2} THEN Reject
  ELSE IF x.shape[NDim(x)] % 2 = 1 THEN Reject
  ELSE LET p == x.shape[NDim(x)] \div 2
           s == [x.shape EXCEPT ![NDim(x)] = p]
       IN Mk("complex", s, [k \in 1..Prod(s) |->
            LET i == (k - 1) \div p j == (k - 1) % p
            IN <<Re(x.v[i*2*p + j + 1]), Re(x.v[i*2*p + p + j + 1])>>])

(* matrices and stacks of matrices                                           *)
Square(x) == x.shape[NDim(x)] = x.shape[NDim(x) - 1]
(* infinite and undefined parts are data too: they stay what they are        *)
Half(r) == IF RFinite(r) THEN RMul(RHalf, r) ELSE r
Twice(r) == IF RFinite(r) THEN RMul(RTwo, r) ELSE r
Opposite(r) == IF RFinite(r) THEN RNeg(r) ELSE IF r = RPosInf THEN RNegInf ELSE IF r = RNegInf THEN RPosInf ELSE r
BlocksToReal(x) ==
  LET d == NDim(x) p == x.shape[d] q == 2 * p
      s == [i \in 1..d |-> IF i < d - 1 THEN x.shape[i] ELSE q]
  IN Mk("real", s, [k \in 1..Prod(s) |->
       LET b == (k - 1) \div (q*q) r == (k - 1) % (q*q) i == r \div q j == r % q
           z == x.v[b*p*p + (i % p)*p + (j % p) + 1]
       IN CR(Half(IF (i < p) = (j < p) THEN Re(z)
                  ELSE IF i < p THEN Opposite(Im(z)) ELSE Im(z)))])
BlocksToComplex(x) ==
  LET d == NDim(x) q == x.shape[d] p == q \div 2
      s == [i \in 1..d |-> IF i < d - 1 THEN x.shape[i] ELSE p]
  IN Mk("complex", s, [k \in 1..Prod(s) |->
       LET b == (k - 1) \div (p*p) r == (k - 1) % (p*p) i == r \div p j == r % p
       IN <<Twice(Re(x.v[b*q*q + i*q + j + 1])), Twice(Re(x.v[b*q*q + (p + i)*q + j + 1]))>>])
CovToReal(x) == IF ~Complex(x) THEN x
                ELSE IF NDim(x) # 2 THEN Reject ELSE IF ~Square(x) THEN Reject
                ELSE BlocksToReal(x)
CovToComplex(x) == IF Complex(x) THEN x
                   ELSE IF NDim(x) # 2 THEN Reject ELSE IF ~Square(x) THEN Reject
                   ELSE IF x.shape[2] % 2 = 1 THEN Reject ELSE BlocksToComplex(x)
CovsToReal(x) == IF ~Complex(x) THEN x
                 ELSE IF NDim(x) # 3 THEN Reject ELSE IF ~Square(x) THEN Reject
                 ELSE BlocksToReal(x)
CovsToComplex(x) == IF Complex(x) THEN x
                    ELSE IF NDim(x) # 3 THEN Reject ELSE IF ~Square(x) THEN Reject
                    ELSE IF x.shape[3] % 2 = 1 THEN Reject ELSE BlocksToComplex(x)

Ops == {"arraytoreal", "arraytocomplex", "covariancetoreal", "covariancetocomplex",
        "covariancestoreal", "covariancestocomplex"}
Result(op, x) ==
  CASE op = "arraytoreal"          -> VecToReal(x)
    [] op = "arraytocomplex"       -> VecToComplex(x)
    [] op = "covariancetoreal"     -> CovToReal(x)
    [] op = "covariancetocomplex"  -> CovToComplex(x)
    [] op = "covariancestoreal"    -> CovsToReal(x)
    [] op = "covariancestocomplex" -> CovsToComplex(x)

(* The user converts a held value.  Nothing held before changes; a rejected  *)
(* conversion yields nothing.                                                *)
Convert(op, i) ==
  LET r == Result(op, held[i])
  IN held' = IF r = Reject THEN held ELSE Append(held, r)

(* ------------------------- properties of the design ---------------------- *)
Pair == [arraytoreal |-> "arraytocomplex", covariancetoreal |-> "covariancetocomplex",
         covariancestoreal |-> "covariancestocomplex"]
ToMat(x) == [i \in 1..x.shape[1] |-> [j \in 1..x.shape[2] |-> x.v[(i-1)*x.shape[2] + j]]]
FromMat(k, A) == Mk(k, <<Len(A), Len(A[1])>>,
                    [n \in 1..(Len(A)*Len(A[1])) |-> A[((n-1) \div Len(A[1])) + 1][((n-1) % Len(A[1])) + 1]])
Sum(x, y) == Mk(x.kind, x.shape, [k \in 1..Len(x.v) |-> CAdd(x.v[k], y.v[k])])
RoundTrip ==                       \* complex -> real -> complex is the identity
  \A i \in 1..Len(held) : \A op \in DOMAIN Pair :
    LET x == held[i] r == Result(op, x)
    IN Complex(x) /\ r # Reject => Result(Pair[op], r) = x
Additive ==
  \A i, j \in 1..Len(held) : \A op \in DOMAIN Pair :
    LET x == held[i] y == held[j]
    IN Complex(x) /\ Complex(y) /\ x.shape = y.shape /\ Result(op, x) # Reject
       => Result(op, Sum(x, y)) = Sum(Result(op, x), Result(op, y))
Transposes ==
  \A i \in 1..Len(held) : LET x == held[i] IN
    Complex(x) /\ NDim(x) = 2 /\ Square(x) =>
      ToMat(CovToReal(FromMat("complex", MHerm(ToMat(x))))) = MTr(ToMat(CovToReal(x)))
Positive ==
  \A i \in 1..Len(held) : LET x == held[i] IN
    Complex(x) /\ NDim(x) = 2 /\ Square(x) =>
      (ToMat(x) = MHerm(ToMat(x)) => (IsPD(ToMat(x)) <=> IsPD(ToMat(CovToReal(x)))))
AppendOnly == Len(held) <= Len(held') /\ \A i \in 1..Len(held) : held'[i] = held[i]
=============================================================================
