-------------------------------- MODULE Laws --------------------------------
(* The (complex) multivariate normal and Student-t laws of                   *)
(* robuststats.models.probability: densities in closed form, the rules that  *)
(* reconcile real and complex arguments, and sampling as a function of the   *)
(* seed.  A law is [fam |-> "normal" | "t", df, m, S, complex] with df = +inf *)
(* allowed.                                                                  *)
EXTENDS LinAlg, Special, Sequences
VARIABLE drawn                             \* (seed, size) -> sample, for seeds used so far

Centre(X, m) == [n \in 1..Len(X) |-> [j \in 1..Len(m) |-> CSub(X[n][j], m[j])]]
LnDet(S) == RLn(Re(MDet(S)))
LogNormalC(q, p, S) == RNeg(RAdd(RAdd(RMul(RInt(p), RLn(RPi)), LnDet(S)), q))
LogNormalR(q, p, S) == RNeg(RMul(RHalf, RAdd(RAdd(RMul(RInt(p), RLn(RMul(RTwo, RPi))), LnDet(S)), q)))
LogTC(q, p, S, d) ==
  LET h == RMul(RHalf, d) a == RAdd(h, RInt(p))
  IN RSub(RSub(RSub(RSub(LnGamma(a), LnGamma(h)), RMul(RInt(p), RLn(RMul(RPi, h)))), LnDet(S)),
          RMul(a, RLn(RAdd(ROne, RDiv(q, h)))))
LogTR(q, p, S, d) ==
  LET h == RMul(RHalf, d) a == RMul(RHalf, RAdd(d, RInt(p)))
  IN RSub(RSub(RSub(RSub(LnGamma(a), LnGamma(h)), RMul(RFrac(p, 2), RLn(RMul(RPi, d)))),
               RMul(RHalf, LnDet(S))),
          RMul(a, RLn(RAdd(ROne, RDiv(q, d)))))
LogDensityAt(law, q) ==
  LET p == Len(law.S) normal == law.fam = "normal" \/ law.df = RPosInf
  IN IF law.complex THEN IF normal THEN LogNormalC(q, p, law.S) ELSE LogTC(q, p, law.S, law.df)
                    ELSE IF normal THEN LogNormalR(q, p, law.S) ELSE LogTR(q, p, law.S, law.df)
(* what a point means to a law: real laws look at real parts only            *)
Effective(law, X) == IF law.complex THEN X
                     ELSE [n \in 1..Len(X) |-> [j \in 1..Len(X[n]) |-> CR(Re(X[n][j]))]]
LogDensity(law, X) ==
  LET q == QuadForms(MInv(law.S), Centre(Effective(law, X), law.m))
  IN [n \in 1..Len(X) |-> LogDensityAt(law, q[n])]
(* differential entropies                                                    *)
Digamma(x) == RDiv(RSub(LnGamma(RAdd(x, RPow2(-40))), LnGamma(RSub(x, RPow2(-40)))), RPow2(-39))
Entropy(law) ==
  LET p == Len(law.S) n == IF law.complex THEN 2 * p ELSE p      \* real dimensions
      half == IF law.complex THEN RSub(LnDet(law.S), RMul(RInt(p), RLn(RTwo))) ELSE RMul(RHalf, LnDet(law.S))
      h == RMul(RHalf, law.df) a == RMul(RHalf, RAdd(law.df, RInt(n)))
  IN IF law.fam = "normal"
     THEN RAdd(half, RMul(RFrac(n, 2), RAdd(ROne, RLn(RMul(RTwo, RPi)))))
     ELSE RAdd(RAdd(half, RAdd(RSub(LnGamma(h), LnGamma(a)), RMul(RFrac(n, 2), RLn(RMul(RPi, law.df))))),
               RMul(a, RSub(Digamma(a), Digamma(h))))
(* distribution function: the probability that every real part, and for      *)
(* complex laws every imaginary part, is at most that of the point; a        *)
(* product of normal ones when the scale matrix is diagonal                  *)
Phi(x) == LET c == RMul(RHalf, ChiCdf(RSq(x), 1)) IN IF RLt(x, RZero) THEN RSub(RHalf, c) ELSE RAdd(RHalf, c)
RECURSIVE RProd(_, _)
RProd(s, i) == IF i > Len(s) THEN ROne ELSE RMul(s[i], RProd(s, i + 1))
IsDiagonal(S) == \A i, j \in 1..Len(S) : i # j => S[i][j] = CZero
NormalCdf(law, X) ==                       \* for a diagonal scale matrix
  LET D == Centre(Effective(law, X), law.m) p == Len(law.S)
      sd(j) == RSqrt(IF law.complex THEN RMul(RHalf, Re(law.S[j][j])) ELSE Re(law.S[j][j]))
  IN [n \in 1..Len(X) |->
       RMul(RProd([j \in 1..p |-> Phi(RDiv(Re(D[n][j]), sd(j)))], 1),
            IF law.complex THEN RProd([j \in 1..p |-> Phi(RDiv(Im(D[n][j]), sd(j)))], 1) ELSE ROne)]
Mismatch(law, dataComplex) == law.complex # dataComplex

(* ------------------------------- sampling -------------------------------- *)
Known(key) == key \in DOMAIN drawn
Drawn(key) == drawn[key]
Draw(key, v) == drawn' = IF Known(key) THEN drawn ELSE [k \in DOMAIN drawn \cup {key} |-> IF k = key THEN v ELSE drawn[k]]
Mean(X) == [j \in 1..Len(X[1]) |-> MScaleR(RFrac(1, Len(X)), <<<<CSum([n \in 1..Len(X) |-> X[n][j]])>>>>)[1][1]]
Ones(n) == [i \in 1..n |-> RFrac(1, n)]
Covariance(X, m) == WScatter(Ones(Len(X)), Centre(X, m))
ConjEach(X) == [n \in 1..Len(X) |-> [j \in 1..Len(X[n]) |-> CConj(X[n][j])]]
(* E (x-m)(x-m)^T, from E (x-m)(y)^H with y the conjugate deviations: the    *)
(* scatter of (d; conj d) has it as its upper right block                    *)
Doubled(X, m) == LET D == Centre(X, m) IN [n \in 1..Len(X) |-> D[n] \o [j \in 1..Len(D[n]) |-> CConj(D[n][j])]]
PseudoCovariance(X, m) ==
  LET W == WScatter(Ones(Len(X)), Doubled(X, m)) p == Len(m)
  IN [i \in 1..p |-> [j \in 1..p |-> W[i][p + j]]]
SecondMoment(law) ==                       \* covariance of the law (df > 2)
  IF law.fam = "normal" THEN law.S ELSE MScaleR(RDiv(law.df, RSub(law.df, RTwo)), law.S)
=============================================================================
