------------------------------ MODULE Special -------------------------------
(* Special functions over the reals of Real.tla.                             *)
EXTENDS Real

Bernoulli == << <<1,6>>, <<-1,30>>, <<1,42>>, <<-1,30>>, <<5,66>>, <<-691,2730>>,
                <<7,6>>, <<-3617,510>>, <<43867,798>>, <<-174611,330>> >>
RECURSIVE StirlingTail(_, _, _, _)
StirlingTail(ip, ip2, k, n) ==             \* ip = y^-(2k-1)
  IF k > n THEN RZero
  ELSE RAdd(RMul(RFrac(Bernoulli[k][1], Bernoulli[k][2] * (2*k) * (2*k - 1)), ip),
            StirlingTail(RMul(ip, ip2), ip2, k + 1, n))
Stirling(y) ==
  LET i == RDiv(ROne, y)
  IN RAdd(RSub(RMul(RSub(y, RHalf), RLn(y)), y),
          RAdd(RMul(RHalf, RLn(RMul(RTwo, RPi))), StirlingTail(i, RMul(i, i), 1, 10)))
RECURSIVE RRising(_, _)
RRising(x, n) == IF n = 0 THEN ROne ELSE RMul(RAdd(x, RInt(n - 1)), RRising(x, n - 1))
LnGamma(x) == RSub(Stirling(RAdd(x, RInt(30))), RLn(RRising(x, 30)))     \* x > 0

(* distribution function of the chi-square law with k degrees of freedom     *)
RECURSIVE ChiTerms(_, _, _, _)
ChiTerms(t, y, a, n) ==
  IF n = 0 THEN t ELSE RAdd(t, ChiTerms(RDiv(RMul(t, y), RAdd(a, ROne)), y, RAdd(a, ROne), n - 1))
ChiCdf(x, k) ==
  IF ~RLt(RZero, x) THEN RZero
  ELSE LET y == RMul(RHalf, x) a == RFrac(k, 2)
           t0 == RExp(RSub(RSub(RMul(a, RLn(y)), y), LnGamma(RAdd(a, ROne))))
       IN ChiTerms(t0, y, a, 220)
=============================================================================
