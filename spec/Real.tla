-------------------------------- MODULE Real --------------------------------
(* Dyadic real numbers of bounded precision.                                *)
(*                                                                          *)
(* A number is a tuple  <<e, m1, ..., mk>>  standing for                    *)
(*      (m1 + m2*2^30 + m3*2^60 + ...) * 2^e                                *)
(* with an odd mantissa whose limbs all carry the sign, |mi| < 2^30; zero   *)
(* is <<0>>.  <<>> is the undefined number (NaN), <<1>> and <<-1>> are the  *)
(* infinities: arithmetic on them is undefined and comparisons with them    *)
(* are false, so every operator is total and a clause about an ill-defined  *)
(* observation is simply not satisfied.  Every IEEE-754 double is represented exactly (two limbs), so  *)
(* values recorded from the implementation enter the specification without  *)
(* rounding.  Operators round toward zero to Prec = 160 significant bits.   *)
(*                                                                          *)
(* Operators whose name ends in Def are the definitions.  TLC evaluates the *)
(* undecorated operators through a Java override (java/rsv/Kernel.java) as  *)
(* it does for the standard modules Integers and Reals; SelfCheck.tla       *)
(* checks the override against the definitions.                             *)
EXTENDS Integers, Sequences

LOCAL Limb == 1073741824           \* 2^30
LOCAL Prec == 160

LOCAL IAbs(x) == IF x < 0 THEN -x ELSE x
LOCAL ISgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
LOCAL Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------ encoding -------------------------------- *)
RECURSIVE MantFrom(_, _)
MantFrom(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + Limb * MantFrom(x, i + 1)
Mant(x) == MantFrom(x, 2)
Expo(x) == x[1]

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Limb>> \o LimbsOf(n \div Limb)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

RECURSIVE OddPart(_, _)
OddPart(n, e) == IF n % 2 = 0 THEN OddPart(n \div 2, e + 1) ELSE <<n, e>>

(* the number  m * 2^e  in canonical form, truncated to Prec bits           *)
Norm(m, e) ==
  IF m = 0 THEN <<0>>
  ELSE LET a  == IAbs(m)
           d  == BitLen(a) - Prec
           a1 == IF d > 0 THEN a \div (2^d) ELSE a
           e1 == IF d > 0 THEN e + d ELSE e
           o  == OddPart(a1, e1)
           l  == LimbsOf(o[1])
       IN <<o[2]>> \o [i \in 1..Len(l) |-> ISgn(m) * l[i]]

(* ------------------------------ definitions ----------------------------- *)
RIntDef(n) == Norm(n, 0)
RAddDef(a, b) ==
  IF Mant(a) = 0 THEN b ELSE IF Mant(b) = 0 THEN a ELSE
  LET e == Min2(Expo(a), Expo(b))
  IN Norm(Mant(a) * 2^(Expo(a) - e) + Mant(b) * 2^(Expo(b) - e), e)
RNegDef(a)    == IF Mant(a) = 0 THEN a ELSE Norm(-Mant(a), Expo(a))
RSubDef(a, b) == RAddDef(a, RNegDef(b))
RMulDef(a, b) == IF Mant(a) = 0 \/ Mant(b) = 0 THEN <<0>>
                 ELSE Norm(Mant(a) * Mant(b), Expo(a) + Expo(b))
RLtDef(a, b)  == Mant(RSubDef(a, b)) < 0
RLeqDef(a, b) == Mant(RSubDef(a, b)) <= 0
RAbsDef(a)    == IF Mant(a) < 0 THEN RNegDef(a) ELSE a
(* quotient and square root: the largest representable magnitude not above  *)
(* the exact one (declared by what they must satisfy)                       *)
RDivDef(a, b) ==
  IF Mant(a) = 0 THEN <<0>>
  ELSE LET sh == 2 * Prec + 2
           q  == (IAbs(Mant(a)) * 2^sh) \div IAbs(Mant(b))
       IN Norm(ISgn(Mant(a)) * ISgn(Mant(b)) * q, Expo(a) - Expo(b) - sh)
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
RSqrtDef(a) ==
  IF Mant(a) = 0 THEN <<0>>
  ELSE LET sh == 2 * Prec + 2 + (Expo(a) % 2)
       IN Norm(ISqrt(Mant(a) * 2^sh), (Expo(a) - sh) \div 2)

(* ------------------------- operators in use ------------------------------ *)
RNaN == <<>>
RPosInf == <<1>>
RNegInf == <<-1>>
RFinite(a) == a = <<0>> \/ Len(a) > 1
LOCAL Both(a, b) == RFinite(a) /\ RFinite(b)
RInt(n)    == RIntDef(n)
RAdd(a, b) == IF Both(a, b) THEN RAddDef(a, b) ELSE RNaN
RSub(a, b) == IF Both(a, b) THEN RSubDef(a, b) ELSE RNaN
RMul(a, b) == IF Both(a, b) THEN RMulDef(a, b) ELSE RNaN
RDiv(a, b) == IF Both(a, b) /\ b # <<0>> THEN RDivDef(a, b) ELSE RNaN
RNeg(a)    == IF RFinite(a) THEN RNegDef(a) ELSE RNaN
RAbs(a)    == IF RFinite(a) THEN RAbsDef(a) ELSE RNaN
RLt(a, b)  == Both(a, b) /\ RLtDef(a, b)
RLeq(a, b) == Both(a, b) /\ RLeqDef(a, b)
RSqrt(a)   == IF RFinite(a) /\ RLeqDef(<<0>>, a) THEN RSqrtDef(a) ELSE RNaN

RZero == <<0>>
ROne  == <<0, 1>>
RHalf == <<-1, 1>>
RTwo  == <<1, 1>>
RPow2(k) == <<k, 1>>                       \* 2^k
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RFrac(n, d) == RDiv(RInt(n), RInt(d))
RSq(a) == RMul(a, a)

RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN RZero ELSE RAdd(RSumTo(s, n - 1), s[n])
RSum(s) == RSumTo(s, Len(s))
RECURSIVE RMaxSeq(_, _)
RMaxSeq(s, n) == IF n = 0 THEN RZero ELSE RMax(RMaxSeq(s, n - 1), s[n])
RECURSIVE RPowN(_, _)
RPowN(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPowN(a, n - 1))

(* ------------------- logarithm, exponential, pi -------------------------- *)
RECURSIVE AtanhTerms(_, _, _, _)
AtanhTerms(t, z2, j, n) ==
  IF j > n THEN RZero
  ELSE RAdd(RDiv(t, RInt(2*j + 1)), AtanhTerms(RMul(t, z2), z2, j + 1, n))
LnNear1(m) ==                               \* 2 artanh((m-1)/(m+1)),  1/2 <= m <= 2
  LET z == RDiv(RSub(m, ROne), RAdd(m, ROne))
  IN RMul(RTwo, AtanhTerms(z, RMul(z, z), 0, 109))
Log2Floor(x) == Expo(x) + 30 * (Len(x) - 2) + BitLen(IAbs(x[Len(x)])) - 1
RLnDef(x) ==                                \* x > 0
  LET k == Log2Floor(x)
      m == RMul(x, RPow2(-k))
  IN RAdd(RMul(RInt(k), LnNear1(RTwo)), LnNear1(m))
RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(t, x, j, n) ==
  IF j > n THEN RZero
  ELSE LET u == RDiv(RMul(t, x), RInt(j)) IN RAdd(u, ExpTerms(u, x, j + 1, n))
RECURSIVE SqTimes(_, _)
SqTimes(x, s) == IF s = 0 THEN x ELSE SqTimes(RMul(x, x), s - 1)
RExpDef(x) ==
  IF x = RZero THEN ROne
  ELSE LET k == Log2Floor(x) + 9
           s == IF k < 0 THEN 0 ELSE k
           y == RMul(x, RPow2(-s))
       IN SqTimes(RAdd(ROne, ExpTerms(ROne, y, 1, 30)), s)
RECURSIVE AtanInv(_, _, _)
AtanInv(n, j, m) ==                         \* sum_{i>=j} (-1)^i / ((2i+1) n^(2i+1))
  IF j > m THEN RZero
  ELSE RAdd(RDiv(RInt(IF j % 2 = 0 THEN 1 ELSE -1),
                 RMul(RInt(2*j + 1), RPowN(RInt(n), 2*j + 1))),
            AtanInv(n, j + 1, m))
RPiDef == RSub(RMul(RInt(16), AtanInv(5, 0, 40)), RMul(RInt(4), AtanInv(239, 0, 15)))

RLn(x)  == IF RLt(<<0>>, x) THEN RLnDef(x) ELSE RNaN
RExp(x) == IF RFinite(x) THEN RExpDef(x) ELSE RNaN      \* |x| < 2^31
RPi     == RPiDef

(* ----------------------------- closeness --------------------------------- *)
(* |a - b| <= tol * scale                                                    *)
RNear(a, b, tol, scale) == RLeq(RAbs(RSub(a, b)), RMul(tol, scale))
(* relative closeness with an absolute floor                                 *)
RClose(a, b, tol) == RNear(a, b, tol, RAdd(ROne, RAbs(b)))
RRelClose(a, b, tol) == RNear(a, b, tol, RAbs(b))
=============================================================================
