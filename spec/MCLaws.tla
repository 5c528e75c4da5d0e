------------------------------- MODULE MCLaws -------------------------------
(* The circular closed forms agree with the ordinary real laws of the        *)
(* stacked real and imaginary parts, whose scale matrix is the half-block    *)
(* matrix of Convert; large degrees of freedom approach the normal law; for  *)
(* one complex dimension the density integrates to one (polar midpoint rule).*)
EXTENDS Laws, Convert
PDs == { << <<CR(RInt(d1)), <<RInt(x), RInt(y)>>>>, <<<<RInt(x), RNeg(RInt(y))>>, CR(RInt(d2))>> >> :
         d1 \in 2..3, d2 \in 2..3, x \in 0..1, y \in -1..1 }
Pts == { <<<<RInt(a), RInt(b)>>, <<RInt(c), RInt(1)>>>> : a \in -1..1, b \in 0..2, c \in 0..1 }
Dfs == {ROne, RFrac(5, 2), RInt(7)}
VARIABLES S, x, d
vs == <<S, x, d, held, drawn>>
Init == S \in PDs /\ x \in Pts /\ d \in Dfs /\ held = <<>> /\ drawn = <<>>
Next == UNCHANGED vs
Spec == Init /\ [][Next]_vs
T == RPow2(-70)
SR == ToMat(CovToReal(FromMat("complex", S)))
XR == LET v == VecToReal(Mk("complex", <<2>>, x)).v IN <<v>>
Law(fam, df, M, c) == [fam |-> fam, df |-> df, m |-> [i \in 1..Len(M) |-> CZero], S |-> M, complex |-> c]
SameAsReal ==
  /\ RClose(LogDensity(Law("normal", d, S, TRUE), <<x>>)[1], LogDensity(Law("normal", d, SR, FALSE), XR)[1], T)
  /\ RClose(LogDensity(Law("t", d, S, TRUE), <<x>>)[1], LogDensity(Law("t", d, SR, FALSE), XR)[1], T)
NormalLimit ==
  RClose(LogDensity(Law("t", RPow2(30), S, TRUE), <<x>>)[1], LogDensity(Law("normal", d, S, TRUE), <<x>>)[1], RPow2(-20))
(* d = 1, p = 1: integral of 2 pi r f(r) dr over [0, R] equals               *)
(* 1 - (1 + 2 R^2/d)^(-d/2); checked by a midpoint rule                      *)
RECURSIVE Mid(_, _, _)
Mid(k, n, h) == IF k = n THEN RZero
  ELSE LET r == RMul(h, RAdd(RInt(k), RHalf))
       IN RAdd(RMul(RMul(RMul(RTwo, RPi), r), RExp(LogTC(RSq(r), 1, <<<<COne>>>>, d))), Mid(k + 1, n, h))
Integrates == (S = CHOOSE z \in PDs : TRUE) /\ (x = CHOOSE w \in Pts : TRUE) =>
  LET h == RFrac(1, 16)
      want == RSub(ROne, RExp(RMul(RNeg(RMul(RHalf, d)), RLn(RAdd(ROne, RDiv(RInt(2 * 4), d))))))
  IN RClose(RMul(h, Mid(0, 32, h)), want, RFrac(1, 200))
=============================================================================
