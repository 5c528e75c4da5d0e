----------------------------- MODULE SelfCheck ------------------------------
(* Compares every accelerated operator with its TLA+ definition.  The       *)
(* mantissas are small enough for TLC's 32-bit integers.                    *)
EXTENDS LinAlg, TLC, FiniteSets

Ms == {-7, -3, -1, 0, 1, 2, 5, 12}
Es == {-3, 0, 2}
Smalls == { Norm(m, e) : m \in Ms, e \in Es }

VARIABLES a, b
Init == a \in Smalls /\ b \in Smalls
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

eps == RPow2(-140)
ScalarOK ==
  /\ RAdd(a, b) = RAddDef(a, b) /\ RSub(a, b) = RSubDef(a, b)
  /\ RMul(a, b) = RMulDef(a, b) /\ RNeg(a) = RNegDef(a) /\ RAbs(a) = RAbsDef(a)
  /\ RLt(a, b) = RLtDef(a, b) /\ RLeq(a, b) = RLeqDef(a, b)
  /\ RInt(Mant(a)) = RIntDef(Mant(a))
DivOK  == b # RZero => RClose(RMul(RDiv(a, b), b), a, eps)
SqrtOK == (RLeq(RZero, a)) => /\ RClose(RSq(RSqrt(a)), a, eps) /\ RLeq(RZero, RSqrt(a))
LnOK   == RLt(RZero, a) => RClose(RLn(a), RLnDef(a), eps)
ExpOK  == /\ RClose(RExp(a), RExpDef(a), eps)
          /\ RClose(RMul(RExp(a), RExp(b)), RExp(RAdd(a, b)), RPow2(-120))
LnExpOK == RClose(RLn(RExp(a)), a, RPow2(-120))
PiOK   == RClose(RPi, RPiDef, eps)

NaNs == {RNaN, RPosInf, RNegInf}
NaNOK ==
  \A z \in NaNs : /\ RAdd(a, z) = RNaN /\ RAdd(z, a) = RNaN /\ RMul(a, z) = RNaN /\ RMul(z, a) = RNaN
                   /\ RSub(z, a) = RNaN /\ RDiv(z, a) = RNaN /\ RDiv(a, z) = RNaN /\ RNeg(z) = RNaN
                   /\ RAbs(z) = RNaN /\ RSqrt(z) = RNaN /\ RLn(z) = RNaN /\ RExp(z) = RNaN
                   /\ ~RLeq(a, z) /\ ~RLeq(z, a) /\ ~RLt(a, z) /\ ~RLt(z, a) /\ ~RLeq(z, z)
                   /\ RDiv(a, RZero) = RNaN /\ MInv(<<<<CZero>>>>) = <<<<<<RNaN, RNaN>>>>>>

za == <<a, b>>
zb == <<RAdd(b, ROne), a>>
M  == << <<za, zb, <<ROne, RZero>>>>, <<zb, <<RTwo, a>>, za>>, <<COne, CZero, <<b, RTwo>>>> >>
H  == MAdd(MMul(M, MHerm(M)), MId(3))
CplxOK ==
  /\ CAdd(za, zb) = <<RAddDef(a, RAdd(b, ROne)), RAddDef(b, a)>>
  /\ CMul(za, zb) = <<RSub(RMul(a, RAdd(b, ROne)), RMul(b, a)), RAdd(RMul(a, a), RMul(b, RAdd(b, ROne)))>>
  /\ CSub(CAdd(za, zb), zb) = za
  /\ CAbs2(za) = Re(CMul(za, CConj(za)))
  /\ (zb # CZero => LET q == CMul(CDiv(za, zb), zb) IN RClose(q[1], a, eps) /\ RClose(q[2], b, eps))
MatOK ==
  /\ MMul(M, H) = [i \in 1..3 |-> [j \in 1..3 |-> CSum([k \in 1..3 |-> CMul(M[i][k], H[k][j])])]]
  /\ MAdd(M, H) = [i \in 1..3 |-> [j \in 1..3 |-> CAdd(M[i][j], H[i][j])]]
  /\ MScale(za, M) = [i \in 1..3 |-> [j \in 1..3 |-> CMul(za, M[i][j])]]
  /\ MNear(MInv(H), MInvDef(H), RPow2(-110))
  /\ LET d == MDet(M) e == MDetDef(M) IN RClose(Re(d), Re(e), RPow2(-100)) /\ RClose(Im(d), Im(e), RPow2(-100))
  /\ FrobSq(M) = FrobSqDef(M)
  /\ VDot(M[1], M[2]) = CSum([i \in 1..3 |-> CMul(CConj(M[1][i]), M[2][i])])
  /\ LET q == QuadForms(H, M) r == QuadFormsDef(H, M) IN \A i \in 1..3 : RClose(q[i], r[i], eps)
  /\ MNearAbs(WScatter(<<a, ROne, b>>, M), WScatterDef(<<a, ROne, b>>, M), eps)
  /\ IsPD(H)
  /\ ~IsPD(MSub(MZero(3, 3), H))
=============================================================================
