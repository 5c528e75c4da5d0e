----------------------------- MODULE MCGeometry -----------------------------
(* The geometry over small Gaussian-integer matrices.                        *)
EXTENDS Geometry, TLC
VARIABLE u                                 \* a tangent vector at pt
vs == <<pt, u>>
M2(a, x, y, d) == << <<CR(RInt(a)), <<RInt(x), RInt(y)>>>>, <<<<RInt(x), RNeg(RInt(y))>>, CR(RInt(d))>> >>
PDs == { M2(a, x, y, d) : a \in 2..3, d \in 2..3, x \in 0..1, y \in -1..1 }
Tgs == { M2(a, x, y, d) : a \in {-1, 2}, d \in {0, 1}, x \in {1}, y \in {-1, 0} }
Init == /\ \E X \in PDs : pt = <<X>>
        /\ \E U \in Tgs : u = <<U>>
Next == /\ IsPD(pt[1]) /\ RLt(Size1(pt[1], u[1]), RInt(4)) /\ RLt(Frob(pt[1]), RInt(20)) /\ RLt(RInt(1), Frob(pt[1]))
        /\ \E c \in {RHalf, RNeg(RFrac(1, 3))} : Move(<<MScaleR(c, u[1])>>)
        /\ u' = u
Spec == Init /\ [][Next]_vs
Depth3 == TLCGet("level") < 4
T == RPow2(-80)
X == pt[1]
U == u[1]
A == << <<CR(RInt(2)), <<RInt(1), RInt(1)>>>>, <<CR(RInt(-1)), <<RInt(0), RInt(2)>>>> >>
Cg(M) == MMul(A, MMul(M, MHerm(A)))
OnManifold == IsHermitian(X, T) /\ IsPD(X)
Back == MNear(Exp1(Exp1(X, U), MScaleR(RNeg(ROne), MMul(Exp1(X, U), MMul(MInv(X), U)))), X, RPow2(-60))
AffineInvariant == RRelClose(Inner1(Cg(X), Cg(U), Cg(U)), Inner1(X, U, U), T)
ExpEquivariant == MNear(Exp1(Cg(X), Cg(U)), Cg(Exp1(X, U)), RPow2(-60))
SecondOrder == LET t == RPow2(-20) V == MScaleR(t, U) w == Size1(X, U)
               IN RLeq(Frob(MSub(Exp1(X, V), Retr1(X, V))), RMul(RMul(Frob(X), RPowN(RMul(t, w), 3)), ROne))
RetrPositive == IsPD(Retr1(X, U)) /\ IsPD(Retr1(X, MScaleR(RInt(-5), U)))
GradRepresents == \A G \in {A, U} : RRelClose(Inner1(X, Grad1(X, G), U), ReTr(MMul(MHerm(G), U)), T)
                                    \/ ReTr(MMul(MHerm(G), U)) = RZero
HessClosed == LET G == Herm(A) H == U IN
  MNear(Hess1(X, G, H, U), MAdd(MMul(X, MMul(H, X)), Herm(MMul(U, MMul(G, X)))), T)
SProjOK == LET P == SProj1(X, U) IN
  /\ RNear(TraceAt1(X, P), RZero, T, ROne)
  /\ Frob(MSub(SProj1(X, P), P)) = RZero \/ MNear(SProj1(X, P), P, T)
  /\ RNear(Inner1(X, MSub(U, P), P), RZero, T, ROne)
  /\ RRelClose(Re(MDet(Exp1(X, P))), Re(MDet(X)), RPow2(-60))
(* the gradient of the Kronecker elliptical manifold:                        *)
(*   r_B = B herm(G) B/(alpha a) - (alpha-1) tr(B G) B / (alpha (alpha + (alpha-1) n)) *)
KronGradient == LET al == RFrac(3, 4) a == 2 b == 2 n == 4 B == M2(3, 1, 1, 2) G == Herm(A)
      ra == MScaleR(RDiv(ROne, RMul(al, RInt(b))), SProj1(X, Grad1(X, G)))
      t == ReTr(MMul(B, G))
      rb == MScaleR(RDiv(ROne, RMul(al, RInt(a))),
              MSub(Grad1(B, G), MScaleR(RDiv(RMul(RInt(a), RMul(RSub(al, ROne), t)), RAdd(al, RMul(RSub(al, ROne), RInt(n)))), B)))
      ua == SProj1(X, U)
  IN RClose(InnerKron(al, <<X>>, <<B>>, <<<<ra>>, <<rb>>>>, <<<<ua>>, <<U>>>>),
            RAdd(ReTr(MMul(G, ua)), ReTr(MMul(G, U))), T)
ASSUME LET x == <<RInt(2), RFrac(1, 3)>> y == <<RInt(-1), RInt(2)>>
  IN /\ RRelClose(DiagOf(Exp1(Diag(x), Diag(y)))[1], RMul(x[1], RExp(RDiv(y[1], x[1]))), RPow2(-90))
     /\ RRelClose(Inner1(Diag(x), Diag(y), Diag(y)), RAdd(RSq(RDiv(y[1], x[1])), RSq(RDiv(y[2], x[2]))), RPow2(-90))
=============================================================================
