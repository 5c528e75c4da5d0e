--------------------------- MODULE TraceKronecker ---------------------------
EXTENDS Kronecker, TraceBase
vars == <<kvars, base>>
Init == BaseInit /\ fac = <<>> /\ rep = <<>>
T12 == RFrac(1, 1000000000)
T7  == RFrac(1, 10000000)
T4  == RFrac(1, 10000)
HPD(A, n) == IsMat(A, n, n) /\ IsHermitian(A, T12) /\ IsPD(A)
X0 == Trace.X
Keep == UNCHANGED kvars

EvStart ==                                 \* factors returned with no iteration
  LET e == Ev IN fac' = <<<<e.A, e.B>>>> /\ rep' = <<>>
                 /\ Judge(<< <<"StartsPositive", HPD(e.A, Trace.a) /\ HPD(e.B, Trace.b)>> >>)
EvIterate ==                               \* factors returned with one iteration more
  LET e == Ev f == <<e.A, e.B>> old == fac[Len(fac)] c == Change(f, old) IN
  /\ fac' = Append(fac, f) /\ rep' = Append(rep, e.err)
  /\ Judge(<< <<"Positive", HPD(e.A, Trace.a) /\ HPD(e.B, Trace.b)>>,
              <<"CostNotIncreased", LET a == TylerCost(MKron(old[1], old[2]), X0)
                                        b == TylerCost(MKron(e.A, e.B), X0)
                                    IN RLeq(RSub(b, a), RMul(T12, RAdd(ROne, RAbs(a))))>>,
              <<"MMStep", MMStep(old[1], old[2], e.A, e.B, X0, T7)>>,
              <<"CountIsCap", e.it = Len(rep) + 1>>,
              <<"ErrorIsChange", RNear(e.err, c, T7, RAdd(c, T12))>> >>)
EvRun ==
  LET e == Ev k == e.it IN Keep /\
  Judge(<< <<"FirstStop", /\ k <= e.cap /\ k <= Len(rep)
                          /\ (k < e.cap => k > 0 /\ RLeq(rep[k], e.tol))
                          /\ \A j \in 1..(k-1) : ~RLeq(rep[j], e.tol)>>,
           <<"ThatIterate", k < Len(fac) /\ MNear(e.A, fac[k+1][1], T12) /\ MNear(e.B, fac[k+1][2], T12)>>,
           <<"ThatError", IF k = 0 THEN e.err = RPosInf ELSE k <= Len(rep) /\ RRelClose(e.err, rep[k], T7)>> >>)
EvConverged ==
  LET e == Ev IN Keep /\
  Judge(<< <<"FixedPointEquations", FixedPoint(e.A, e.B, X0, T4)>>,
           <<"Positive", HPD(e.A, Trace.a) /\ HPD(e.B, Trace.b)>> >>)
EvFit ==                                   \* the estimator class
  LET e == Ev IN Keep /\
  Judge(<< <<"Product", MNear(e.S, MKron(e.A, e.B), T12)>>,
           <<"Positive", HPD(e.A, Trace.a) /\ HPD(e.B, Trace.b)>>,
           <<"UnitDeterminant", e.unit => RClose(Re(MDet(e.A)), ROne, T7)>>,
           <<"SameAsFunction", e.same => Len(fac) > e.it /\ MNear(e.A, fac[e.it+1][1], T12) /\ MNear(e.B, fac[e.it+1][2], T12)>> >>)
EvReject == LET e == Ev IN Keep /\ Judge(<< <<"SizesRejected", e.outcome \notin {"ok", "Timeout"}>> >>)

(* Kronecker Student-t                                                       *)
EvStudent ==
  LET e == Ev L == LogLik(MKron(e.A, e.B), e.df, e.loc, X0)
      L0 == LogLik(MKron(e.A0, e.B0), e.df, e.loc, X0)
      scale == RMul(RInt(Len(X0)), RInt(Trace.a * Trace.b)) IN Keep /\
  Judge(<< <<"ImprovesOnStart", RLeq(RSub(L0, L), RMul(T12, RAdd(ROne, RAbs(L0))))>>,
           <<"NearStationary",
             /\ \A i \in 1..Trace.b, j \in 1..Trace.b : \A z \in {COne, <<RZero, ROne>>} :
                  (i = j => z = COne) =>
                  LET D == MMul(e.RB, MMul(Unit(Trace.b, i, j, z), MHerm(e.RB)))
                  IN RLeq(RAbs(DirDeriv(e.A, e.B, MZero(Trace.a, Trace.a), D, e.df, e.loc, X0)), RMul(e.slack, scale))
             /\ \A i \in 1..Trace.a, j \in 1..Trace.a : \A z \in {COne, <<RZero, ROne>>} :
                  (i = j => z = COne) =>
                  LET D == MMul(e.RA, MMul(Unit(Trace.a, i, j, z), MHerm(e.RA)))
                  IN RLeq(RAbs(DirDeriv(e.A, e.B, D, MZero(Trace.b, Trace.b), e.df, e.loc, X0)), RMul(e.slack, scale))>>,
           <<"Roots", MNear(MMul(e.RA, MHerm(e.RA)), e.A, T7) /\ MNear(MMul(e.RB, MHerm(e.RB)), e.B, T7)>> >>)
EvGradient ==
  LET e == Ev d == DirDeriv(e.A, e.B, e.DA, e.DB, e.df, e.loc, X0)
      g == RAdd(RInner(e.GA, e.DA), RInner(e.GB, e.DB)) IN Keep /\
  Judge(<< <<"GradientOfCost", RNear(g, d, T7, RAdd(RAbs(d), RMul(Frob(e.GA), Frob(e.DA))))>>,
           <<"CostIsNegLogLik", LET L == LogLik(MKron(e.A, e.B), e.df, e.loc, X0)
                                IN RNear(RNeg(e.cost), L, T7, RAdd(ROne, RAbs(L)))>> >>)
EvScore ==
  LET e == Ev L == LogLik(e.S, e.df, e.loc, e.Xt) IN Keep /\
  Judge(<< <<"ScoreIsLogLikelihood", RNear(e.v, L, T7, RAdd(ROne, RAbs(L)))>> >>)
Next ==
  \/ More /\ CASE Ev.a = "start" -> EvStart [] Ev.a = "iterate" -> EvIterate [] Ev.a = "run" -> EvRun
               [] Ev.a = "converged" -> EvConverged [] Ev.a = "fit" -> EvFit [] Ev.a = "reject" -> EvReject
               [] Ev.a = "student" -> EvStudent [] Ev.a = "gradient" -> EvGradient [] Ev.a = "score" -> EvScore
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED kvars
  \/ Finish /\ UNCHANGED kvars
=============================================================================
