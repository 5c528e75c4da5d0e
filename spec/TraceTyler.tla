----------------------------- MODULE TraceTyler -----------------------------
(* Recorded values of the Tyler cost functions along changes of scale,       *)
(* coordinates and sample lengths, and recorded natural-gradient fits.       *)
EXTENDS TylerCost, MEstimators, TraceBase
VARIABLE val                               \* recorded cost at (Q, X)
vars == <<cvars, val, base>>
Init == BaseInit /\ Q = <<>> /\ X = <<>> /\ drift = RZero /\ val = RZero
T9 == RDiv(ROne, RInt(1000000000))
T8 == RDiv(ROne, RInt(100000000))
T7 == RDiv(ROne, RInt(10000000))
T6 == RDiv(ROne, RInt(1000000))
Bulk(S, Y) ==                              \* size of the terms that make up the cost
  LET t == QuadForms(MInv(S), Y)
  IN RAdd(RMul(RInt(Len(S)), RSum([i \in 1..Len(Y) |-> RAdd(ROne, RAbs(RLn(t[i])))])),
          RMul(RInt(Len(Y)), RAdd(ROne, RAbs(RLn(Re(MDet(S)))))))
IsCost(v, S, Y) == RNear(v, Cost(S, Y), T9, Bulk(S, Y))
EveryBackend(vs, S, Y) == \A i \in 1..Len(vs) : IsCost(vs[i].v, S, Y) /\ vs[i].real

EvStart ==
  LET e == Ev IN Q' = e.Q /\ X' = e.X /\ drift' = RZero /\ val' = e.vals[1].v /\
  Judge(<< <<"ClosedForm", EveryBackend(e.vals, e.Q, e.X)>> >>)
(* the action the specification takes gives the change of the cost           *)
Shift(e) ==
  CASE e.act = "rescale" -> RZero
    [] e.act = "recoordinate" -> RMul(RInt(Len(X)), RLn(CAbs2(MDet(e.A))))
    [] e.act = "lengths" -> RMul(RInt(Len(Q)), RSum([i \in 1..Len(X) |-> RLn(CAbs2(e.w[i]))]))
    [] e.act = "permute" -> RZero
EvMove ==
  LET e == Ev IN Q' = e.Q /\ X' = e.X /\ drift' = RAdd(drift, Shift(e)) /\ val' = e.vals[1].v /\
  Judge(<< <<"ClosedForm", EveryBackend(e.vals, e.Q, e.X)>>,
           <<"ExpectedConstant", RNear(e.vals[1].v, RAdd(val, Shift(e)), T8, RAdd(Bulk(Q, X), Bulk(e.Q, e.X)))>> >>)
EvGradient ==
  LET e == Ev IN UNCHANGED <<cvars, val>> /\
  Judge(<< <<"DifferentiableBackend", \A i \in 1..Len(e.D) :
      RNear(Re(MTrace(MMul(MHerm(e.G), e.D[i]))), CostDerivative(Q, X, e.D[i]), T6,
            RAdd(RMul(Frob(CostGradient(Q, X)), Frob(e.D[i])), ROne))>> >>)
EvRejected ==
  LET e == Ev IN UNCHANGED <<cvars, val>> /\
  Judge(<< <<"Rejected", e.outcome \notin {"ok", "Timeout"}>>, <<"Logged", e.logged>> >>)

(* -------------------------- natural-gradient fits ------------------------- *)
Pr(e) == [est |-> "tyler", field |-> e.field, X |-> e.X, df |-> RZero, lambda |-> RZero, beta |-> RZero]
Residual(e, S) ==                          \* distance of S from the ray of F(S)
  LET T == WeightedScatter(Pr(e), S) c == RDiv(Re(MTrace(S)), Re(MTrace(T)))
  IN RDiv(Frob(MSub(S, MScaleR(c, T))), Frob(S))
T4 == RFrac(1, 10000)
T2 == RFrac(1, 100)
EvFits ==                                  \* several restarts on the same data
  LET e == Ev U == UnitRows(e.X)
      n == Len(e.runs)
      good(t) == Cardinality({i \in 1..n : RLeq(Residual(e, e.runs[i].S), t)})
  IN UNCHANGED <<cvars, val>> /\
  Judge(<< <<"PositiveDefinite", \A i \in 1..n : IsHermitian(e.runs[i].S, T8) /\ IsPD(e.runs[i].S)
                                    /\ (e.field = "real" => IsReal(e.runs[i].S))>>,
           <<"FixedPoint", good(T2) = n /\ 2 * good(T4) >= n>>,
           <<"SameShapeAsFixedPointMethod", \A i \in 1..n :
               RLeq(Residual(e, e.runs[i].S), T4) => ShapeNear(e.runs[i].S, e.fp, RMul(RInt(100), T4))>>,
           <<"NegatedCost", \A i \in 1..n : RNear(RNeg(e.runs[i].err), Cost(e.runs[i].S, U), T7, Bulk(e.runs[i].S, U))>>,
           <<"NoIterationCount", \A i \in 1..n : e.runs[i].noit>>,
           <<"Descends", \A i \in 1..n : e.runs[i].given =>
               RLeq(Cost(e.runs[i].S, U), RAdd(Cost(e.runs[i].init, U), RMul(T7, Bulk(e.runs[i].init, U))))>> >>)
EvVerbose ==                               \* the same fit under several verbosities
  LET e == Ev IN UNCHANGED <<cvars, val>> /\
  Judge(<< <<"SameForEveryVerbosity", \A i \in 2..Len(e.S) : MNear(e.S[i], e.S[1], T8) /\ RClose(e.err[i], e.err[1], T8)>> >>)

Next ==
  \/ More /\ CASE Ev.a = "start" -> EvStart [] Ev.a = "move" -> EvMove [] Ev.a = "gradient" -> EvGradient
               [] Ev.a = "rejected" -> EvRejected [] Ev.a = "fits" -> EvFits [] Ev.a = "verbose" -> EvVerbose
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED <<cvars, val>>
  \/ Finish /\ UNCHANGED <<cvars, val>>
=============================================================================
