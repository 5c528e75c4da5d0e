----------------------------- MODULE TraceMEst ------------------------------
(* Recorded fits against FixedPoint with the recursions of MEstimators.      *)
(* Trace.prop selects which clauses are judged.                              *)
EXTENDS FixedPoint, MEstimators, TraceBase
vars == <<fpvars, base>>

Judges(p) == Trace.prop = p
T8 == RDiv(ROne, RInt(100000000))
T6 == RDiv(ROne, RInt(1000000))
Problem(e) == [est |-> e.est, field |-> e.field, X |-> e.X, df |-> e.df,
               lambda |-> e.lambda, beta |-> e.beta]
Init == /\ BaseInit /\ pc = "idle" /\ path = <<>> /\ errs = <<>> /\ prob = <<>>
        /\ tol = RZero /\ cap = 0 /\ warned = FALSE
Rest == UNCHANGED <<pc, tol, cap, warned>>

(* the start of a fit: `S` is what a fit capped at 0 iterations returned     *)
EvBegin ==
  LET e == Ev IN
  /\ pc' = "run" /\ prob' = Problem(e) /\ path' = <<e.S>> /\ errs' = <<>>
  /\ UNCHANGED <<tol, cap, warned>>
  /\ Judge(IF Judges("C02") THEN
       << <<"Start", MNear(e.S, IF e.given THEN e.init ELSE SampleCov(e.X), T8)>>,
          <<"HuberConstants", e.est = "huber" => HuberConstants(Problem(e), e.q, RMul(T6, T6))>> >>
     ELSE IF Judges("C03") THEN << <<"CountZero", e.it = 0 /\ e.warned>> >>
     ELSE <<>>)
(* one more iteration: `S` is what the fit capped one iteration later returned *)
EvIterate ==
  LET e == Ev prev == Last(path) k == Len(errs) + 1 IN
  /\ path' = Append(path, e.S) /\ errs' = Append(errs, e.err) /\ UNCHANGED prob /\ Rest
  /\ Judge(
     IF Judges("C02") THEN << <<"Recursion", MNear(e.S, F(prob, prev), T8)>> >>
     ELSE IF Judges("C03") THEN
       << <<"CountIsCap", e.it = k \/ \E j \in 1..Len(errs) : errs[j] = RZero>>,
          <<"WarnedAtCap", e.warned <=> e.it = k>>,
          <<"ErrorIsLastChange", LET c == Change(e.S, prev) IN
              \/ RNear(e.err, c, T8, RAdd(c, RMul(T8, T6)))
              \/ (e.it < k /\ e.err = RZero)>> >>
     ELSE IF Judges("C06") THEN
       << <<"NeverLowersLikelihood",
            LET a == StudentLogLik(prob, prev, prob.X) b == StudentLogLik(prob, e.S, prob.X)
            IN RLeq(RSub(a, b), RMul(RMul(T8, T6), RAdd(ROne, RAbs(a))))>> >>
     ELSE <<>>)
(* the run is observed again from a later iterate on                         *)
EvLater == /\ path' = <<Ev.S>> /\ errs' = <<>> /\ UNCHANGED prob /\ Rest /\ Judge(<<>>)
(* a whole fit with tolerance and cap                                        *)
Reported(k) == errs[k]
StopsAt(k, t, c) ==
  /\ k <= c /\ k <= Len(errs)
  /\ (k < c => k > 0 /\ RLeq(Reported(k), t))
  /\ \A j \in 1..(k - 1) : ~RLeq(Reported(j), t)
EvRun ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(
     IF Judges("C03") THEN
       << <<"FirstStop", StopsAt(e.it, e.tol, e.cap)>>,
          <<"ReturnsThatIterate", e.it < Len(path) /\ MNear(e.S, path[e.it + 1], T8)>>,
          <<"ReportsThatError", IF e.it = 0 THEN e.err = RPosInf
                                ELSE e.it <= Len(errs) /\ RRelClose(e.err, errs[e.it], T6)>>,
          <<"WarnedIffAtCap", e.warned <=> e.it = e.cap>> >>
     ELSE <<>>)

(* the same fit on transformed data: coordinates changed by A, samples permuted *)
EvImage ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"Equivariant", e.k < Len(path)
                   /\ MNear(e.S, Congruence(e.A, path[e.k + 1]), e.rtol)>> >>)
(* a whole fit and its image under a permutation and a similarity: such      *)
(* changes of coordinates keep Frobenius ratios, so both stop together       *)
EvWhole ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"EquivariantFit", MNear(e.S, Congruence(e.A, e.S0), e.rtol)>>,
              <<"SameStop", e.it = e.it0>>,
              <<"SameRelativeChange", RNear(e.err, e.err0, T6, RAdd(e.err0, T6))>> >>)
(* converged fits with samples multiplied by scalars (Tyler)                 *)
EvScaled ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"ShapeUnchanged", PositiveMultiple(e.S, e.S0, e.rtol)>>,
              <<"IsConverged", MNear(e.S0, F(prob, e.S0), T6)>> >>)
(* converged fits with one sample moved further and further away             *)
EvFar ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(IF ~RLt(RMul(RInt(3), MaxInfluence(prob)), RInt(2 * NSamples(prob))) THEN <<>> ELSE
           << <<"Bounded", \A i \in 1..Len(e.S) :
                  RLeq(Frob(e.S[i]), RMul(e.bound, Frob(e.S0)))>>,
              <<"Settles", \A i \in 2..Len(e.S) : MNear(e.S[i], e.S[i-1], e.settle)>> >>)

(* the same fit with and without normalisation                               *)
EvNormalise ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"Constraint", Constraint(e.kind, e.S, T8)>>,
              <<"OnlyAScalar", PositiveMultiple(e.S, e.S0, T8)>>,
              <<"NoRescaling", e.kind \notin {"trace", "determinant", "element"} => MNear(e.S, e.S0, T8)>>,
              <<"SameError", RRelClose(e.err, e.err0, T8)>>,
              <<"SameCount", e.it = e.it0>>,
              <<"UnknownIsLogged", (e.kind \notin {"trace", "determinant", "element", "None"}) <=> e.logged>> >>)

(* Student-t likelihood                                                      *)
EvScore ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"ScoreIsLogLikelihood",
       LET L == StudentLogLik(prob, e.S, e.Xt) IN RNear(e.score, L, T8, RAdd(ROne, RAbs(L)))>> >>)
Perturbations(p) ==
  {<<i, j, z>> : i \in 1..p, j \in 1..p,
     z \in {<<RPow2(-3), RZero>>, <<RNeg(RPow2(-3)), RZero>>, <<RPow2(-7), RZero>>, <<RNeg(RPow2(-7)), RZero>>}
           \cup (IF RealField(prob) THEN {} ELSE {<<RZero, RPow2(-3)>>, <<RZero, RNeg(RPow2(-7))>>})}
EvConverged ==
  LET e == Ev p == Dim(prob) L == StudentLogLik(prob, e.S, prob.X)
      lower(T) == RLeq(StudentLogLik(prob, T, prob.X), RAdd(L, RMul(T8, RAdd(ROne, RAbs(L)))))
  IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"Stationary", MNear(F(prob, e.S), e.S, T6)>>,
              <<"LocalMaximum", \A d \in Perturbations(p) : lower(Congruence(Elementary(p, d[1], d[2], d[3]), e.S))>>,
              <<"GlobalMaximum", \A i \in 1..Len(e.others) : lower(e.others[i])>>,
              <<"ScoreAtMaximum", RNear(e.score, L, T8, RAdd(ROne, RAbs(L)))>> >>)
(* calls whose outcome is fixed                                              *)
EvOutcome ==
  LET e == Ev IN
  /\ UNCHANGED <<prob, path, errs>> /\ Rest
  /\ Judge(<< <<"ExpectedOutcome",
       CASE e.want = "error-logged-none" -> e.outcome = "ok" /\ e.none /\ e.logged
         [] e.want = "rejected" -> e.outcome \notin {"ok", "Timeout"}>> >>)

Next ==
  \/ More /\ CASE Ev.a = "begin" -> EvBegin [] Ev.a = "iterate" -> EvIterate [] Ev.a = "later" -> EvLater
               [] Ev.a = "run" -> EvRun [] Ev.a = "image" -> EvImage [] Ev.a = "whole" -> EvWhole
               [] Ev.a = "scaled" -> EvScaled [] Ev.a = "far" -> EvFar
               [] Ev.a = "normalise" -> EvNormalise [] Ev.a = "score" -> EvScore
               [] Ev.a = "converged" -> EvConverged [] Ev.a = "outcome" -> EvOutcome
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED fpvars
  \/ Finish /\ UNCHANGED fpvars
=============================================================================
