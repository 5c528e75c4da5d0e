--------------------------- MODULE TraceLifecycle ---------------------------
(* Recorded calls on real estimator objects against Lifecycle.  After every  *)
(* call the driver records every object: parameters, whether it is fitted,   *)
(* covariance, error, iteration count.  Trace.fresh holds, for every key,    *)
(* what a freshly constructed estimator computed.                            *)
EXTENDS Lifecycle, TraceBase
vars == <<objs, base>>
P == Trace.prop
Init == BaseInit /\ objs = <<Object(<<1, 1, 1>>, NoFit)>>
T9 == RDiv(ROne, RInt(1000000000))

Fresh(key) == LET k == CHOOSE k \in 1..Len(Trace.fresh) : Trace.fresh[k].key = key
              IN Trace.fresh[k]
SameNumber(a, b) == a = b \/ RRelClose(a, b, T9)
Holds(seen, fit) ==                        \* a recorded object holds the fit of this key
  IF fit = NoFit THEN ~seen.fitted
  ELSE LET f == Fresh(fit) IN
       seen.fitted /\ MNear(seen.S, f.S, T9) /\ SameNumber(seen.err, f.err) /\ seen.it = f.it
       /\ Len(seen.rest) = Len(f.rest)
       /\ \A i \in 1..Len(f.rest) : IF f.rest[i] = <<>> THEN seen.rest[i] = <<>> ELSE MNearAbs(seen.rest[i], f.rest[i], RMul(T9, RAdd(RInt(1), Frob(f.rest[i]))))
AllFinite(S) == \A i \in 1..Len(S) : \A j \in 1..Len(S[i]) : RFinite(S[i][j][1]) /\ RFinite(S[i][j][2])

EvCall ==
  LET e == Ev h == e.h new == After(h) o == h[2]
      fit == h[1] = "fit"
      sound == fit => ValidFit(objs[o].par, h[3], h[4])
  IN
  /\ objs' = new
  /\ Judge(
     <<  <<"SameObjects", Len(e.seen) = Len(new)>> >> \o
     (IF P = "C08" THEN
       << <<"Succeeds", sound => e.outcome = "ok">>,
          <<"ResultOfAFreshEstimator", sound /\ e.outcome = "ok" => Holds(e.seen[o], new[o].fit)>>,
          <<"ArgumentsUntouched", e.before = e.after>> >>
      ELSE IF P = "C09" THEN
       << <<"Succeeds", sound => e.outcome = "ok">>,
          <<"Parameters", \A i \in 1..Len(new) : e.seen[i].par = new[i].par>>,
          <<"NewObject", h[1] \in {"clone", "copy"} => Holds(e.seen[Len(new)], new[Len(new)].fit)>>,
          <<"ParametersTakeEffect", fit /\ sound => Holds(e.seen[o], new[o].fit)>>,
          <<"OthersUnaffected", \A i \in 1..Len(objs) : i # o \/ ~fit => Holds(e.seen[i], new[i].fit)>> >>
      ELSE
       << <<"Succeeds", sound => e.outcome = "ok">>,
          <<"FailureRaises", ~sound => e.outcome \notin {"ok", "Timeout"}>>,
          <<"PreviousFitIntact", ~sound => Holds(e.seen[o], new[o].fit)>>,
          <<"CanBeRefitted", sound /\ fit => Holds(e.seen[o], new[o].fit)>>,
          <<"NeverNonFinite", \A i \in 1..Len(e.seen) : e.seen[i].fitted => AllFinite(e.seen[i].S)>> >>))
(* data no one can promise to fit: the fit gives a finite covariance or      *)
(* raises and changes nothing                                                *)
EvExtreme ==
  LET e == Ev ok == e.outcome = "ok" IN
  /\ UNCHANGED objs
  /\ Judge(<< <<"NeverNonFinite", e.seen.fitted => AllFinite(e.seen.S)>>,
              <<"PreviousFitIntact", ~ok => Holds(e.seen, objs[e.o].fit)>>,
              <<"Terminates", e.outcome # "Timeout">> >>)
Next ==
  \/ More /\ CASE Ev.a = "call" -> EvCall [] Ev.a = "extreme" -> EvExtreme
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED objs
  \/ Finish /\ UNCHANGED objs
=============================================================================
