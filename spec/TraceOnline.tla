---------------------------- MODULE TraceOnline ------------------------------
(* Recorded calls on online estimators against Online, on a Euclidean space, *)
(* on Hermitian positive definite matrices and on products of a              *)
(* unit-determinant and a Hermitian positive definite manifold.              *)
EXTENDS TraceBase
VARIABLES sts, pts
G == INSTANCE Geometry WITH pt <- pts
Outer(x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> CMul(x[i], CConj(y[j]))]]
Cut(x, a) == SubSeq(x, 1, a)
(* the gradients the drivers supply                                          *)
Grad(k, x, e) ==
  CASE k = "euclid" -> << Outer(x, x) >>
    [] k \in {"hpd", "mapped"} -> << MSub(Outer(x, x), e[1]) >>
    [] k = "product" ->
       LET a == Len(e[1]) b == Len(e[2]) xa == Cut(x, a) xb == Cut(x, b)
       IN << G!SProj1(e[1], Outer(xa, xa)), MSub(Outer(xb, xb), e[2]) >>
UnitDet(A) == MScaleR(RExp(RMul(RFrac(-1, Len(A)), RLn(Re(MDet(A))))), A)
Retr(k, e, u) ==
  CASE k = "euclid" -> << MAdd(e[1], u[1]) >>
    [] k \in {"hpd", "mapped"} -> << G!Retr1(e[1], u[1]) >>
    [] k = "product" -> << UnitDet(G!Retr1(e[1], u[1])), G!Retr1(e[2], u[2]) >>
Cov(k, e) ==
  CASE k \in {"euclid", "hpd"} -> e[1]
    [] k = "mapped" -> MAdd(MScaleR(RTwo, e[1]), MId(Len(e[1])))
    [] k = "product" -> MKron(e[1], e[2])
O == INSTANCE Online WITH Gradient <- Grad, Retract <- Retr, ToCov <- Cov
vars == <<sts, pts, base>>
T7 == RFrac(1, 10000000)
Init == BaseInit /\ pts = <<>> /\ sts = <<O!New(Trace.kind, Trace.lr)>>

Shows(seen, s) ==                          \* a recorded estimator is in state s
  IF s.est = <<>> THEN seen.est = <<>>
  ELSE /\ Len(seen.est) = Len(s.est)
       /\ \A i \in 1..Len(s.est) : MNear(seen.est[i], s.est[i], T7)
ShowsCov(seen, s) == IF s.est = <<>> THEN seen.cov = <<>> ELSE MNear(seen.cov, Cov(s.kind, s.est), T7)
(* after a call the state is re-anchored at what was recorded, so that       *)
(* rounding does not build up                                                *)
Anchor(s, seen) == IF s.est = <<>> THEN s ELSE [s EXCEPT !.est = seen.est]
EvCall ==
  LET e == Ev c == e.c new == O!After(c) err == O!LogsError(c) IN
  /\ pts' = pts
  /\ Judge(<< <<"SameObjects", Len(e.seen) = Len(new)>>,
              <<"Succeeds", c.sound => e.outcome = "ok">>,
              <<"Rejects", ~c.sound => e.outcome \notin {"ok", "Timeout"}>>,
              <<"LogsError", c.sound => (e.logged <=> err)>>,
              <<"ReturnsItself", c.sound /\ c.op \in {"update", "fit"} => e.self>>,
              <<"Estimate", \A i \in 1..Len(new) : Shows(e.seen[i], new[i])>>,
              <<"CovarianceOfEstimate", \A i \in 1..Len(new) : ShowsCov(e.seen[i], new[i])>>,
              <<"ArgumentsUntouched", e.untouched>> >>)
  /\ sts' = IF \A i \in 1..Len(new) : Shows(e.seen[i], new[i])
            THEN [i \in 1..Len(new) |-> Anchor(new[i], e.seen[i])] ELSE new
EvQuery ==
  LET e == Ev S == Cov(sts[e.o].kind, sts[e.o].est) t == QuadForms(MInv(S), e.X)
      p == Len(S) N == Len(e.X)
      ll == RNeg(RAdd(RAdd(RMul(RInt(p), RLn(RPi)), RLn(Re(MDet(S)))), RDiv(RSum(t), RInt(N))))
  IN UNCHANGED <<sts, pts>> /\
  Judge(<< <<"Mahalanobis", Len(e.maha) = N /\ \A i \in 1..N : RRelClose(e.maha[i], t[i], T7)>>,
           <<"Score", RNear(e.score, ll, T7, RAdd(RAbs(ll), ROne))>> >>)
Next ==
  \/ More /\ CASE Ev.a = "call" -> EvCall [] Ev.a = "query" -> EvQuery
               [] Ev.a = "unexpected" -> UnexpectedFailure /\ UNCHANGED <<sts, pts>>
  \/ Finish /\ UNCHANGED <<sts, pts>>
=============================================================================
